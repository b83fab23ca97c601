// Interpreter for differential-graded vector spaces, (persistent) cohomology, filtration updates between complexes,
// and union-find.  -DFIELD=p
#include "common.hpp"
using namespace vf;
using namespace bats;
#if FIELD == 0
using F = Rational<int>;
#else
using F = ModP<int, FIELD>;
#endif
using V = SparseVector<F, size_t>;
using MT_ = ColumnMatrix<V>;
using CC = ChainComplex<MT_>;
using FCC = FilteredChainComplex<double, MT_>;
using RFCC = ReducedFilteredChainComplex<double, MT_>;
using DG = DGVectorSpace<MT_>;
using RDG = ReducedDGVectorSpace<MT_>;
using FDG = FilteredDGVectorSpace<double, MT_>;
using RFDG = ReducedFilteredDGVectorSpace<double, MT_>;
using FS = Filtration<double, SimplicialComplex>;
using FQ = Filtration<double, CubicalComplex>;
using LC = LightSimplicialComplex<>; using FLt = Filtration<double, LC>;
static std::string kd; static FS fs; static FQ fq; static FLt fl;
#define WITH(expr) [&] { if (kd == "simp") { auto& f = fs; return expr; } if (kd == "light") { auto& f = fl; return expr; } auto& f = fq; return expr; }()
static FCC FC; static DG G; static RDG RG; static FDG FG; static RFDG RF; static RFCC RC;
static void init(Tok&) {}

template <class RES, class SRC> RES dgreduce(const SRC& S, const std::string& alg, const std::string& opt, bool b) {
#define ONE(A, FLAG) if (alg == A) { \
        if (opt == "none") return b ? RES(S, FLAG(), compute_basis_flag()) : RES(S, FLAG()); \
        if (opt == "clear") return b ? RES(S, FLAG(), clearing_flag(), compute_basis_flag()) : RES(S, FLAG(), clearing_flag()); \
        if (opt == "comp") return RES(S, FLAG(), compression_flag()); }
    if (alg == "default") return RES(S);
    ONE("standard", standard_reduction_flag)
    ONE("extra", extra_reduction_flag)
    ONE("dq", divide_conquer_flag)
    throw std::runtime_error("harness: bad option");
}
using CO = CochainComplex<MT_>; using RCO = ReducedCochainComplex<MT_>;
static RCO coreduce(const CO& S, const std::string& alg, const std::string& opt, bool b) {
#define CONE(A, FLAG) if (alg == A) { \
        if (opt == "none") return b ? RCO(S, FLAG(), compute_basis_flag()) : RCO(S, FLAG()); \
        if (opt == "clear") return RCO(S, FLAG(), clearing_flag()); \
        if (opt == "comp") return RCO(S, FLAG(), compression_flag()); }
    if (alg == "default") return RCO(S);
    CONE("standard", standard_reduction_flag)
    CONE("extra", extra_reduction_flag)
    CONE("dq", divide_conquer_flag)
    throw std::runtime_error("harness: bad option");
}
static std::string pairj(const PersistencePair<double>& q) {
    return JL({J(q.get_dim()), J(q.get_birth_ind()), J(q.get_death_ind()), J(q.get_birth()), J(q.get_death())});
}
template <class RFT> std::string persout(RFT& r) {
    std::vector<std::string> a, c; std::vector<size_t> be, di;
    for (size_t k = 0; k <= r.maxdim(); ++k) {
        std::vector<std::string> x, z;
        for (auto& q : r.persistence_pairs(k)) x.push_back(pairj(q));
        auto [bd, in] = r.persistence_pairs_vec(k);
        for (size_t i = 0; 2 * i + 1 < bd.size(); ++i) z.push_back(JL({J(in.at(2 * i)), J(in.at(2 * i + 1)), J(bd[2 * i]), J(bd[2 * i + 1])}));
        a.push_back(JL(x)); c.push_back(JL(z)); be.push_back(r.hdim(k)); di.push_back(r.dim(k));
    }
    return Rec().kv("val", r.val).kv("perm", r.perm).raw("pairs", JL(a)).raw("vec", JL(c)).kv("betti", be).kv("dims", di).str();
}
static std::vector<std::vector<double>> rdvals(Tok& t) {
    size_t n = t.I(); std::vector<std::vector<double>> v; for (size_t k = 0; k < n; ++k) v.push_back(t.LD(4)); return v;
}
using LLs = std::vector<std::vector<std::vector<size_t>>>;
static LLs rdcells(Tok& t) { size_t n = t.I(); LLs c; for (size_t k = 0; k < n; ++k) c.push_back(t.LL<size_t>()); return c; }
template <class X> X mk(const LLs& c) { X x(c.size() - 1); for (auto& d : c) for (auto s : d) x.add(s); return x; }
template <> LC mk<LC>(const LLs& c) { LC x(512, c.size() - 1); for (auto& d : c) for (auto s : d) x.add(s); return x; }
static std::string uf(const std::vector<PersistencePair<double>>& ps) { std::vector<std::string> x; for (auto& q : ps) x.push_back(pairj(q)); return JL(x); }

static std::string step(const std::string& op, Tok& t) {
    if (op == "filt") {
        kd = t.S(); auto c = rdcells(t); auto v = rdvals(t);
        CC D;
        if (kd == "light") { fl = FLt(mk<LC>(c), v); D = CC(fl.complex()); FC = FCC(fl); }
        else if (kd == "simp") { fs = FS(mk<SimplicialComplex>(c), v); D = CC(fs.complex()); FC = FCC(fs); }
        else { fq = FQ(mk<CubicalComplex>(c), v); D = CC(fq.complex()); FC = FCC(fq); }
        return Rec().kv("D", D.boundary).str();
    }
    if (op == "dg") {
        int deg = t.I(); bool aug = t.I();
        G = WITH(DG(f.complex(), deg, aug));
        return Rec().kv("diff", G.differential).kv("maxdim", (size_t)G.maxdim()).str();
    }
    if (op == "dgreduce") {
        std::string alg = t.S(), opt = t.S(); int b = t.I();
        RG = dgreduce<RDG>(G, alg, opt, b);
        std::vector<size_t> be, di; for (size_t k = 0; k <= RG.maxdim(); ++k) { be.push_back(RG.betti(k)); di.push_back(RG.dim(k)); }
        return Rec().kv("betti", be).kv("dims", di).str();
    }
    if (op == "dgperm") { // basis relisted, one dimension at a time or all at once
        auto ip = t.L<size_t>(); auto q = t.LL<size_t>(); bool all = t.I();
        DG H = G;
        if (all) { if (ip[0]) H.ipermute_basis(q); else H.permute_basis(q); }
        else for (size_t i = 0; i < q.size(); ++i) { if (ip[i]) H.ipermute_basis(i, q[i]); else H.permute_basis(i, q[i]); }
        G = H;
        return Rec().kv("diff", G.differential).str();
    }
    if (op == "rdgperm") { // the same on a reduced space with basis
        auto q = t.LL<size_t>();
        RG = RDG(G, standard_reduction_flag(), compute_basis_flag());
        RG.permute_basis(q);
        std::vector<size_t> be, di; for (size_t k = 0; k <= RG.maxdim(); ++k) { be.push_back(RG.betti(k)); di.push_back(RG.dim(k)); }
        return Rec().kv("betti", be).kv("dims", di).kv("R", RG.R).kv("U", RG.U).str();
    }
    if (op == "dgraw") { // a graded space given by its maps, whether or not they compose to zero
        int deg = t.I(); size_t n = t.I(); std::vector<MT_> m; for (size_t i = 0; i < n; ++i) m.push_back(rdmat<V>(t));
        DG H(m, deg); const DG& HC = H;
        std::vector<long> isd; std::vector<size_t> dims; bool same = true;
        for (size_t k = 0; k + 1 < n; ++k) isd.push_back(H.is_differential(deg == -1 ? k + 1 : k));
        ssize_t lo = deg == -1 ? 0 : -1;
        for (ssize_t k = lo; k < lo + (ssize_t)n; ++k) { same = same && H[k] == m[k - lo] && HC[k] == m[k - lo]; dims.push_back(H.dim(k)); }
        DG E(n - 1, deg); same = same && E.degree == deg && E.differential.size() == n && E.maxdim() == H.maxdim() && DG().degree == -1;
        return Rec().kv("isd", isd).kv("dims", dims).kv("same", same).str();
    }
    if (op == "cochain") {
        std::string alg = t.S(), opt = t.S(); int b = t.I(); auto ip = t.L<size_t>(); auto q = t.LL<size_t>();
        CO c = WITH(CO(f.complex()));
        auto orig = c.coboundary;
        CC h = WITH(CC(f.complex()));
        if (t.I()) { if (ip[0]) h.ipermute_basis(q); else { h.permute_basis(q); c.permute_basis(q); } if (ip[0]) for (size_t i = 0; i < q.size(); ++i) c.ipermute_basis(i, q[i]); }
        else for (size_t i = 0; i < q.size(); ++i) {
            if (ip[i]) { c.ipermute_basis(i, q[i]); h.ipermute_basis(i, q[i]); } else { c.permute_basis(i, q[i]); h.permute_basis(i, q[i]); }
        }
        RCO r = coreduce(c, alg, opt, b);
        std::vector<size_t> be; for (size_t k = 0; k <= r.maxdim(); ++k) be.push_back(r.hdim(k));
        return Rec().kv("diff", orig).kv("pdiff", c.coboundary).kv("pD", h.boundary).kv("betti", be).kv("dims", r.dim).str();
    }
    if (op == "fdg") {
        int deg = t.I(); bool aug = t.I(); std::string how = t.S();
        if (how == "cpx") FG = WITH(FDG(f, deg, aug));
        else { DG g = WITH(DG(f.complex(), deg, aug)); FG = FDG(g.differential, WITH(f.vals()), deg); }
        return Rec().kv("diff", FG.complex().differential).kv("perm", FG.perm).kv("val", FG.val).str();
    }
    if (op == "fdgupdate") { FG.update_filtration(rdvals(t)); return Rec().kv("diff", FG.complex().differential).kv("perm", FG.perm).kv("val", FG.val).str(); }
    if (op == "fdgreduce") {
        std::string alg = t.S(), opt = t.S(); int b = t.I();
        RF = dgreduce<RFDG>(FG, alg, opt, b);
        return persout(RF);
    }
    if (op == "rdgupdate") { RF.update_filtration(rdvals(t)); return persout(RF); }
    if (op == "chain") { RC = RFCC(FC); return persout(RC); }
    // updates to another filtration of the same kind; target: chain (Update_info), dg (Update_info), dg2 (UpdateInfo2), fcc
    if (op == "gen") {
        std::string kind = t.S(), target = t.S(); auto c = rdcells(t); auto v = rdvals(t);
        auto doit = [&](auto& cur, auto nw) {
            using FL = std::decay_t<decltype(cur)>;
            CC D(nw.complex());
            std::string out;
            if constexpr (!std::is_same_v<FL, FQ>) {
                if (target == "dg2") { UpdateInfo2 u(cur, nw); RF.update_basis(u); out = persout(RF); cur = nw; return Rec().kv("D", D.boundary).raw("o", out).str(); }
                Update_info<FL> u(cur, nw);
                if (target == "chain") { RC.update_filtration_general(u); out = persout(RC); }
                else if (target == "chainf") { RC.update_filtration_general(u, standard_reduction_flag()); out = persout(RC); }
                else if (target == "dg") { RF.update_filtration_general(u); out = persout(RF); }
                else if (target == "dgc") { RF.update_filtration_general_clearing(u); out = persout(RF); }
                else if (target == "fcc") { FC.update_filtration_general(u); out = Rec().kv("val", FC.vals()).kv("perm", FC.perm).kv("DP", FC.complex().boundary).str(); }
                else throw std::runtime_error("harness: bad target");
            } else throw std::runtime_error("harness: bad target");
            cur = nw;
            Rec r; r.kv("D", D.boundary).raw("o", out);
            return r.str();
        };
        if (kd == "light") return doit(fl, FLt(mk<LC>(c), v));
        if (kd == "simp") return doit(fs, FS(mk<SimplicialComplex>(c), v));
        return doit(fq, FQ(mk<CubicalComplex>(c), v));
    }
    if (op == "uf") return uf(union_find_pairs(FC));
    if (op == "binom") {             // the ends of the edges that have the given numbers among the pairs of N points
        auto ks = t.L<size_t>(); size_t N = t.I(); std::vector<std::vector<size_t>> o;
        for (auto k : ks) { auto [i, j] = binom_to_inds(k, N); o.push_back({i, j}); }
        return J(o);
    }
    if (op == "ufrips") { auto ind = t.L<size_t>(); auto v = t.LD(4); return uf(rips_union_find_pairs(ind, v)); }
    throw std::runtime_error("harness: bad op " + op);
}
int main(int argc, char** argv) { return run_main(argc, argv, init, step); }

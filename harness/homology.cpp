// Interpreter for chain complexes, (filtered) homology, generators and updates.  -DFIELD=p
#include "common.hpp"
using namespace vf;
using namespace bats;
#if FIELD == 0
using F = Rational<int>;
#else
using F = ModP<int, FIELD>;
#endif
using V = SparseVector<F, size_t>;
using MT_ = ColumnMatrix<V>;
using CC = ChainComplex<MT_>;
using RCC = ReducedChainComplex<MT_>;
using FCC = FilteredChainComplex<double, MT_>;
using RFCC = ReducedFilteredChainComplex<double, MT_>;
static CC C; static RCC RC; static FCC FC; static RFCC RF; static bool basis;
static void init(Tok&) {}

template <class RES, class SRC> RES reduce_with(const SRC& S, const std::string& alg, const std::string& opt, bool b) {
#define ONE(A, FLAG) if (alg == A) { \
        if (opt == "none") return b ? RES(S, FLAG(), compute_basis_flag()) : RES(S, FLAG()); \
        if (opt == "clear") return b ? RES(S, FLAG(), clearing_flag(), compute_basis_flag()) : RES(S, FLAG(), clearing_flag()); \
        if (opt == "comp") return b ? RES(S, FLAG(), compression_flag(), compute_basis_flag()) : RES(S, FLAG(), compression_flag()); }
    if (alg == "default") return RES(S);
    ONE("standard", standard_reduction_flag)
    ONE("extra", extra_reduction_flag)
    ONE("dq", divide_conquer_flag)
    throw std::runtime_error("harness: bad option");
}
static std::string fact(const RCC& r) {
    Rec o; o.kv("R", r.R).kv("p2c", r.p2c).kv("I", r.I);
    if (basis) o.kv("U", r.U);
    return o.str();
}
static std::vector<size_t> bettis(const RCC& r) { std::vector<size_t> b; for (size_t k = 0; k <= r.maxdim(); ++k) { b.push_back(r.betti(k)); if (r.hdim(k) != r.betti(k)) b.push_back(77777); } return b; }
static std::string gens(const RCC& r) {
    std::vector<std::vector<V>> g(r.maxdim() + 1);
    for (size_t k = 0; k <= r.maxdim(); ++k) for (size_t j = 0; j < r.hdim(k); ++j) g[k].push_back(r.get_preferred_representative(j, k));
    return J(g);
}
static std::string redout() {
    std::vector<size_t> d; for (size_t k = 0; k <= RC.maxdim(); ++k) d.push_back(RC.dim(k));
    Rec o; o.kv("betti", bettis(RC)).kv("dims", d).kv("maxdim", RC.maxdim()).raw("fact", fact(RC));
    if (basis) o.raw("gens", gens(RC));
    return o.str();
}
static std::string pairj(const PersistencePair<double>& q) {
    return JL({J(q.get_dim()), J(q.get_birth_ind()), J(q.get_death_ind()), J(q.get_birth()), J(q.get_death())});
}
static std::string persout() {
    std::vector<std::string> a, b, c, r, rp;
    for (size_t k = 0; k <= RF.maxdim(); ++k) {
        std::vector<std::string> x, y, z, u, w;
        for (auto& q : RF.persistence_pairs(k)) { x.push_back(pairj(q)); if (basis) u.push_back(J(RF.representative(q))); }
        for (auto& q : RF.persistence_pairs(k, true)) { y.push_back(pairj(q)); if (basis) w.push_back(J(RF.representative(q, true))); }
        auto [bd, in] = RF.persistence_pairs_vec(k);
        for (size_t i = 0; 2 * i + 1 < bd.size(); ++i) z.push_back(JL({J(in.at(2 * i)), J(in.at(2 * i + 1)), J(bd[2 * i]), J(bd[2 * i + 1])}));
        a.push_back(JL(x)); b.push_back(JL(y)); c.push_back(JL(z)); r.push_back(JL(u)); rp.push_back(JL(w));
    }
    std::vector<size_t> be; for (size_t k = 0; k <= RF.maxdim(); ++k) be.push_back(RF.hdim(k));
    std::vector<std::string> ex;
    for (size_t k = 0; k <= RF.maxdim(); ++k) {
        auto pv = [&](size_t d) { std::vector<double> v; for (auto i : RF.perm.at(d)) v.push_back(RF.val.at(d).at(i)); return v; };
        bool top = k == RF.maxdim(); std::vector<std::string> x;
        for (auto& q : extract_pairs(RF.RC.R.at(k), top ? std::vector<size_t>(RF.RC.R.at(k).ncol(), bats::NO_IND) : RF.RC.p2c.at(k + 1), pv(k), top ? std::vector<double>() : pv(k + 1), k)) x.push_back(pairj(q));
        ex.push_back(JL(x));
    }
    Rec o; o.kv("val", RF.val).kv("perm", RF.perm).raw("ext", JL(ex)).kv("nnzR", RF.get_nnz_R()); if (basis) o.kv("nnzU", RF.get_nnz_U());
    o.raw("pairs", JL(a)).raw("pairsp", JL(b)).raw("vec", JL(c)).kv("betti", be).raw("fact", fact(RF.RC));
    if (basis) o.raw("reps", JL(r)).raw("repsp", JL(rp));
    return o.str();
}
static std::vector<std::vector<double>> rdvals(Tok& t) {
    size_t n = t.I(); std::vector<std::vector<double>> v; for (size_t k = 0; k < n; ++k) v.push_back(t.LD(4)); return v;
}
using LLs = std::vector<std::vector<std::vector<size_t>>>;
static LLs rdcells(Tok& t) { size_t n = t.I(); LLs c; for (size_t k = 0; k < n; ++k) c.push_back(t.LL<size_t>()); return c; }
using LC = LightSimplicialComplex<>;
template <class X> X fresh(const LLs& c) {
    if constexpr (std::is_same_v<X, LC>) { size_t n = 0; for (auto& d : c) for (auto& s : d) for (auto v : s) n = std::max(n, v + 1); return X(n, c.size() - 1); }
    else return X(c.size() - 1);
}
template <class X> X mks(const LLs& c, const std::string& how = "add") {
    X x = fresh<X>(c);
    if (how == "top") { for (size_t k = c.size(); k-- > 0;) for (auto s : c[k]) x.add_recursive(s); }
    else for (auto& d : c) for (auto s : d) { if (how == "rec") x.add_recursive(s); else x.add(s); }
    return x;
}
static SimplicialComplex mksimp(const LLs& c) { return mks<SimplicialComplex>(c); }
template <class X> LLs cellsof(const X& x) {
    LLs r; for (size_t k = 0; k <= x.maxdim(); ++k) { r.emplace_back(); for (size_t i = 0; i < x.ncells(k); ++i) { auto s = x.get_simplex(k, i); r[k].emplace_back(s.begin(), s.end()); } }
    return r;
}
static LLs lastcells;                   // cells in the order of the library
template <class X> CC chainof(const X& x) { lastcells = cellsof(x); return Chain(x, F()); }
static CubicalComplex mkcube(const LLs& c) {
    CubicalComplex X(c.size() - 1);
    for (auto& d : c) for (auto s : d) X.add(s);
    return X;
}
static CellComplex mkcell(Tok& t) {     // n per dim, then cells per dim as flat [idx, coef, idx, coef ..]
    auto n = t.L<size_t>(); size_t K = t.I();
    CellComplex X(n.size() - 1);
    X.add_vertices(n[0]);
    for (size_t k = 0; k < K; ++k) {
        size_t m = t.I();
        for (size_t j = 0; j < m; ++j) {
            size_t z = t.I(); std::vector<size_t> b; std::vector<int> c;
            for (size_t i = 0; i < z; ++i) { b.push_back(t.I()); c.push_back(t.I()); }
            X.add(b, c, k);
        }
    }
    return X;
}
template <class CpxT, class ADD> Filtration<double, CpxT> mkfilt(CpxT X0, const LLs& c, const std::vector<std::vector<double>>& v, ADD add) {
    Filtration<double, CpxT> Fl(X0);
    for (size_t k = 0; k < c.size(); ++k) for (size_t i = 0; i < c[k].size(); ++i) { auto s = c[k][i]; add(Fl, v[k][i], s); }
    return Fl;
}
static Filtration<double, SimplicialComplex> fl_s; static Filtration<double, CubicalComplex> fl_q; static Filtration<double, CellComplex> fl_c; static Filtration<double, LC> fl_l; static std::string fkind;
static void keep(const Filtration<double, SimplicialComplex>& f) { fl_s = f; fkind = "simp"; }
static void keep(const Filtration<double, LC>& f) { fl_l = f; fkind = "light"; }
static void keep(const Filtration<double, CubicalComplex>& f) { fl_q = f; fkind = "cube"; }
static void keep(const Filtration<double, CellComplex>& f) { fl_c = f; fkind = "cell"; }
template <class FL> RFCC api(const FL& S, const std::string& alg, const std::string& opt, bool b) {
#define AONE(A_, FLAG) if (alg == A_) { \
        if (opt == "none") return b ? Reduce(S, F(), FLAG(), compute_basis_flag()) : Reduce(S, F(), FLAG()); \
        if (opt == "clear") return b ? Reduce(S, F(), FLAG(), clearing_flag(), compute_basis_flag()) : Reduce(S, F(), FLAG(), clearing_flag()); \
        if (opt == "comp") return b ? Reduce(S, F(), FLAG(), compression_flag(), compute_basis_flag()) : Reduce(S, F(), FLAG(), compression_flag()); }
    if (alg == "default") return Reduce(S, F());
    AONE("standard", standard_reduction_flag)
    AONE("extra", extra_reduction_flag)
    AONE("dq", divide_conquer_flag)
    throw std::runtime_error("harness: bad option");
}
#define WITHFILT(expr) [&] { if (fkind == "simp") { auto& f = fl_s; return expr; } if (fkind == "light") { auto& f = fl_l; return expr; } \
                            if (fkind == "cube") { auto& f = fl_q; return expr; } auto& f = fl_c; return expr; }()
template <class FL> std::string setfilt(const FL& fl) {
    keep(fl);
    CC c(fl.complex()); FC = FCC(fl);
    return Rec().kv("D", c.boundary).kv("val", FC.vals()).kv("perm", FC.perm).kv("DP", FC.complex().boundary).str();
}
template <class FL> std::string setsimp(const FL& fl) {
    std::string s = setfilt(fl); s.back() = ','; return s + "\"cells\":" + J(cellsof(fl.complex())) + "}";
}
template <class X> std::string simpfilt(const std::string& how, const LLs& c, const std::vector<std::vector<double>>& v) {
    if (how == "whole") return setsimp(Filtration<double, X>(mks<X>(c), v));
    if (how == "add") return setsimp(mkfilt(fresh<X>(c), c, v, [](auto& f, double x, std::vector<size_t>& s) { f.add(x, s); }));
    std::vector<std::tuple<double, size_t, size_t>> o;             // by value, larger simplices first, faces implied
    for (size_t k = 0; k < c.size(); ++k) for (size_t i = 0; i < c[k].size(); ++i) o.emplace_back(v[k][i], c.size() - k, i);
    std::sort(o.begin(), o.end());
    Filtration<double, X> f(fresh<X>(c));
    for (auto& [x, k, i] : o) { auto s = c[c.size() - k][i]; f.add_recursive(x, s); }
    return setsimp(f);
}
static std::string step(const std::string& op, Tok& t) {
    if (op == "complex") {
        std::string kind = t.S();
        if (kind == "simp") {
            std::string how = t.S(), cont = t.S(); auto c = rdcells(t);
            C = cont == "light" ? chainof(mks<LC>(c, how)) : chainof(mks<SimplicialComplex>(c, how));
            return Rec().kv("D", C.boundary).kv("valid", C.is_valid_complex()).kv("cells", lastcells).str();
        }
        else if (kind == "cube") C = Chain(mkcube(rdcells(t)), F());
        else if (kind == "cell") C = Chain(mkcell(t), F());
        else { size_t n = t.I(); std::vector<MT_> b; for (size_t k = 0; k < n; ++k) b.push_back(rdmat<V>(t)); C = CC(b); }
        return Rec().kv("D", C.boundary).kv("valid", C.is_valid_complex()).str();
    }
    if (op == "relative" || op == "subcomplex") {         // index form, or simplices of X and of A
        std::string how = t.S(); auto inds = t.LL<size_t>();
        if (op == "subcomplex") C = C.subcomplex(inds);
        else if (how == "index") C = C.relative_complex(inds);
        else { auto x = rdcells(t), a = rdcells(t); C = Chain(mksimp(x), mksimp(a), F()); }
        return Rec().kv("D", C.boundary).str();
    }
    if (op == "reduce") {
        std::string alg = t.S(), opt = t.S(); basis = t.I();
        if (alg == "api") RC = Reduce(C);
        else RC = reduce_with<RCC>(C, alg, opt, basis);
        return redout();
    }
    if (op == "apparent") { CC D = C; D.clear_compress_apparent_pairs(); return J(bettis(RCC(D, standard_reduction_flag()))); }
    if (op == "prefrep") {
        size_t k = t.I(); V c = rdvec<V>(t);
        V x = RC.to_hom_basis(c, k);
        return Rec().kv("back", RC.from_hom_basis(x, k)).kv("rep", RC.chain_preferred_representative(c, k)).str();
    }
    if (op == "tidy") { std::string w = t.S(); if (w == "cycles") RC.remove_extra_cycles(); else RC.sparsify_basis(); return Rec().raw("fact", fact(RC)).raw("gens", gens(RC)).str(); }
    if (op == "filt") {
        std::string kind = t.S(), how = t.S(), cont = kind == "simp" ? t.S() : "";
        if (kind == "simp" || kind == "cube") {
            auto c = rdcells(t); auto v = rdvals(t);
            if (kind == "simp") return cont == "light" ? simpfilt<LC>(how, c, v) : simpfilt<SimplicialComplex>(how, c, v);
            if (how == "whole") return setfilt(Filtration<double, CubicalComplex>(mkcube(c), v));
            return setfilt(mkfilt(CubicalComplex(c.size() - 1), c, v, [](auto& f, double x, std::vector<size_t>& s) { f.add(x, s); }));
        }
        auto X = mkcell(t); auto v = rdvals(t);
        return setfilt(Filtration<double, CellComplex>(X, v));
    }
    if (op == "rips") {                       // a Rips filtration from a table of distances
        std::string cont = t.S(); auto d = t.LL<long>(); size_t n = d.size(); Matrix<double> Q(n, n);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) Q(i, j) = d[i].at(j) / 4.;
        double r = t.I() / 4.; size_t dm = t.I();
        return cont == "light" ? setsimp(RipsFiltration<LC>(Q, r, dm)) : setsimp(RipsFiltration<SimplicialComplex>(Q, r, dm));
    }
    if (op == "freduce") {
        std::string alg = t.S(), opt = t.S(); basis = t.I();
        std::string via = t.S();
        if (via == "api") RF = WITHFILT(api(f, alg, opt, basis));
        else if (via == "chain") {
            FCC x = WITHFILT(Chain(f, F()));
            if (alg == "default") RF = Reduce(x); else RF = reduce_with<RFCC>(x, alg, opt, basis);
        }
        else RF = reduce_with<RFCC>(FC, alg, opt, basis);
        return persout();
    }
    if (op == "again") {                      // two reductions of the same filtered complex compared
        std::string alg = t.S(), opt = t.S(); RFCC O = reduce_with<RFCC>(FC, alg, opt, true);
        bool eq = true; for (size_t k = 0; k <= RF.maxdim(); ++k) eq = eq && barcode_equality(RF.persistence_pairs(k), O.persistence_pairs(k, true));
        return Rec().kv("same", test_reduce_result(RF, O)).kv("bars", eq).str();
    }
    if (op == "bars") {                       // barcodes given as lists of [dim, birth, death]
        auto rd = [&] { std::vector<PersistencePair<double>> v; for (auto& x : t.LL<long>()) v.emplace_back(x.at(0), 0, 1, x.at(1) / 4.0, x.at(2) / 4.0); return v; };
        auto a = rd(), b = rd(); std::vector<std::vector<size_t>> E, N; std::vector<double> len, mid;
        for (auto& x : a) { E.emplace_back(); N.emplace_back(); for (auto& y : b) { E.back().push_back(x == y); N.back().push_back(x != y); } len.push_back(x.length()); mid.push_back(2 * x.mid()); }
        return Rec().kv("same", barcode_equality(a, b)).kv("E", E).kv("N", N).kv("len", len).kv("mid", mid).str();
    }
    if (op == "fupdate") { RF.update_filtration(rdvals(t)); return persout(); }
    if (op == "cupdate") { FC.update_filtration(rdvals(t)); return Rec().kv("val", FC.vals()).kv("perm", FC.perm).kv("DP", FC.complex().boundary).str(); }
    if (op == "ftidy") { std::string w = t.S(); if (w == "cycles") RF.remove_extra_cycles(); else RF.sparsify_basis(); return persout(); }
    throw std::runtime_error("harness: bad op " + op);
}
int main(int argc, char** argv) { return run_main(argc, argv, init, step); }

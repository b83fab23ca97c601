// Interpreter for cell maps, chain maps and maps induced on homology.  -DFIELD=p
#include "common.hpp"
using namespace vf;
using namespace bats;
#if FIELD == 0
using F = Rational<int>;
#else
using F = ModP<int, FIELD>;
#endif
using V = SparseVector<F, size_t>;
using MT_ = ColumnMatrix<V>;
using CC = ChainComplex<MT_>;
using RCC = ReducedChainComplex<MT_>;
using DG = DGVectorSpace<MT_>;
using RDG = ReducedDGVectorSpace<MT_>;
using SC = SimplicialComplex; using LC = LightSimplicialComplex<>; using QC = CubicalComplex;
template <class X> struct Reg { static std::map<long, X> m; };
template <class X> std::map<long, X> Reg<X>::m;
static std::map<long, CellularMap> maps; static std::map<long, RCC> rc; static std::map<long, RDG> rd; using CO = CochainComplex<MT_>; using RCO = ReducedCochainComplex<MT_>; static std::map<long, RCO> ro; static std::map<long, CC> cc;
static std::string kind; static std::map<long, ChainMap<MT_>> raw;
static ChainMap<MT_> cmap(long i) { auto it = raw.find(i); return it != raw.end() ? it->second : ChainMap<MT_>(maps.at(i)); }
static std::vector<MT_> rdmats(Tok& t) { size_t n = t.I(); std::vector<MT_> o; for (size_t k = 0; k < n; ++k) o.push_back(rdmat<V>(t)); return o; }
static std::vector<MT_> transposed(std::vector<MT_> m) { for (auto& x : m) x = x.T(); return m; }
static DGLinearMap<MT_> dmap(long i, int deg) { auto it = raw.find(i); return it == raw.end() ? DGLinearMap<MT_>(maps.at(i), deg) : DGLinearMap<MT_>(deg == -1 ? it->second.map : transposed(it->second.map)); }
static DG rawdg(const CC& c, int deg) {        // the graded space with the differentials of c
    std::vector<MT_> d; size_t top = c.maxdim();
    for (size_t k = 0; k <= top; ++k) d.push_back(k == 0 ? (deg == -1 ? MT_(0, c.dim(0)) : MT_(c.dim(0), 0)) : deg == -1 ? c.boundary[k] : c.boundary[k].T());
    d.push_back(deg == -1 ? MT_(c.dim(top), 0) : MT_(0, c.dim(top)));
    return DG(d, deg);
}
static CO rawco(const CC& c) {
    std::vector<size_t> dim; std::vector<MT_> d;
    for (size_t k = 0; k <= c.maxdim(); ++k) { dim.push_back(c.dim(k)); d.push_back(k == 0 ? MT_(1, c.dim(0)).T() : c.boundary[k].T()); }
    return CO(dim, d);
}
static void init(Tok& h) { kind = h.S(); }
using LLs = std::vector<std::vector<std::vector<size_t>>>;
static LLs rdcells(Tok& t) { size_t n = t.I(); LLs c; for (size_t k = 0; k < n; ++k) c.push_back(t.LL<size_t>()); return c; }
template <class X> X mk(const LLs& c, size_t nv) { X x(c.size() - 1); for (auto& d : c) for (auto s : d) x.add(s); return x; }
template <> LC mk<LC>(const LLs& c, size_t nv) { LC x(nv, c.size() - 1); for (auto& d : c) for (auto s : d) x.add(s); return x; }
template <class X> CellularMap vmap(const X& x, const X& y, const std::vector<size_t>& f0) { return SimplicialMap(x, y, f0); }
template <> CellularMap vmap<QC>(const QC&, const QC&, const std::vector<size_t>&) { throw std::runtime_error("harness: no vertex maps of cubes"); }
template <class X> CellularMap incl(const X& x, const X& y) { return SimplicialMap(x, y); }
template <> CellularMap incl<QC>(const QC& x, const QC& y) { return CubicalMap(x, y); }
template <class RES, class SRC> RES red(const SRC& S, const std::string& alg, const std::string& opt) {
#define ONE(A, FLAG) if (alg == A) { \
        if (opt == "none") return RES(S, FLAG(), compute_basis_flag()); \
        if (opt == "clear") return RES(S, FLAG(), clearing_flag(), compute_basis_flag()); }
    if (alg == "default") return RES(S);
    ONE("standard", standard_reduction_flag)
    ONE("extra", extra_reduction_flag)
    ONE("dq", divide_conquer_flag)
    throw std::runtime_error("harness: bad option");
}
static std::string imats(const CellularMap& f) { std::vector<std::string> o; for (size_t k = 0; k <= f.maxdim(); ++k) o.push_back(J(f[k])); return JL(o); }
static std::string redout(const RCC& r) {
    std::vector<std::vector<V>> g(r.maxdim() + 1);
    for (size_t k = 0; k <= r.maxdim(); ++k) for (size_t j = 0; j < r.hdim(k); ++j) g[k].push_back(r.get_preferred_representative(j, k));
    return Rec().kv("gens", g).str();
}
template <class R> std::string hgens(const R& r) {
    std::vector<std::vector<V>> gens(r.maxdim() + 1);
    for (size_t k = 0; k <= r.maxdim(); ++k) for (size_t j = 0; j < r.hdim(k); ++j) gens[k].push_back(r.get_preferred_representative(j, k));
    return Rec().kv("gens", gens).str();
}
template <class X> std::string go(const std::string& op, Tok& t) {
    auto& xs = Reg<X>::m;
    if (op == "cpx") { long i = t.I(); size_t nv = t.I(); xs.insert_or_assign(i, mk<X>(rdcells(t), nv)); cc[i] = CC(xs.at(i)); return Rec().kv("D", cc[i].boundary).str(); }
    if (op == "rawcpx") { long i = t.I(); cc[i] = CC(rdmats(t)); return Rec().kv("D", cc[i].boundary).str(); }
    if (op == "rawmap") { long i = t.I(); t.I(); t.I(); raw.insert_or_assign(i, ChainMap<MT_>(rdmats(t))); return Rec().kv("F", raw.at(i).map).str(); }
    if (op == "map") {
        long i = t.I(); std::string how = t.S(); long a = t.I(), b = t.I();
        if (how == "incl") maps[i] = incl(xs.at(a), xs.at(b));
        else if (how == "id") maps[i] = CellularMap::identity(xs.at(a));
        else maps[i] = vmap(xs.at(a), xs.at(b), t.L<size_t>());
        return Rec().raw("I", imats(maps[i])).kv("F", Chain(maps[i], F()).map).str();
    }
    if (op == "assign") {        // a fresh map filled dimension by dimension
        long i = t.I(); auto order = t.L<size_t>(); CellularMap m; const CellularMap& src = maps.at(i);
        for (auto k : order) m[k] = src[k];
        return imats(m);
    }
    if (op == "relmap") {        // relative chain map of map i : X -> Y, sub A of X, B of Y
        long i = t.I(), a = t.I(), A = t.I(), b = t.I(), B = t.I();
        if constexpr (std::is_same_v<X, SC>) { ChainMap<MT_> m(maps.at(i), xs.at(a), xs.at(A), xs.at(b), xs.at(B));
        auto ia = xs.at(a).get_indices(xs.at(A)), ib = xs.at(b).get_indices(xs.at(B));
        return Rec().kv("F", m.map).kv("ia", ia).kv("ib", ib).str(); }
    }
    if (op == "relidx") {
        long i = t.I(); auto rows = t.LL<size_t>(), cols = t.LL<size_t>();
        ChainMap<MT_> m(maps.at(i)); auto n = m.relative_map(rows, cols);
        return Rec().kv("F", n.map).str();
    }
    if (op == "relcpx") { long i = t.I(), a = t.I(), A = t.I(); if constexpr (std::is_same_v<X, SC>) { cc[i] = CC(xs.at(a), xs.at(A)); return Rec().kv("D", cc[i].boundary).str(); } }
    if (op == "red") { long i = t.I(); std::string alg = t.S(), opt = t.S(); rc[i] = red<RCC>(cc.at(i), alg, opt); return redout(rc[i]); }
    if (op == "induced") { long i = t.I(), a = t.I(), b = t.I(); size_t k = t.I(); return J(induced_map(cmap(i), rc.at(a), rc.at(b), k)); }
    if (op == "relinduced") {
        long i = t.I(), a = t.I(), A = t.I(), b = t.I(), B = t.I(), ra = t.I(), rb = t.I(); size_t k = t.I();
        if constexpr (std::is_same_v<X, SC>) return J(induced_map(ChainMap<MT_>(maps.at(i), xs.at(a), xs.at(A), xs.at(b), xs.at(B)), rc.at(ra), rc.at(rb), k));
    }
    if (op == "dgred") {
        long i = t.I(); std::string via = t.S(); int deg = t.I(); bool aug = t.I(); std::string alg = t.S(), opt = t.S();
        if (via == "coch") {
            CO c = kind == "raw" ? rawco(cc.at(i)) : CO(xs.at(i));
            if (alg == "default") ro[i] = RCO(c);
            else if (alg == "standard") ro[i] = RCO(c, standard_reduction_flag(), compute_basis_flag());
            else if (alg == "extra") ro[i] = RCO(c, extra_reduction_flag(), compute_basis_flag());
            else ro[i] = RCO(c, divide_conquer_flag(), compute_basis_flag());
            return hgens(ro[i]);
        }
        DG g = kind == "raw" ? rawdg(cc.at(i), deg) : DG(xs.at(i), deg, aug); auto& r = rd[i] = red<RDG>(g, alg, opt);
        return hgens(r);
    }
    if (op == "dgmap") { long i = t.I(); int deg = t.I(); auto m = dmap(i, deg); return J(m.map); }
    if (op == "dginduced") {     // degree -1: H(a) -> H(b); degree +1: H(b) -> H(a)
        long i = t.I(); std::string via = t.S(); long a = t.I(), b = t.I(); int deg = t.I(); size_t k = t.I();
        if (via == "coch") return J(induced_map(cmap(i), ro.at(a), ro.at(b), k));
        auto m = dmap(i, deg);
        return J(deg == -1 ? induced_map(m, rd.at(a), rd.at(b), k) : induced_map(m, rd.at(b), rd.at(a), k));
    }
    if (op == "dgpref") {
        long i = t.I(); std::string via = t.S(); size_t k = t.I(); V c = rdvec<V>(t);
        if (via == "coch") { auto x = ro.at(i).to_hom_basis(c, k); return Rec().kv("back", ro.at(i).from_hom_basis(x, k)).kv("rep", ro.at(i).chain_preferred_representative(c, k)).str(); }
        auto x = rd.at(i).to_hom_basis(c, k);
        return Rec().kv("back", rd.at(i).from_hom_basis(x, k)).kv("rep", rd.at(i).chain_preferred_representative(c, k)).str();
    }
    throw std::runtime_error("harness: bad op " + op);
}
static std::string serp(size_t n) {        // the diagram of repeated subdivisions of a triangle
    auto S = serpinski_diagram(n); std::vector<std::string> nodes, edges;
    for (size_t i = 0; i < S.nnode(); ++i) {
        CC c(S.node_data(i)); RCC r(c); std::vector<size_t> h; for (size_t k = 0; k <= r.maxdim(); ++k) h.push_back(r.hdim(k));
        nodes.push_back(Rec().kv("D", c.boundary).kv("h", h).str());
    }
    auto C = Chain(S, F());
    for (size_t i = 0; i < S.nedge(); ++i) edges.push_back(Rec().kv("s", S.edge_source(i)).kv("t", S.edge_target(i)).raw("I", imats(S.edge_data(i))).kv("F", C.edge_data(i).map).str());
    return Rec().raw("nodes", JL(nodes)).raw("edges", JL(edges)).str();
}
static std::string step(const std::string& op, Tok& t) {
    if (op == "serp") return serp(t.I());
    if (kind == "simp") return go<SC>(op, t);
    if (kind == "light") return go<LC>(op, t);
    return go<QC>(op, t);
}
int main(int argc, char** argv) { return run_main(argc, argv, init, step); }

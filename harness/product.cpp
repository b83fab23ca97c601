// Interpreter for products, tensor, relative and sub complexes.  -DFIELD=p
#include "common.hpp"
using namespace vf;
using namespace bats;
#if FIELD == 0
using F = Rational<int>;
#else
using F = ModP<int, FIELD>;
#endif
using V = SparseVector<F, size_t>;
using MT_ = ColumnMatrix<V>;
using CC = ChainComplex<MT_>;
using RCC = ReducedChainComplex<MT_>;
using SC = SimplicialComplex; using LC = LightSimplicialComplex<>;
static std::string kind;
static void init(Tok& h) { kind = h.S(); }
using LLs = std::vector<std::vector<std::vector<size_t>>>;
static LLs rdcells(Tok& t) { size_t n = t.I(); LLs c; for (size_t k = 0; k < n; ++k) c.push_back(t.LL<size_t>()); return c; }
static size_t bound(const LLs& c) { size_t n = 0; for (auto& s : c.at(0)) n = std::max(n, s[0] + 1); return n; }
template <class X> X mk(const LLs& c) { X x(c.size() - 1); for (auto& d : c) for (auto s : d) x.add(s); return x; }
template <> LC mk<LC>(const LLs& c) { LC x(bound(c), c.size() - 1); for (auto& d : c) for (auto s : d) x.add(s); return x; }
template <class X> LLs cells(const X& x) { LLs r; for (size_t k = 0; k <= x.maxdim(); ++k) { r.emplace_back(); for (size_t i = 0; i < x.ncells(k); ++i) r.back().push_back(x.get_simplex(k, i)); } return r; }
static CC rdcc(Tok& t) { size_t n = t.I(); std::vector<MT_> b; for (size_t k = 0; k < n; ++k) b.push_back(rdmat<V>(t)); return CC(b); }
static RCC red(const CC& c, const std::string& alg) {
    if (alg == "default") return RCC(c);
    if (alg == "clear") return RCC(c, standard_reduction_flag(), clearing_flag(), compute_basis_flag());
    if (alg == "extra") return RCC(c, extra_reduction_flag(), compute_basis_flag());
    return RCC(c, standard_reduction_flag(), compute_basis_flag());
}
static std::vector<std::vector<V>> gens(const RCC& r) {
    std::vector<std::vector<V>> g(r.maxdim() + 1);
    for (size_t k = 0; k <= r.maxdim(); ++k) for (size_t j = 0; j < r.hdim(k); ++j) g[k].push_back(r.get_preferred_representative(j, k));
    return g;
}
template <class X> std::string go(const std::string& op, Tok& t) {
    if (op == "tri") {           // md = -1: default, n = -1: default
        X x = mk<X>(rdcells(t)), y = mk<X>(rdcells(t)); long md = t.I(), n = t.I();
        X xy = md < 0 ? TriangulatedProduct(x, y) : n < 0 ? TriangulatedProduct(x, y, md) : TriangulatedProduct(x, y, md, n);
        return Rec().kv("cells", cells(xy)).kv("D", Chain(xy, F()).boundary).str();
    }
    if (op == "ez") {
        X x = mk<X>(rdcells(t)), y = mk<X>(rdcells(t)); size_t md = t.I();
        auto [T, f, xy] = EilenbergZilber(x, y, md, F());
        return Rec().kv("DX", Chain(x, F()).boundary).kv("DY", Chain(y, F()).boundary).kv("T", T.boundary).kv("F", f.map).kv("cells", cells(xy)).kv("D", Chain(xy, F()).boundary).str();
    }
    if (op == "ezrel") {
        X x = mk<X>(rdcells(t)), a = mk<X>(rdcells(t)), y = mk<X>(rdcells(t)), b = mk<X>(rdcells(t)); size_t md = t.I();
        if constexpr (std::is_same_v<X, SC>) {
            auto [T, f, xy] = EilenbergZilber(x, y, md, F());
            auto [RT, rf, RXY] = EilenbergZilber(x, a, y, b, md, F());
            return Rec().kv("T", T.boundary).kv("F", f.map).kv("cells", cells(xy)).kv("D", Chain(xy, F()).boundary).kv("RT", RT.boundary).kv("RF", rf.map).kv("RD", RXY.boundary).str();
        }
    }
    if (op == "relc") {
        X x = mk<X>(rdcells(t)), a = mk<X>(rdcells(t));
        if constexpr (std::is_same_v<X, SC>) return Rec().kv("D", Chain(x, F()).boundary).kv("DA", Chain(a, F()).boundary).kv("R", Chain(x, a, F()).boundary).str();
    }
    if (op == "mv") {            // X = A u B, Y = A n B
        X a = mk<X>(rdcells(t)), b = mk<X>(rdcells(t));
        if constexpr (std::is_same_v<X, SC>) {
            auto x = simplicial_union(a, b); auto y = intersection(a, b);
            std::vector<std::string> ms;
            for (size_t k = 0; k + 1 <= x.maxdim(); ++k) { if (k > y.maxdim()) break; ms.push_back(J(mayer_vietoris_boundary(a, x, y, k))); }
            return Rec().kv("x", cells(x)).kv("y", cells(y)).kv("DX", Chain(x, F()).boundary).kv("DY", Chain(y, F()).boundary).raw("M", JL(ms)).str();
        }
    }
    throw std::runtime_error("harness: bad op " + op);
}
static std::string step(const std::string& op, Tok& t) {
    if (op == "sub") {           // subcomplex and quotient of a chain complex given by indices
        CC c = rdcc(t); auto i = t.LL<size_t>(); auto j = i;
        auto s = c.subcomplex(i), q = c.relative_complex(j);
        return Rec().kv("S", s.boundary).kv("Q", q.boundary).kv("valid", s.is_valid_complex() && q.is_valid_complex()).str();
    }
    if (op == "tens") {          // dmax = -1: default
        CC a = rdcc(t), b = rdcc(t); long d = t.I();
        return J((d < 0 ? tensor_product(a, b) : tensor_product(a, b, d)).boundary);
    }
    if (op == "kronc") { CC a = rdcc(t), b = rdcc(t); size_t dx = t.I(); V x = rdvec<V>(t); size_t dy = t.I(); V y = rdvec<V>(t); return J(kron_chains(x, dx, a, y, dy, b)); }
    if (op == "kronh") {
        CC a = rdcc(t), b = rdcc(t); std::string al = t.S(), bl = t.S(), cl = t.S();
        CC c = tensor_product(a, b); RCC ra = red(a, al), rb = red(b, bl), rc = red(c, cl);
        std::vector<std::vector<std::string>> ms; std::vector<std::string> rows;
        for (size_t i = 0; i <= a.maxdim(); ++i) { std::vector<std::string> r; for (size_t j = 0; j <= b.maxdim(); ++j) r.push_back(J(kron_homology(i, ra, j, rb, rc))); rows.push_back(JL(r)); }
        return Rec().kv("gx", gens(ra)).kv("gy", gens(rb)).kv("g", gens(rc)).raw("K", JL(rows)).str();
    }
    if (op == "mat") { MT_ a = rdmat<V>(t), b = rdmat<V>(t); return Rec().kv("T", tensor_product(a, b)).kv("S", direct_sum(a, b)).str(); }
    if (op == "vec") { V a = rdvec<V>(t), b = rdvec<V>(t); size_t m = t.I(); return Rec().kv("K", a.kron(b, m)).kv("T", a.tensor(b, m)).kv("sh", a.shift_inds(m)).str(); }
    if (kind == "simp") return go<SC>(op, t);
    return go<LC>(op, t);
}
int main(int argc, char** argv) { return run_main(argc, argv, init, step); }

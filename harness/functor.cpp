// Interpreter for functors between diagrams: covers / point sets -> complexes -> chain complexes -> homology.  -DFIELD=p
#include "common.hpp"
using namespace vf;
using namespace bats;
#if FIELD == 0
using F = Rational<int>;
#else
using F = ModP<int, FIELD>;
#endif
using V = SparseVector<F, size_t>;
using MT_ = ColumnMatrix<V>;
using SD = Diagram<std::set<size_t>, std::vector<size_t>>;
using DS = DataSet<double>; using MX = Matrix<double>;
static Diagram<SimplicialComplex, CellularMap> td;
static Diagram<ChainComplex<MT_>, ChainMap<MT_>> cd;
static Diagram<ReducedChainComplex<MT_>, MT_> hd;
static Diagram<DGVectorSpace<MT_>, DGLinearMap<MT_>> dd;
static Diagram<ReducedDGVectorSpace<MT_>, MT_> dhd;
static Diagram<size_t, MT_> rh;
static void init(Tok&) {}
template <class D, class FN, class FE> std::string dgm(const D& g, FN fn, FE fe) {
    std::vector<std::string> n, e;
    for (size_t i = 0; i < g.nnode(); ++i) n.push_back(fn(g.node_data(i)));
    for (size_t j = 0; j < g.nedge(); ++j) e.push_back(JL({J(g.edge_source(j)), J(g.edge_target(j)), fe(g.edge_data(j))}));
    return Rec().raw("nodes", JL(n)).raw("edges", JL(e)).str();
}
static std::string cells(const SimplicialComplex& x) {
    std::vector<std::vector<std::vector<size_t>>> c(x.maxdim() + 1);
    for (size_t k = 0; k <= x.maxdim(); ++k) for (size_t i = 0; i < x.ncells(k); ++i) { auto s = x.get_simplex(k, i); c[k].emplace_back(s.begin(), s.end()); }
    return J(c);
}
static std::string imats(const CellularMap& f) { std::vector<std::string> o; for (size_t k = 0; k <= f.maxdim(); ++k) o.push_back(J(f[k])); return JL(o); }
template <class R> std::string gens(const R& r) {
    std::vector<std::vector<V>> g(r.maxdim() + 1);
    for (size_t k = 0; k <= r.maxdim(); ++k) for (size_t j = 0; j < r.hdim(k); ++j) g[k].push_back(r.get_preferred_representative(j, k));
    return J(g);
}
static std::string mat(const MT_& m) { return J(m); }
static std::string mats(const std::vector<MT_>& m) { return J(m); }
static std::string top(const Diagram<SimplicialComplex, CellularMap>& g) { return dgm(g, cells, imats); }
static Cover rdcov(Tok& t) { Cover c; for (auto& s : t.LL<size_t>()) c.emplace_back(s.begin(), s.end()); return c; }
template <class D> void rdedges(Tok& t, D& g) { size_t m = t.I(); for (size_t j = 0; j < m; ++j) { size_t s = t.I(), u = t.I(); g.add_edge(s, u, t.L<size_t>()); } }
static MX rdmx(Tok& t) { size_t m = t.I(), n = t.I(); MX M(m, n); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) M(i, j) = t.I() / 4.; return M; }
static SD rdsets(Tok& t) { SD g; for (auto& s : t.LL<size_t>()) g.add_node(std::set<size_t>(s.begin(), s.end())); rdedges(t, g); return g; }
template <class FN> std::string metric(const std::string& m, FN f) {
    if (m == "euc") return f(Euclidean());
    if (m == "l1") return f(L1Dist());
    if (m == "linf") return f(LInfDist());
    throw std::runtime_error("harness: bad metric");
}
static std::vector<double> rads(Tok& t, bool euc) { std::vector<double> r; for (long x : t.L<long>()) r.push_back(euc ? std::sqrt(x / 64.) : x / 8.); return r; }
template <class FN> std::string guarded(FN f) { try { return f(); } catch (const std::range_error&) { return "{\"why\":\"range\"}"; } }
template <class FN> std::string refusing(FN f) { try { return f(); } catch (const std::runtime_error&) { return "{\"why\":\"refused\"}"; } }
static std::string bars(const Diagram<ReducedChainComplex<MT_>, MT_>& d, size_t k) {
    std::vector<std::string> o; for (auto& x : barcode(d, k)) o.push_back(JL({J(x.get_dim()), J(x.get_birth()), J(x.get_birth_ind()), J(x.get_death()), J(x.get_death_ind())}));
    return JL(o);
}
static std::string step(const std::string& op, Tok& t) {
    omp_set_num_threads(t.I());
    if (op == "nerve") {
        Diagram<Cover, std::vector<size_t>> g; size_t n = t.I(); for (size_t i = 0; i < n; ++i) g.add_node(rdcov(t));
        rdedges(t, g); td = Nerve(g, size_t(t.I())); return top(td);
    }
    if (op == "rips" || op == "ripsat") {
        SD g = rdsets(t); DS X(rdmx(t)); std::string m = t.S(); auto r = rads(t, m == "euc"); size_t d = t.I();
        return metric(m, [&](auto dist) { return guarded([&] { td = op == "rips" ? Rips(g, X, dist, r.at(0), d) : Rips(g, X, dist, r, d); return top(td); }); });
    }
    if (op == "riphom") {
        SD g = rdsets(t); DS X(rdmx(t)); std::string m = t.S(); auto r = rads(t, m == "euc"); size_t k = t.I();
        return metric(m, [&](auto dist) { return guarded([&] { rh = RipsHom(g, X, dist, r, k, F()); return dgm(rh, J<size_t>, mat); }); });
    }
    if (op == "chain") {
        std::string how = t.S(); cd = how == "tm" ? ChainFunctor<MT_>(td) : how == "tf" ? ChainFunctor(td, F()) : how == "us" ? __ChainFunctor(td, F()) : Chain(td, F());
        return dgm(cd, [](const ChainComplex<MT_>& c) { return J(c.boundary); }, [](const ChainMap<MT_>& f) { return J(f.map); });
    }
    if (op == "hom") { hd = Hom(cd, size_t(t.I())); return dgm(hd, gens<ReducedChainComplex<MT_>>, mat); }
    if (op == "homs") {
        long top = t.I(); return refusing([&] { auto h = top < 0 ? Hom(cd) : Hom(cd, bool(top)); return dgm(h, gens<ReducedChainComplex<MT_>>, mats); });
    }
    if (op == "bars") return bars(hd, t.I());
    if (op == "dgl") {
        int deg = t.I(); dd = deg == 0 ? DGLinearFunctor<MT_>(td) : DGLinearFunctor<MT_>(td, deg);
        return dgm(dd, [](const DGVectorSpace<MT_>& c) { return Rec().kv("deg", c.degree).kv("D", c.differential).str(); }, [](const DGLinearMap<MT_>& f) { return J(f.map); });
    }
    if (op == "dghom") { dhd = Hom(dd, size_t(t.I())); return dgm(dhd, gens<ReducedDGVectorSpace<MT_>>, mat); }
    if (op == "dghoms") { long top = t.I(); return refusing([&] { auto h = top < 0 ? Hom(dd) : Hom(dd, bool(top)); return dgm(h, gens<ReducedDGVectorSpace<MT_>>, mats); }); }
    throw std::runtime_error("harness: bad op " + op);
}
int main(int argc, char** argv) { return run_main(argc, argv, init, step); }

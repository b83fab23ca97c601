// Interpreter for lower-star / level-set extensions and grid complexes.
#include "common.hpp"
#include <filtration/extension.hpp>
#include <zigzag/extension.hpp>
#include <topology/levelset.hpp>
#include <topology/grid.hpp>
using namespace vf;
using namespace bats;
using SC = SimplicialComplex; using LC = LightSimplicialComplex<>; using QC = CubicalComplex;
using Cells = std::vector<std::vector<std::vector<size_t>>>;
template <class X> using ZF = zigzag::ZigzagFiltration<X, double>;
template <class X> struct Reg { static std::unique_ptr<ZF<X>> z; };
template <class X> std::unique_ptr<ZF<X>> Reg<X>::z;
static std::string cur;
static void init(Tok& h) {}
template <class X> Cells cells(const X& x) { Cells c(x.maxdim() + 1); for (size_t k = 0; k <= x.maxdim(); ++k) for (size_t i = 0; i < x.ncells(k); ++i) { std::vector<size_t> s; x.get_cell(k, i, s); c[k].push_back(s); } return c; }
template <class X> struct Mk { static X make(const Cells& c, size_t nv) { return X(c.size() - 1); } };
template <> LC Mk<LC>::make(const Cells& c, size_t nv) { return LC(nv, c.size() - 1); }
template <class X> X rd(Tok& t, size_t nv = 0) { size_t n = t.I(); Cells c; for (size_t k = 0; k < n; ++k) c.push_back(t.LL<size_t>()); X x = Mk<X>::make(c, nv); for (auto& d : c) for (auto& s : d) x.add(s); return x; }
template <class X> std::string keep(const std::string& kind, ZF<X>* z) { cur = kind; Reg<X>::z.reset(z); return Rec().kv("cells", cells(z->complex())).kv("vals", z->vals()).str(); }
template <class X> std::string lower(Tok& t, size_t nv) {
    X x = rd<X>(t, nv); auto f = t.LD(4); auto [v, i] = lower_star_filtration(x, f);
    std::function<std::tuple<double, size_t>(const std::vector<size_t>&)> g = [&](const std::vector<size_t>& s) { double b = f[s[0]]; for (auto u : s) b = std::max(b, f[u]); return std::make_tuple(b, s[0]); };
    auto [fv, fi] = extend_filtration(x, g);
    return Rec().kv("cells", cells(x)).kv("v", v).kv("i", i).kv("fv", fv).str();
}
template <class X> std::string extz(const std::string& kind, Tok& t, size_t nv) { X x = rd<X>(t, nv); auto f = t.LD(4); double eps = t.I() / 4.; try { return keep<X>(kind, new ZF<X>(zigzag::extend_zigzag_filtration(f, x, eps))); } catch (std::runtime_error&) { return "{\"err\":1}"; } }
template <class X> std::string level(Tok& t) { double a = t.I() / 4., b = t.I() / 4.; return Rec().kv("cells", cells(Reg<X>::z->levelset(a, b))).str(); }
template <class X> std::string levels(Tok& t) {
    double e = t.I() / 4., a = t.I() / 4., b = t.I() / 4.; auto D = zigzag_levelsets(*Reg<X>::z, e, a, b); std::vector<std::string> ns, es;
    for (size_t i = 0; i < D.nnode(); ++i) ns.push_back(J(cells(D.node_data(i))));
    for (size_t i = 0; i < D.nedge(); ++i) { std::vector<std::string> m; for (size_t k = 0; k < D.edata[i].maxdim() + 1; ++k) m.push_back(J(D.edata[i][k])); es.push_back(Rec().kv("s", D.elist[i].src).kv("t", D.elist[i].targ).raw("m", JL(m)).str()); }
    return Rec().raw("n", JL(ns)).raw("e", JL(es)).str();
}
template <class X> X grid(const std::vector<size_t>& n, const std::vector<size_t>& lo, const std::vector<size_t>& hi, bool sub) {
    if (n.size() == 2) return Freudenthal<X>(n[0], n[1]);
    if (!sub) return Freudenthal<X>(n[0], n[1], n[2]);
    return Freudenthal<X>(n[0], n[1], n[2], lo[0], hi[0] + 1, lo[1], hi[1] + 1, lo[2], hi[2] + 1);
}
static std::string step(const std::string& op, Tok& t) {
    if (op == "lower") { std::string k = t.S(); size_t nv = t.I(); return k == "simp" ? lower<SC>(t, nv) : lower<LC>(t, nv); }
    if (op == "lowerc") {
        size_t n = t.I(); QC x = rd<QC>(t);
        if (n == 2) { size_t m = t.I(); std::vector<std::vector<double>> f; for (size_t i = 0; i < m; ++i) f.push_back(t.LD(4)); return Rec().kv("cells", cells(x)).kv("v", lower_star_filtration(x, f)).str(); }
        size_t m = t.I(); std::vector<std::vector<std::vector<double>>> f(m); for (auto& g : f) { size_t q = t.I(); for (size_t i = 0; i < q; ++i) g.push_back(t.LD(4)); }
        return Rec().kv("cells", cells(x)).kv("v", lower_star_filtration(x, f)).str();
    }
    if (op == "back") { auto g = t.LL<int>(); auto bd = t.LL<int>(); auto im = t.LL<size_t>(); return J(lower_star_backwards(g, bd, im)); }
    if (op == "extz") { std::string k = t.S(); size_t nv = t.I(); return k == "simp" ? extz<SC>(k, t, nv) : extz<LC>(k, t, nv); }
    if (op == "extl") { size_t n = t.I(); QC x = rd<QC>(t); auto f = t.LD(4); double e = t.I() / 4.; try { auto v = zigzag::extend_levelset(f, x, e, n); return keep<QC>("cube", new ZF<QC>(x, v)); } catch (std::runtime_error&) { return "{\"err\":1}"; } }
    if (op == "extc") { size_t n = t.I(); QC x = rd<QC>(t); auto f = t.LD(4); double e = t.I() / 4.; return keep<QC>("cube", new ZF<QC>(zigzag::extend_zigzag_filtration(f, x, e, n))); }
    if (op == "toplex") {
        size_t m = t.I(); std::vector<std::vector<std::vector<double>>> f(m); for (auto& g : f) { size_t q = t.I(); for (size_t i = 0; i < q; ++i) g.push_back(t.LD(4)); }
        return keep<QC>("cube", new ZF<QC>(zigzag_toplex(f)));
    }
    if (op == "zset") { SC x = rd<SC>(t); size_t D = t.I(); std::vector<std::vector<std::vector<std::pair<double, double>>>> v(D); for (auto& d : v) { size_t n = t.I(); d.resize(n); for (auto& c : d) { size_t m = t.I(); for (size_t j = 0; j < m; ++j) { t.I(); double a = t.I() / 4., b = t.I() / 4.; c.emplace_back(a, b); } } } return keep<SC>("simp", new ZF<SC>(x, v)); }
    if (op == "level") return cur == "simp" ? level<SC>(t) : cur == "light" ? level<LC>(t) : level<QC>(t);
    if (op == "levels") return cur == "simp" ? levels<SC>(t) : cur == "light" ? levels<LC>(t) : levels<QC>(t);
    if (op == "grid") {
        std::string k = t.S(); bool cubes = t.I(), sub = t.I(); auto n = t.L(), lo = t.L(), hi = t.L();
        if (cubes) return J(cells(n.size() == 2 ? Cube(n[0], n[1]) : sub ? Cube(n[0], n[1], n[2], lo[0], hi[0] + 1, lo[1], hi[1] + 1, lo[2], hi[2] + 1) : Cube(n[0], n[1], n[2])));
        return k == "simp" ? J(cells(grid<SC>(n, lo, hi, sub))) : J(cells(grid<LC>(n, lo, hi, sub)));
    }
    if (op == "gridc") { std::string k = t.S(); auto n = t.L(); QC x = rd<QC>(t); return k == "simp" ? J(cells(Freudenthal<SC>(x, n[0], n[1], n[2]))) : J(cells(Freudenthal<LC>(x, n[0], n[1], n[2]))); }
    throw std::runtime_error("harness: unknown op " + op);
}
int main(int c, char** v) { return run_main(c, v, init, step); }

// Interpreter for zigzag filtrations.  -DFIELD=p
#include "common.hpp"
using namespace vf;
using namespace bats;
#if FIELD == 0
using F = Rational<int>;
#else
using F = ModP<int, FIELD>;
#endif
using SC = SimplicialComplex; using LC = LightSimplicialComplex<>; using QC = CubicalComplex;
template <class X> using ZF = zigzag::ZigzagFiltration<X, double>;
template <class X> struct Reg { static std::unique_ptr<ZF<X>> z; };
template <class X> std::unique_ptr<ZF<X>> Reg<X>::z;
static std::string kind; static size_t nv, top, amb;
using Cells = std::vector<std::vector<std::vector<size_t>>>;
using Vals = std::vector<std::vector<std::vector<std::pair<double, double>>>>;
template <class X> struct K { static ZF<X> empty() { return ZF<X>(); } static X make() { return X(); } static Cells cells(const X& x) { return dump(x, [&](size_t k, size_t i) { return x.get_simplex(k, i); }); }
    template <class G> static Cells dump(const X& x, G g) { Cells c(x.maxdim() + 1); for (size_t k = 0; k <= x.maxdim(); ++k) for (size_t i = 0; i < x.ncells(k); ++i) c[k].push_back(g(k, i)); return c; } };
template <> ZF<LC> K<LC>::empty() { return ZF<LC>(nv, top); }
template <> LC K<LC>::make() { return LC(nv, top); }
template <> ZF<QC> K<QC>::empty() { return ZF<QC>(amb); }
template <> QC K<QC>::make() { return QC(amb); }
template <> Cells K<QC>::cells(const QC& x) { return dump(x, [&](size_t k, size_t i) { std::vector<size_t> c; x.get_cube(k, i, c); return c; }); }
static void init(Tok& h) { kind = h.S(); amb = h.I(); nv = h.I(); top = h.I(); }
template <class X> std::string seen() { auto& z = *Reg<X>::z; return Rec().kv("cells", K<X>::cells(z.complex())).kv("vals", z.vals()).str(); }
static std::string out(const std::vector<std::vector<zigzag::ZigzagPair<double>>>& bs) {
    std::vector<std::string> o;
    for (auto& d : bs) { std::vector<std::string> q; for (auto& b : d) q.push_back(JL({J(b.get_dim()), J(b.get_birth_ind()), J(b.get_death_ind()), J(b.get_birth()), J(b.get_death()), J(b.birth_is_entry), J(b.death_is_entry)})); o.push_back(JL(q)); }
    return JL(o);
}
template <class X> std::string go(const std::string& op, Tok& t) {
    auto& z = Reg<X>::z; if (!z) z.reset(new ZF<X>(K<X>::empty()));
    if (op == "zadd") {
        double a = t.I() / 4., b = t.I() / 4.; auto s = t.L<size_t>(); int how = t.I();
        cell_ind r = how ? z->add(a, b, std::move(s)) : z->add(a, b, s);
        return Rec().kv("ret", std::vector<size_t>{r.dim, r.ind}).kv("cells", K<X>::cells(z->complex())).kv("vals", z->vals()).str();
    }
    if (op == "zaddrec") {
        double a = t.I() / 4., b = t.I() / 4.; auto s = t.L<size_t>(); int how = t.I();
        std::vector<cell_ind> r = how ? z->add_recursive(a, b, std::move(s)) : z->add_recursive(a, b, s);
        std::vector<std::vector<size_t>> q; for (auto& c : r) q.push_back({c.dim, c.ind});
        return Rec().kv("ret", q).kv("cells", K<X>::cells(z->complex())).kv("vals", z->vals()).str();
    }
    if (op == "zval") {          // explicit values: cells per dimension, then for each cell its intervals
        X x = K<X>::make(); size_t D = t.I(); Vals v(D);
        for (size_t k = 0; k < D; ++k) for (auto s : t.LL<size_t>()) x.add(s);
        size_t D2 = t.I(); v.resize(D2);
        for (size_t k = 0; k < D2; ++k) { size_t n = t.I(); v[k].resize(n); for (auto& c : v[k]) { size_t m = t.I(); for (size_t j = 0; j < m; ++j) { t.I(); double a = t.I() / 4., b = t.I() / 4.; c.emplace_back(a, b); } } }
        z.reset(new ZF<X>(x, v));
        return seen<X>();
    }
    if (op == "bars") {
        long m = t.I(); std::string red = t.S(), opt = t.S();
#define B(R, O) zigzag::barcode(*z, m, F(), O(), R())
        if (red == "standard") return out(opt == "none" ? B(standard_reduction_flag, no_optimization_flag) : B(standard_reduction_flag, clearing_flag));
        return out(opt == "none" ? B(extra_reduction_flag, no_optimization_flag) : B(extra_reduction_flag, clearing_flag));
    }
    if (op == "level") { double a = t.I() / 4., b = t.I() / 4.; return Rec().kv("cells", K<X>::cells(z->levelset(a, b))).str(); }
    throw std::runtime_error("harness: bad op " + op);
}
static std::string step(const std::string& op, Tok& t) {
    if (kind == "simp") return go<SC>(op, t);
    if (kind == "light") return go<LC>(op, t);
    return go<QC>(op, t);
}
int main(int argc, char** argv) { return run_main(argc, argv, init, step); }

// Interpreter for histories of complexes and filtrations (A15 - A18).
#include "common.hpp"
using namespace vf;
using namespace bats;
#if FIELD == 0
using F = Rational<int>;
#else
using F = ModP<int, FIELD>;
#endif
using V = SparseVector<F, size_t>;
using MT_ = ColumnMatrix<V>;
using CC = ChainComplex<MT_>;
using SC = SimplicialComplex; using LC = LightSimplicialComplex<>; using QC = CubicalComplex;
using Lv = std::vector<size_t>;
template <class X> struct Reg { static std::map<long, X> m; static std::map<long, Filtration<double, X>> f; };
template <class X> std::map<long, X> Reg<X>::m;
template <class X> std::map<long, Filtration<double, X>> Reg<X>::f;
static std::map<long, CellComplex> cells;
static void init(Tok&) {}

inline std::vector<Lv> listing(const SC& x, size_t k) { return x.get_simplices(k); }
inline std::vector<Lv> listing(const LC& x, size_t k) { return x.get_simplices(k); }
inline std::vector<Lv> listing(const QC& x, size_t k) { return x.get_cubes(k); }
inline std::vector<Lv> listing(const SC& x) { return x.get_simplices(); }
inline std::vector<Lv> listing(const LC& x) { return x.get_simplices(); }
inline std::vector<Lv> listing(const QC& x) { return x.get_cubes(); }

template <class X> std::string dump(X& x) {
    Lv n; std::vector<std::vector<Lv>> byidx, list; std::vector<std::vector<size_t>> back;
    const X& cx = x;
    for (size_t k = 0; k <= x.maxdim(); ++k) {
        n.push_back(x.ncells(k)); list.push_back(listing(cx, k));
        std::vector<Lv> b; Lv bk;
        for (size_t i = 0; i < x.ncells(k); ++i) {
            auto s = cx.get_cell(k, i); Lv t; cx.get_cell(k, i, t);
            b.push_back(s); size_t j = cx.find_idx(s); bk.push_back(j);
            if (t != s || x.find_idx(s) != j) bk.back() = 987654;
        }
        byidx.push_back(b); back.push_back(bk);
    }
    return Rec().kv("maxdim", (size_t) x.maxdim()).kv("n", n).kv("total", x.ncells()).kv("cells", byidx).kv("list", list).kv("all", listing(cx)).kv("back", back).str();
}
inline std::string ci(const cell_ind& c) { return JL({J(c.dim), J(c.ind)}); }
inline std::string cis(const std::vector<cell_ind>& v) { std::vector<std::string> o; for (auto& c : v) o.push_back(ci(c)); return JL(o); }
template <class B> std::string bdj(const B& b) {
    auto& [ind, val] = b; std::vector<std::string> o;
    for (size_t i = 0; i < std::max(ind.size(), val.size()); ++i) o.push_back(JL({J(i < ind.size() ? (size_t) ind[i] : (size_t) 987654), J(i < val.size() ? val[i] : 0)}));
    return JL(o);
}
inline std::string cell_bd(const SC& x, size_t k, size_t i) { return bdj(x.boundary(k, i)); }
inline std::string cell_bd(const LC& x, size_t k, size_t i) { return bdj(x.boundary(k, i)); }
inline std::string cell_bd(const QC& x, size_t k, size_t i) { return "[]"; }
inline std::string cell_bd(const CellComplex& x, size_t k, size_t i) { return "[]"; }
inline std::vector<size_t> faces(const SC& x, size_t k, size_t i) { return k ? std::vector<size_t>(x.faces_begin(k, i), x.faces_end(cell_ind(k, i))) : Lv(); }
inline std::vector<size_t> faces(const QC& x, size_t k, size_t i) { return k ? std::vector<size_t>(x.faces_begin(cell_ind(k, i)), x.faces_end(k, i)) : Lv(); }
inline std::vector<size_t> faces(const LC& x, size_t k, size_t i) {        // walk to the last face and back
    if (!k) return Lv(); Lv keys, o;
    auto it = x.simplex_begin(k, i); auto end = x.simplex_end(k, i);
    for (size_t j = 0; ; ++j) { if (it == end) return Lv{987651}; keys.push_back(*it); if (j == k) break; ++it; }
    for (size_t j = k; ; --j) { if (*it != keys[j]) return Lv{987652}; if (!j) break; --it; }
    for (size_t j = 0; j <= k; ++j) ++it;
    if (it != end) return Lv{987653};
    for (size_t q : keys) o.push_back(x.find_idx(k - 1, q));
    return o;
}
inline std::vector<size_t> faces(const CellComplex& x, size_t k, size_t i) { return Lv(); }
template <class X> std::string bds(X& x) {
    std::vector<MT_> csc; std::vector<std::string> b, f;
    for (size_t k = 0; k <= x.maxdim(); ++k) {
        if (k) csc.push_back(MT_(x.boundary_csc(k)));
        std::vector<std::string> bk, fk;
        for (size_t i = 0; i < x.ncells(k); ++i) { bk.push_back(cell_bd(x, k, i)); fk.push_back(J(faces(x, k, i))); }
        b.push_back(JL(bk)); f.push_back(JL(fk));
    }
    CC a(x), c = Chain(x, F());
    return Rec().kv("csc", csc).raw("bd", JL(b)).raw("faces", JL(f)).kv("D1", a.boundary).kv("D2", c.boundary).kv("valid", a.is_valid_complex()).str();
}
template <class X> std::string fdump(Filtration<double, X>& f) {
    Lv n; for (size_t k = 0; k < f.vals().size(); ++k) n.push_back(f.ncells(k));
    X x = f.complex();
    std::vector<std::vector<double>> v2; for (size_t k = 0; k < f.vals().size(); ++k) v2.push_back(f.vals(k));
    return Rec().raw("x", dump(x)).kv("vals", f.vals()).kv("n", n).kv("vals2", v2).kv("maxdim", f.vals().size() ? f.maxdim() : 0).str();
}
template <class X> X* mk(const Lv& a);
template <> SC* mk<SC>(const Lv& a) { return a.size() == 0 ? new SC() : a.size() == 1 ? new SC(a[0]) : new SC(a[0], a[1]); }
template <> LC* mk<LC>(const Lv& a) { return new LC(a.at(0), a.at(1)); }
template <> QC* mk<QC>(const Lv& a) { return a.size() == 0 ? new QC() : a.size() == 1 ? new QC(a[0]) : new QC(a.at(0), a.at(1)); }

template <class X> std::string special(const std::string& op, Tok& t) { throw std::runtime_error("harness: no such call " + op); }
template <> std::string special<SC>(const std::string& op, Tok& t) {
    auto& m = Reg<SC>::m;
    if (op == "newdims") { long d = t.I(); m.erase(d); m.emplace(d, SC(t.L<size_t>())); return dump(m.at(d)); }
    if (op == "union") { long d = t.I(), a = t.I(), b = t.I(); SC z = simplicial_union(m.at(a), m.at(b)); m.erase(d); m.emplace(d, z); return dump(m.at(d)); }
    if (op == "inter") { long d = t.I(), a = t.I(), b = t.I(); SC z = intersection(m.at(a), m.at(b)); m.erase(d); m.emplace(d, z); return dump(m.at(d)); }
    if (op == "uadd") { long d = t.I(), a = t.I(); m.at(d).union_add(m.at(a)); return dump(m.at(d)); }
    if (op == "inds") { long d = t.I(), a = t.I(); std::vector<Lv> per; for (size_t k = 0; k <= m.at(d).maxdim(); ++k) per.push_back(m.at(d).get_indices(m.at(a), k));
        return Rec().kv("all", m.at(d).get_indices(m.at(a))).kv("per", per).str(); }
    if (op == "funion") { auto& f = Reg<SC>::f; long d = t.I(), a = t.I(); f.at(d).union_add(f.at(a)); return fdump(f.at(d)); }
    throw std::runtime_error("harness: no such call " + op);
}
template <> std::string special<QC>(const std::string& op, Tok& t) {
    auto& m = Reg<QC>::m;
    if (op == "skel") { long d = t.I(), a = t.I(); size_t k = t.I(); QC z = m.at(a).skeleton(k); m.erase(d); m.emplace(d, z); return dump(m.at(d)); }
    if (op == "grid") { long d = t.I(); QC z = QC::generate_cube(t.I()); m.erase(d); m.emplace(d, z); return dump(m.at(d)); }
    if (op == "setdim") { long d = t.I(); size_t k = t.I(); std::string w = "ok"; try { m.at(d).set_dimension(k); } catch (const std::exception&) { w = "throw"; }
        return Rec().kv("ret", w).raw("x", dump(m.at(d))).str(); }
    if (op == "load") {
        long d = t.I(); auto cs = t.LL<size_t>();
        std::string fn = "cubes-" + std::to_string(getpid()) + ".csv";
        { std::ofstream o(fn); for (auto& c : cs) { for (size_t i = 0; i < c.size(); ++i) o << (i ? "," : "") << c[i]; o << "\n"; } }
        m.at(d).load_cubes(fn); ::unlink(fn.c_str());
        return dump(m.at(d));
    }
    throw std::runtime_error("harness: no such call " + op);
}
template <class X> std::string run(const std::string& op, Tok& t) {
    auto& m = Reg<X>::m; auto& fm = Reg<X>::f;
    if (op == "new") { long d = t.I(); m.erase(d); std::unique_ptr<X> x(mk<X>(t.L<size_t>())); m.emplace(d, *x); return dump(m.at(d)); }
    if (op == "copy") { long d = t.I(), a = t.I(); X y(m.at(a)); m.erase(d); m.emplace(d, y); return dump(m.at(d)); }
    if (op == "assign") { long d = t.I(), a = t.I(); const X& src = m.at(a); m.at(d) = src; return dump(m.at(d)); }
    if (op == "move") { long d = t.I(), a = t.I(); X tmp(m.at(a)); m.at(d) = std::move(tmp); return dump(m.at(d)); }
    if (op == "mover") { long d = t.I(), a = t.I(); X tmp(m.at(a)); X y(std::move(tmp)); m.erase(d); m.emplace(d, std::move(y)); return dump(m.at(d)); }
    if (op == "dump") { return dump(m.at(t.I())); }
    if (op == "add") {
        long d = t.I(); Lv s = t.L<size_t>(); std::string r;
        try { r = ci(m.at(d).add(s)); } catch (const std::runtime_error&) { r = "\"throw\""; }
        return Rec().raw("ret", r).raw("x", dump(m.at(d))).str();
    }
    if (op == "addrec") {
        long d = t.I(); Lv s = t.L<size_t>(); std::string r;
        try { r = cis(m.at(d).add_recursive(s)); } catch (const std::runtime_error&) { r = "\"throw\""; }
        return Rec().raw("ret", r).raw("x", dump(m.at(d))).str();
    }
    if (op == "find") {
        auto& x = m.at(t.I()); const X& cx = x; auto q = t.LL<size_t>(); Lv r;
        for (auto& s : q) { size_t a = x.find_idx(s); r.push_back(cx.find_idx(s) == a ? a : 987654); }
        return J(r);
    }
    if (op == "bds") return bds(m.at(t.I()));
    // filtrations
    if (op == "fnew") { long d = t.I(); fm.erase(d); Lv a = t.L<size_t>();
        if constexpr (!std::is_same<X, LC>::value) { if (a.size() == 1) { fm.emplace(d, Filtration<double, X>(a[0])); return fdump(fm.at(d)); } }
        if (a.size() == 2) fm.emplace(d, Filtration<double, X>(a[0], a[1])); else fm.emplace(d, Filtration<double, X>());
        return fdump(fm.at(d)); }
    if (op == "ffrom") { long d = t.I(), a = t.I(); fm.erase(d); const X& x = m.at(a); fm.emplace(d, Filtration<double, X>(x)); return fdump(fm.at(d)); }
    if (op == "fval") { long d = t.I(), a = t.I(); size_t n = t.I(); std::vector<std::vector<double>> v; for (size_t k = 0; k < n; ++k) v.push_back(t.LD(4));
        fm.erase(d); fm.emplace(d, Filtration<double, X>(m.at(a), v)); return fdump(fm.at(d)); }
    if (op == "fcopy") { long d = t.I(), a = t.I(); Filtration<double, X> y(fm.at(a)); fm.erase(d); fm.emplace(d, y); return fdump(fm.at(d)); }
    if (op == "fassign") { long d = t.I(), a = t.I(); fm.at(d) = fm.at(a); return fdump(fm.at(d)); }
    if (op == "fadd") { long d = t.I(); double v = t.I() / 4.0; Lv s = t.L<size_t>(); std::string r = ci(fm.at(d).add(v, s)); return Rec().raw("ret", r).raw("f", fdump(fm.at(d))).str(); }
    if (op == "faddrec") { long d = t.I(); double v = t.I() / 4.0; Lv s = t.L<size_t>(); std::string r = cis(fm.at(d).add_recursive(v, s)); return Rec().raw("ret", r).raw("f", fdump(fm.at(d))).str(); }
    if (op == "fupd") { long d = t.I(); size_t n = t.I(); std::vector<std::vector<double>> v; for (size_t k = 0; k < n; ++k) v.push_back(t.LD(4)); fm.at(d).update_filtration(v); return fdump(fm.at(d)); }
    if (op == "sub") { long d = t.I(), a = t.I(); double v = t.I() / 4.0; X y = fm.at(a).sublevelset(v); m.erase(d); m.emplace(d, y); return dump(m.at(d)); }
    if (op == "fsort") { auto& f = fm.at(t.I()); std::vector<Lv> per; for (size_t k = 0; k < f.vals().size(); ++k) per.push_back(f.sortperm(k));
        auto all = f.sortperm(); return Rec().kv("all", all).kv("per", per).kv("inv", filtration_iperm(all)).str(); }
    return special<X>(op, t);
}
static std::string cdump(CellComplex& x) { Lv n; for (size_t k = 0; k <= x.maxdim() + 1; ++k) n.push_back(x.ncells(k)); return Rec().kv("maxdim", x.maxdim()).kv("n", n).kv("total", x.ncells()).str(); }
static std::string runcell(const std::string& op, Tok& t) {
    if (op == "new") { long d = t.I(); Lv a = t.L<size_t>(); cells.erase(d); cells.emplace(d, a.size() ? CellComplex(a[0]) : CellComplex()); return cdump(cells.at(d)); }
    auto& x = cells.at(t.I());
    if (op == "cverts") { size_t k = t.I(); size_t r = x.add_vertices(k); return Rec().kv("ret", r).raw("x", cdump(x)).str(); }
    if (op == "cvert") { size_t r = x.add_vertex(); return Rec().kv("ret", r).raw("x", cdump(x)).str(); }
    if (op == "cadd") { size_t k = t.I(); Lv b; std::vector<int> c; size_t z = t.I(); for (size_t i = 0; i < z; ++i) { b.push_back(t.I()); c.push_back(t.I()); }
        size_t r = x.add(b, c, k); return Rec().kv("ret", r).raw("x", cdump(x)).str(); }
    if (op == "bds") return bds(x);
    throw std::runtime_error("harness: no such call " + op);
}
static std::string step(const std::string& op, Tok& t) {
    std::string kind = t.S();
    if (kind == "simp") return run<SC>(op, t);
    if (kind == "light") return run<LC>(op, t);
    if (kind == "cube") return run<QC>(op, t);
    if (kind == "cell") return runcell(op, t);
    throw std::runtime_error("harness: kind");
}
int main(int c, char** v) { return run_main(c, v, init, step); }

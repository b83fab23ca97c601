// Interpreter for saving and loading.  Files live in the scratch directory the check runs in.  -DFIELD=p
#include "common.hpp"
#include <util/io.hpp>
using namespace vf;
using namespace bats;
#if FIELD == 0
using F = Rational<int>;
#else
using F = ModP<int, FIELD>;
#endif
using V = SparseVector<F, size_t>;
using MT_ = ColumnMatrix<V>;
using VI = SparseVector<int, size_t>; using MI = ColumnMatrix<VI>;
using SC = SimplicialComplex; using QC = CubicalComplex;
static void init(Tok& h) {}
using LLs = std::vector<std::vector<std::vector<size_t>>>;
static std::string fn(Tok& t) { return "vf" + std::to_string(getpid()) + "_" + t.S(); }
static size_t base(Tok& t) { return std::stoull(t.S()); }
static SC rdsc(Tok& t, size_t b) { size_t n = t.I(); SC x(n - 1); for (size_t k = 0; k < n; ++k) for (auto s : t.LL<size_t>()) { for (auto& v : s) v += b; x.add(s); } return x; }
static LLs cells(const SC& x, size_t b) { LLs r; for (size_t k = 0; k <= x.maxdim(); ++k) { r.emplace_back(); for (size_t i = 0; i < x.ncells(k); ++i) { auto s = x.get_simplex(k, i); for (auto& v : s) v -= b; r.back().push_back(s); } } return r; }
static std::string sc(const SC& x, size_t b) { return Rec().kv("cells", cells(x, b)).str(); }
static std::vector<MI> rdmats(Tok& t) { size_t n = t.I(); std::vector<MI> r; for (size_t k = 0; k < n; ++k) r.push_back(rdmat<VI>(t)); return r; }
static CellularMap rdmap(Tok& t) { CellularMap m; size_t k = 0; for (auto& a : rdmats(t)) m[k++] = a; return m; }
static std::string mp(const CellularMap& m) { std::vector<std::string> r; for (size_t k = 0; k < m.maxdim() + 1; ++k) r.push_back(J(m[k])); return JL(r); }
template <class D> void fill(D& d, Tok& t, std::vector<std::pair<size_t, size_t>>& el) { size_t m = t.I(); for (size_t i = 0; i < m; ++i) { size_t a = t.I(), b = t.I(); el.emplace_back(a, b); } }
static std::string meta(const std::string& f) { std::ifstream in(f); std::string l; std::vector<std::vector<long>> r; while (getline(in, l)) { std::vector<long> v; std::istringstream is(l); std::string w; while (getline(is, w, ',')) v.push_back(std::stol(w)); r.push_back(v); } return J(r); }
static std::string step(const std::string& op, Tok& t) {
    if (op == "smat") { auto f = fn(t); rdmat<V>(t).save(f); return "0"; }
    if (op == "lmat") { auto f = fn(t); return J(MT_(f)); }
    if (op == "stream") { size_t n = t.I(); std::stringstream s; std::vector<std::string> r; for (size_t k = 0; k < n; ++k) rdmat<V>(t).write(s); for (size_t k = 0; k < n; ++k) r.push_back(J(MT_(static_cast<std::istream&>(s)))); return JL(r); }
    if (op == "mstr") { MT_ a = rdmat<V>(t); std::istringstream s(a.str()); return J(MT_(static_cast<std::istream&>(s))); }
    if (op == "vec") { V v = rdvec<V>(t); std::ostringstream o; v.write(o); std::string l = o.str(), l2 = v.str(); l.pop_back(); l2.pop_back(); return Rec().kv("a", V(l)).kv("b", V(l2)).str(); }
    if (op == "ssimp") { auto f = fn(t); size_t b = base(t); rdsc(t, b).save(f); return "0"; }
    if (op == "lsimp") { auto f = fn(t); size_t b = base(t); SC x(std::move(f)); return sc(x, b); }
    if (op == "smap") { auto f = fn(t); rdmap(t).save(f); return "0"; }
    if (op == "lmap") { auto f = fn(t); return mp(CellularMap(f)); }
    if (op == "sdiag") {
        auto f = fn(t); std::string k = t.S(); size_t n = t.I();
        if (k == "simp") {
            Diagram<SC, CellularMap> d; for (size_t i = 0; i < n; ++i) d.add_node(rdsc(t, 0));
            size_t m = t.I(); for (size_t i = 0; i < m; ++i) { size_t a = t.I(), b = t.I(); d.add_edge(a, b, rdmap(t)); }
            d.save(f);
        } else {
            size_t m0 = 0; Diagram<MT_, MT_> d; for (size_t i = 0; i < n; ++i) d.add_node(rdmat<V>(t));
            size_t m = t.I(); for (size_t i = 0; i < m; ++i) { size_t a = t.I(), b = t.I(); d.add_edge(a, b, rdmat<V>(t)); }
            d.save(f);
        }
        return "0";
    }
    if (op == "ldiag") {
        auto f = fn(t); std::string k = t.S(); size_t n = t.I(), m = t.I(); std::vector<std::string> ns, es;
        for (size_t i = 0; i < n; ++i) { std::string g = f + "/node" + std::to_string(i); ns.push_back(k == "simp" ? J(cells(SC(std::move(g)), 0)) : J(MT_(g))); }
        for (size_t i = 0; i < m; ++i) { std::string g = f + "/edge" + std::to_string(i); es.push_back(k == "simp" ? mp(CellularMap(g)) : J(MT_(g))); }
        return Rec().raw("meta", meta(f + "/metadata")).raw("n", JL(ns)).raw("e", JL(es)).str();
    }
    if (op == "pts") {           // rows of quarters, written as decimals in one of several styles
        auto f = fn(t); bool header = t.I(); std::string style = t.S(); size_t n = t.I(), d = t.I();
        { std::ofstream o(f); if (header) o << "x,y\n";
          for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < d; ++j) { double v = t.I() / 4.0; char b[64]; snprintf(b, 64, style == "exp" ? "%.8e" : "%.2f", v); if (j) o << (style == "space" ? ", " : ","); o << b; } if (style == "trail") o << ","; o << "\n"; } }
        auto X = header ? read_point_cloud<double>(f, true) : read_point_cloud<double>(f);
        std::vector<std::vector<double>> r; for (size_t i = 0; i < X.nrow(); ++i) { r.emplace_back(); for (size_t j = 0; j < X.ncol(); ++j) r.back().push_back(X(i, j)); }
        DataSet<double> D(X); std::vector<std::vector<double>> q; for (size_t i = 0; i < D.size(); ++i) { q.emplace_back(); for (size_t j = 0; j < D.dim(); ++j) q.back().push_back(D(i, j)); }
        return Rec().kv("n", (size_t) X.nrow()).kv("d", (size_t) X.ncol()).kv("r", r).kv("q", q).str();
    }
    if (op == "cubes") {         // a file with one cube per line
        auto f = fn(t); size_t n = t.I(); size_t b = base(t); auto cs = t.LL<size_t>();
        { std::ofstream o(f); for (auto& c : cs) { for (size_t j = 0; j < c.size(); ++j) o << (j ? "," : "") << c[j] + b; o << "\n"; } }
        QC x(n); x.load_cubes(f);
        LLs r; for (size_t k = 0; k <= x.maxdim(); ++k) { r.emplace_back(); for (size_t i = 0; i < x.ncells(k); ++i) { auto c = x.get_cube(k, i); for (auto& v : c) v -= b; r.back().push_back(c); } }
        return J(r);
    }
    if (op == "argv") {          // arguments name=value
        size_t n = t.I(); std::vector<std::string> a{"prog"}; for (size_t i = 0; i < n; ++i) a.push_back(t.S());
        std::vector<char*> p; for (auto& s : a) p.push_back(s.data());
        std::string key = t.S(); long def = t.I();
        return Rec().kv("i", util::io::parse_argv(int(p.size()), p.data(), std::string(key), int(def))).kv("d", util::io::parse_argv(int(p.size()), p.data(), std::string(key), def / 4.0)).kv("s", util::io::parse_argv(int(p.size()), p.data(), std::string(key), std::string("none"))).str();
    }
    throw std::runtime_error("harness: bad op " + op);
}
int main(int argc, char** argv) { return run_main(argc, argv, init, step); }

// Interpreter for the strided dense matrices of include/linalg/naive_dense.hpp.  -DFIELD=p
#include "common.hpp"
#include <variant>
#include <sys/mman.h>
// arrays lie against an unreadable page, at their end or (every other one) at their start, so that a call that leaves its matrix ends the history
static const size_t PG = 4096;
static unsigned turn = 0;
void* operator new[](size_t z) {
    size_t body = (z + PG - 1) / PG * PG, all = PG + body + 2 * PG;     // [header page][guard][body][guard]
    char* q = (char*) mmap(nullptr, all, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (q == MAP_FAILED) throw std::bad_alloc();
    *(size_t*) q = all; mprotect(q + PG, PG, PROT_NONE); mprotect(q + 2 * PG + body, PG, PROT_NONE);
    return (turn++ & 1) ? q + 2 * PG : q + 2 * PG + body - (z + 3) / 4 * 4;
}
void operator delete[](void* p) noexcept {
    if (!p) return;
    // the block starts two pages before the first page of the body, which holds p or lies further down
    char* q = (char*) ((size_t) p / PG * PG) - 2 * PG;
    munmap(q, *(size_t*) q);
}
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }
using namespace vf;
#if FIELD == 0
using F = Rational<int>;
#elif FIELD == 1
using F = int;           // the integers, where only ring operations are asked for
#else
using F = ModP<int, FIELD>;
#endif
template <class Q> using M_ = A<Dense<F, Q>>;
using Any = std::variant<M_<RowMaj>, M_<ColMaj>, M_<RevRowMaj>, M_<RevColMaj>>;
using V_ = std::vector<F>;
static std::vector<Any> reg(6);
static void init(Tok&) { reg.assign(6, Any()); }
static V_ rdl(Tok& t) { V_ v; size_t z = t.I(); for (size_t k = 0; k < z; ++k) v.push_back(RdF<F>::rd(t)); return v; }
template <class W> std::string rows(const W& a) {
    std::vector<std::string> rs;
    for (size_t i = 0; i < a.nrow(); ++i) { V_ x; for (size_t j = 0; j < a.ncol(); ++j) x.push_back(a(int(i), int(j))); rs.push_back(J(x)); }
    return JL(rs);
}
template <class W> std::string dump(const W& a) { V_ raw; for (size_t k = 0; k < a.size(); ++k) raw.push_back(a(k)); return JL({J(a.nrow()), J(a.ncol()), rows(a), J(raw), J(a.size())}); }
static std::string dumpr(size_t i) { return std::visit([](auto& x) { return dump(x); }, reg[i]); }
template <class Fn> static Any order(const std::string& l, Fn f) { if (l == "row") return f(RowMaj()); if (l == "col") return f(ColMaj()); if (l == "rrow") return f(RevRowMaj()); if (l == "rcol") return f(RevColMaj()); throw std::runtime_error("harness: bad order"); }
// some bytes on the stack, so that a temporary that is never set does not happen to be zero
static void __attribute__((noinline)) dirty() { volatile int x[600]; for (int i = 0; i < 600; ++i) x[i] = i + 17; (void) x[3]; }
// a matrix of another shape class over the same memory
template <template <class> class S, class Q> S<Dense<F, Q>> as(M_<Q> x) { return S<Dense<F, Q>>(x.nrow(), x.ncol(), x.mat); }
static VectorView<F> line(size_t a, const std::string& k, size_t i) { return std::visit([&](auto& x) { return k == "r" ? x.r(i) : x[i]; }, reg[a]); }
template <class T4> std::string four(T4 f) { return JL({dump(std::get<0>(f)), dump(std::get<1>(f)), dump(std::get<2>(f)), dump(std::get<3>(f))}); }
static std::string step(const std::string& op, Tok& t) {
    if (op == "make") {
        size_t i = t.I(); std::string l = t.S(); size_t m = t.I(), n = t.I(); V_ v = rdl(t); bool own = t.I();
        reg[i] = order(l, [&](auto q) { using Q = decltype(q); M_<Q> x = own ? M_<Q>(m, n) : M_<Q>(m, n, new F[m * n]); for (size_t r = 0; r < m; ++r) for (size_t c = 0; c < n; ++c) x(int(r), int(c)) = v.at(r * n + c); return Any(x); });
        return dumpr(i);
    }
    if (op == "zeros") { size_t i = t.I(); std::string l = t.S(); size_t m = t.I(), n = t.I(); bool fill = t.I(); reg[i] = order(l, [&](auto q) { using Q = decltype(q); if (!fill) return Any(M_<Q>(m, n)); M_<Q> x(m, n, new F[m * n]); fill_zeros(x); return Any(x); }); return dumpr(i); }
    if (op == "ident") { size_t i = t.I(); std::string l = t.S(); size_t n = t.I(); bool diag = t.I(); reg[i] = order(l, [&](auto q) { using Q = decltype(q); if (!diag) return Any(M_<Q>::identity(n)); M_<Q> x(n, n); make_diag_ones<F>(x); return Any(x); }); return dumpr(i); }
    if (op == "copy") { size_t d = t.I(), a = t.I(); reg[d] = std::visit([](auto& x) { return Any(x.copy()); }, reg[a]); return dumpr(d); }
    if (op == "seen") { size_t d = t.I(), a = t.I(); std::string k = t.S(); reg[d] = std::visit([&](auto& x) { return k == "T" ? Any(x.Trp()) : k == "J" ? Any(x.JConj()) : k == "TJ" ? Any(x.TJConj()) : Any(x); }, reg[a]); return dumpr(d); }
    if (op == "look") return dumpr(t.I());
    if (op == "lines") {
        size_t a = t.I();
        return std::visit([](auto& x) {
            auto one = [](VectorView<F> v) {
                V_ it, post, at, call, far; for (auto q = v.begin(); q != v.end(); ++q) it.push_back(*q); for (auto q = v.begin(); q != v.end();) { auto z = q++; post.push_back(*z); }
                const VectorView<F>& c = v; for (size_t i = 0; i < v.size(); ++i) { at.push_back(v[i]); call.push_back(c(i)); if (!(c[i] == v(i))) return std::string("\"const\""); auto q = v.begin() + i; if (q - v.begin() != i) return std::string("\"distance\""); far.push_back(*q); }
                return Rec().kv("n", v.size()).kv("it", it).kv("post", post).kv("at", at).kv("call", call).kv("far", far).str(); };
            std::vector<std::string> r, c; const auto& y = x;
            for (size_t i = 0; i < x.nrow(); ++i) r.push_back(i % 2 ? one(y.r(i)) : one(x.r(i)));
            for (size_t j = 0; j < x.ncol(); ++j) c.push_back(j % 2 ? one(y[j]) : one(x[j]));
            return Rec().raw("rows", JL(r)).raw("cols", JL(c)).str(); }, reg[a]);
    }
    if (op == "put") { size_t a = t.I(); int i = t.I(), j = t.I(); F c = RdF<F>::rd(t); std::visit([&](auto& x) { x(i, j) = c; }, reg[a]); return dumpr(a); }
    if (op == "eq") { size_t a = t.I(), b = t.I(); return std::visit([](auto& x, auto& y) { return J(bool(x == y)); }, reg[a], reg[b]); }
    if (op == "swapr" || op == "swapc") { size_t a = t.I(), i = t.I(), j = t.I(); std::visit([&](auto& x) { if (op == "swapr") x.swap_rows(i, j); else x.swap_cols(i, j); }, reg[a]); return dumpr(a); }
    if (op == "addr" || op == "addc") { size_t a = t.I(), i = t.I(), j = t.I(); F c = RdF<F>::rd(t); std::visit([&](auto& x) { if (op == "addr") x.add_row_to(i, j, c); else x.add_col_to(i, j, c); }, reg[a]); return dumpr(a); }
    if (op == "laxpy") { size_t a = t.I(); std::string k = t.S(); size_t i = t.I(), b = t.I(); std::string q = t.S(); size_t j = t.I(); F c = RdF<F>::rd(t); line(a, k, i).axpy(c, line(b, q, j)); return dumpr(a); }
    if (op == "lset") { size_t a = t.I(); std::string k = t.S(); size_t i = t.I(), b = t.I(); std::string q = t.S(); size_t j = t.I(); line(a, k, i) = line(b, q, j); return dumpr(a); }
    if (op == "lput") { size_t a = t.I(); std::string k = t.S(); size_t i = t.I(), j = t.I(); F c = RdF<F>::rd(t); if (j % 2) line(a, k, i)[j] = c; else line(a, k, i)(j) = c; return dumpr(a); }
    if (op == "mul") { size_t d = t.I(), a = t.I(), b = t.I(); reg[d] = std::visit([](auto& x, auto& y) { return Any(matmul(x, y)); }, reg[a], reg[b]); return dumpr(d); }
    if (op == "left") { size_t a = t.I(), b = t.I(); return std::visit([](auto& x, auto& y) { dirty(); auto z = apply_matmul_on_left(x, y); return dump(z); }, reg[a], reg[b]); }
    if (op == "right") { size_t a = t.I(), b = t.I(); std::visit([](auto& x, auto& y) { dirty(); apply_matmul_on_right(x, y); }, reg[a], reg[b]); return dumpr(a); }
    if (op == "str") { size_t a = t.I(); std::string s = std::visit([](auto& x) { return x.str(); }, reg[a]); std::istringstream is(s); std::string l; std::vector<std::string> o;
        while (getline(is, l)) { std::istringstream ls(l); std::string w; V_ x; while (ls >> w) x.push_back(parse_value<F>(w)); o.push_back(J(x)); } return JL(o); }
    if (op == "norm") { auto v = t.L<int>(); std::vector<double> w(v.begin(), v.end()); A<Dense<double, ColMaj>> x(w.size(), 1, w.data()); return J(norm(x[0])); }
#if FIELD != 1
    if (op == "ldiv") { size_t a = t.I(); std::string k = t.S(); size_t i = t.I(); F c = RdF<F>::rd(t); line(a, k, i) /= c; return dumpr(a); }
    if (op == "inv") {
        std::string k = t.S(); size_t a = t.I(), b = t.I();
        return std::visit([&](auto& x, auto& y) {
            if (k == "Ll") return dump(apply_inverse_on_left(as<L>(x), y));
            if (k == "Ul") return dump(apply_inverse_on_left(as<U>(x), y));
            if (k == "Lr") return dump(apply_inverse_on_right(y, as<L>(x)));
            if (k == "Ur") return dump(apply_inverse_on_right(y, as<U>(x)));
            throw std::runtime_error("harness: bad kind"); }, reg[a], reg[b]);
    }
    if (op == "swapf") {       // a: echelon, b: triangular
        std::string k = t.S(); size_t a = t.I(), b = t.I();
        return std::visit([&](auto& x, auto& y) {
            if (k == "el_l") return dump(commute(as<EL>(x), as<L>(y)));
            if (k == "l_elh") return dump(commute(as<L>(y), as<ELH>(x)));
            if (k == "euh_u") return dump(commute(as<EUH>(x), as<U>(y)));
            if (k == "u_eu") return dump(commute(as<U>(y), as<EU>(x)));
            throw std::runtime_error("harness: bad kind"); }, reg[a], reg[b]);
    }
    if (op == "fact") {
        std::string k = t.S(); size_t a = t.I();
        std::string f = std::visit([&](auto& x) {
            if (k == "LEUP") return four(LEUP_fact(x));
            if (k == "PLEU") return four(PLEU_fact(x));
            if (k == "UELP") return four(UELP_fact(x));
            if (k == "PUEL") return four(PUEL_fact(x));
            throw std::runtime_error("harness: bad kind"); }, reg[a]);
        return Rec().raw("f", f).raw("M", dumpr(a)).str();
    }
#endif
    throw std::runtime_error("harness: bad op " + op);
}
int main(int argc, char** argv) { return run_main(argc, argv, init, step); }

// Interpreter for univariate polynomials, Smith forms (integers and polynomials) and rational canonical forms.  -DFIELD=p
#include "common.hpp"
using namespace vf;
using namespace bats;
#if FIELD == 0
using Fd = Rational<int>;
#else
using Fd = ModP<int, FIELD>;
#endif
using Pl = UnivariatePolynomial<Fd>;
using V = SparseVector<Fd>;
using MF = ColumnMatrix<V>;
using VP = SparseVector<Pl>; using MP = ColumnMatrix<VP>;
using VZ = SparseVector<int>; using MZ = ColumnMatrix<VZ>;
static void init(Tok&) {}
static std::vector<Fd> rdl(Tok& t) { size_t n = t.I(); std::vector<Fd> c; for (size_t i = 0; i < n; ++i) c.push_back(RdF<Fd>::rd(t)); return c; }
static Pl rdp(Tok& t) { return Pl(rdl(t)); }
static std::string out(const Pl& p) { std::vector<Fd> c; for (size_t i = 0; i < p.size(); ++i) c.push_back(p[i]); return J(c); }
static std::string out(int x) { return J(x); }
template <class M> std::string mout(const M& A) {
    std::vector<std::string> cs;
    for (auto& c : A.cols()) { std::vector<std::string> es; for (auto it = c.nzbegin(); it != c.nzend(); ++it) es.push_back(JL({J(size_t(it->ind)), out(it->val)})); cs.push_back(JL(es)); }
    return JL({J(A.nrow()), J(A.ncol()), JL(cs)});
}
static MP rdmp(Tok& t) {
    size_t m = t.I(), n = t.I(); std::vector<VP> c;
    for (size_t j = 0; j < n; ++j) { size_t k = t.I(); std::vector<size_t> ind; std::vector<Pl> val; for (size_t i = 0; i < k; ++i) { ind.push_back(t.I()); val.push_back(rdp(t)); } c.emplace_back(ind, val); }
    return MP(m, n, c);
}
template <class M> std::string smith(const std::string& how, const M& A) {
    if (how == "form") { M B(A); smith_normal_form(B); return Rec().raw("S", mout(B)).str(); }
    if (how == "rows") { auto [R, S] = smith_rows(A); return Rec().raw("R", mout(R)).raw("S", mout(S)).str(); }
    auto f = smith_factorization(A); return Rec().raw("R", mout(f.R)).raw("S", mout(f.S)).raw("C", mout(f.C)).raw("prod", mout(f.prod())).str();
}
static std::string step(const std::string& op, Tok& t) {
    if (op == "new") {
        std::string how = t.S();
        if (how == "list") { auto c = rdl(t); if (c.size() == 0) return out(Pl(std::initializer_list<Fd>{})); if (c.size() == 1) return out(Pl({c[0]})); if (c.size() == 2) return out(Pl({c[0], c[1]})); if (c.size() == 3) return out(Pl({c[0], c[1], c[2]})); return out(Pl({c[0], c[1], c[2], c[3]})); }
        if (how == "mono") { size_t d = t.I(); return out(Pl::monomial(d, rdl(t)[0])); }
        if (how == "const") return out(Pl(rdl(t)[0]));
        if (how == "one") { rdl(t); return out(Pl::identity()); }
        if (how == "zero") { rdl(t); return out(Pl::zero()); }
        return out(rdp(t));
    }
    if (op == "arith") {
        Pl a = rdp(t), b = rdp(t); Pl c(a), d(a), e(a), f(a); c += b; d -= b; e += e; f -= f;
        return Rec().raw("add", out(a + b)).raw("sub", out(a - b)).raw("mul", out(a * b)).raw("neg", out(-a)).raw("ia", out(c)).raw("is", out(d)).raw("dbl", out(e)).raw("nil", out(f))
            .kv("eq", a == b).kv("ne", a != b).kv("z", a.is_zero()).kv("e0", a == 0).kv("e1", a == 1).kv("n1", a != 1).kv("n0", a != 0).kv("size", a.size()).str();
    }
    if (op == "div") { Pl a = rdp(t), b = rdp(t); auto [q, r] = a.divrem(b); return Rec().raw("q", out(q)).raw("r", out(r)).raw("q2", out(a / b)).raw("r2", out(a.remainder(b))).str(); }
    if (op == "gcd") { Pl a = rdp(t), b = rdp(t); return out(a.gcd(b)); }
    if (op == "bez") { Pl a = rdp(t), b = rdp(t); auto [x, y, g, w, z] = extended_euclidean(a, b); return JL({out(x), out(y), out(g), out(w), out(z)}); }
    if (op == "zbez") { int a = t.I(), b = t.I(); auto [x, y, g, w, z] = extended_euclidean(a, b); return J(std::vector<int>{x, y, g, w, z}); }
    if (op == "eval") { Pl a = rdp(t); auto v = rdl(t); std::vector<Fd> r; for (auto& x : v) r.push_back(a(x)); return J(r); }
    if (op == "meval") { Pl a = rdp(t); MF A = rdmat<V>(t); V v = rdvec<V>(t); return J(a(A, v)); }
    if (op == "comp") { Pl a = rdp(t); try { return J(a.companion_matrix()); } catch (const std::runtime_error&) { return std::string("{\"err\": \"runtime_error\"}"); } }
    if (op == "charm") { MF A = rdmat<V>(t); try { return mout(characteristic_matrix(A)); } catch (const std::runtime_error&) { return std::string("{\"err\": \"runtime_error\"}"); } }
    if (op == "psmith") { std::string how = t.S(); return smith(how, rdmp(t)); }
    if (op == "zsmith") { std::string how = t.S(); size_t m = t.I(), n = t.I(); std::vector<VZ> c; for (size_t j = 0; j < n; ++j) { size_t k = t.I(); std::vector<size_t> ind; std::vector<int> val; for (size_t i = 0; i < k; ++i) { ind.push_back(t.I()); val.push_back(t.I()); } c.emplace_back(ind, val); } return smith(how, MZ(m, n, c)); }
    if (op == "rcf") {
        MF A = rdmat<V>(t); auto [R, S] = smith_rows(characteristic_matrix(A)); auto B = generating_basis(R, A); auto W = RCF_basis(S, A, B);
        return Rec().raw("S", mout(S)).raw("B", J(B)).raw("W", J(W)).str();
    }
    throw std::runtime_error("harness: bad op " + op);
}
int main(int argc, char** argv) { return run_main(argc, argv, init, step); }

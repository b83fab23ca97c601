// Interpreter for the dense matrices, LU factorization, similarity transforms, spans and permutations of include/future.  -DFIELD=p
#include "common.hpp"
#include <future.hpp>
using namespace vf;
using namespace bats;
namespace bf = bats::future;
#if FIELD == 0
using F = Rational<int>;
#else
using F = ModP<int, FIELD>;
#endif
using X_ = bf::Matrix<F>;
using V_ = std::vector<F>;
static std::vector<X_> reg(4); static std::unique_ptr<bf::Span<F>> sp; static std::unique_ptr<bf::SimilarityTransform<F>> sim;
static bf::CompositePermutation cp_;
static void init(Tok&) { reg.assign(4, X_()); sp.reset(); sim.reset(); }
static V_ rdl(Tok& t) { V_ v; size_t z = t.I(); for (size_t k = 0; k < z; ++k) v.push_back(RdF<F>::rd(t)); return v; }
static std::string dump(const X_& a) {            // rows, seen entry by entry
    std::vector<std::string> rs;
    for (size_t i = 0; i < a.nrow(); ++i) { V_ x; for (size_t j = 0; j < a.ncol(); ++j) x.push_back(a(i, j)); rs.push_back(J(x)); }
    auto d = a.dims(); if (d.first != a.nrow() || d.second != a.ncol() || a.len() != a.nrow() * a.ncol()) return "\"dims\"";
    return JL({J(a.nrow()), J(a.ncol()), JL(rs)});
}
template <class W> std::string dumpv(const W& a) {
    std::vector<std::string> rs;
    for (size_t i = 0; i < a.nrow(); ++i) { V_ x; for (size_t j = 0; j < a.ncol(); ++j) x.push_back(a(i, j)); rs.push_back(J(x)); }
    return JL({J(a.nrow()), J(a.ncol()), JL(rs)});
}
static X_ fromv(size_t m, size_t n, const std::string& ord, const V_& v) {
    X_ a = ord == "row" ? X_(m, n, bf::RowMajor()) : ord == "col" ? X_(m, n, bf::ColumnMajor()) : X_(m, n);
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) a(i, j) = v.at(i * n + j);
    return a;
}
static std::string simd() { X_ s = sim->S, b = sim->A, q = sim->Sinv; return Rec().raw("S", dump(s)).raw("A", dump(b)).raw("V", dump(q)).raw("P", dump(sim->prod())).kv("n", sim->size()).str(); }
static std::string step(const std::string& op, Tok& t) {
    if (op == "make") { size_t i = t.I(), m = t.I(), n = t.I(); std::string ord = t.S(); reg[i] = fromv(m, n, ord, rdl(t)); return dump(reg[i]); }
    if (op == "fill") { size_t i = t.I(), m = t.I(), n = t.I(); std::string ord = t.S(); F c = RdF<F>::rd(t); bf::ColumnMajor cm; bf::RowMajor rm; reg[i] = ord == "col" ? X_(m, n, c, cm) : ord == "row" ? X_(m, n, c, rm) : X_(m, n, c); return dump(reg[i]); }
    if (op == "ident") { size_t i = t.I(), n = t.I(); reg[i] = X_::identity(n); return dump(reg[i]); }
    if (op == "tocol") { size_t d = t.I(), a = t.I(); X_ x(reg[a], bf::ColumnMajor()); reg[d] = x; return dump(reg[d]); }
    if (op == "copy") { size_t d = t.I(), a = t.I(); reg[d] = reg[a]; return dump(reg[d]); }
    if (op == "T") { size_t d = t.I(), a = t.I(); reg[d] = reg[a].transpose(); return dump(reg[d]); }
    if (op == "mul") { size_t d = t.I(), a = t.I(), b = t.I(); std::string how = t.S(); X_ r = how == "op" ? reg[a] * reg[b] : how == "mm" ? reg[a].mm(reg[b]) : bf::gemm(reg[a], reg[b]); reg[d] = r; return dump(reg[d]); }
    if (op == "mv") { size_t a = t.I(); V_ x = rdl(t), y(reg[a].nrow(), F(1)); bf::gemv(reg[a], x, y); auto z = reg[a].mv(x); return Rec().kv("y", y).raw("z", dump(z)).str(); }
    if (op == "swapr") { size_t d = t.I(), i = t.I(), j = t.I(); reg[d].swap_rows(i, j); return dump(reg[d]); }
    if (op == "swapc") { size_t d = t.I(), i = t.I(), j = t.I(); reg[d].swap_columns(i, j); return dump(reg[d]); }
    if (op == "addr") { size_t d = t.I(), i = t.I(), j = t.I(); F c = RdF<F>::rd(t); if (t.I()) reg[d].add_row(i, j); else reg[d].add_row(c, i, j); return dump(reg[d]); }
    if (op == "addc") { size_t d = t.I(), i = t.I(), j = t.I(); F c = RdF<F>::rd(t); if (t.I()) reg[d].add_column(i, j); else reg[d].add_column(c, i, j); return dump(reg[d]); }
    if (op == "scaler") { size_t d = t.I(), i = t.I(); F c = RdF<F>::rd(t); reg[d].scale_row(c, i); return dump(reg[d]); }
    if (op == "scalec") { size_t d = t.I(), i = t.I(); F c = RdF<F>::rd(t); reg[d].scale_column(c, i); return dump(reg[d]); }
    if (op == "appc") { size_t d = t.I(); F c = RdF<F>::rd(t); bool ok = reg[d].append_column(c); return Rec().kv("ok", ok).raw("M", dump(reg[d])).str(); }
    if (op == "delc") { size_t d = t.I(); bool ok = reg[d].delete_column(); return Rec().kv("ok", ok).raw("M", dump(reg[d])).str(); }
    if (op == "walk") {          // rows and columns through their iterators, by index, forwards and backwards
        size_t a = t.I(); std::vector<std::string> o; X_& m = reg[a];
        auto go = [&](auto v, size_t n) { V_ x, y, z, w; for (auto it = v.begin(); it != v.end(); ++it) x.push_back(*it); for (auto it = v.begin(); it != v.end();) y.push_back(*it++);
            for (size_t i = 0; i < n; ++i) z.push_back(v[i]); auto it = v.end(); while (it != v.begin()) { --it; w.push_back(*it); }
            const auto& c = v; V_ u; for (auto q = c.begin(); q != c.end();) u.push_back(*q++);
            V_ b; auto e = c.cend(); for (size_t i = 0; i < n; ++i) { e--; b.push_back(*e); }
            o.push_back(JL({J(x), J(y), J(z), J(w), J(u), J(b)})); };
        for (size_t i = 0; i < m.nrow(); ++i) go(m.row(i), m.ncol());
        for (size_t j = 0; j < m.ncol(); ++j) go(m.column(j), m.nrow());
        return JL(o);
    }
    if (op == "view") { size_t a = t.I(); auto r = t.L<size_t>(), c = t.L<size_t>(); auto v = reg[a].view(r, c); return dumpv(v); }
    if (op == "viewset") { size_t a = t.I(); auto r = t.L<size_t>(), c = t.L<size_t>(); F x = RdF<F>::rd(t); auto v = reg[a].view(r, c); for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < c.size(); ++j) v(i, j) = x; return dump(reg[a]); }
    if (op == "viewr") { size_t a = t.I(), r0 = t.I(), r1 = t.I(), c0 = t.I(), c1 = t.I(); return dumpv(reg[a].view(bf::range<size_t>(r0, r1), bf::range<size_t>(c0, c1))); }
    if (op == "lu") {
        size_t a = t.I(); auto f = bf::LU(reg[a]); return Rec().raw("P", dump(f.P)).raw("L", dump(f.L)).raw("U", dump(f.U)).raw("Q", dump(f.Q)).raw("prod", dump(f.prod())).raw("A", dump(reg[a])).str();
    }
    if (op == "lsolve") { size_t a = t.I(); V_ y = rdl(t), x(reg[a].ncol(), F(1)); bool ok = bf::l_solve(reg[a], y, x); return Rec().kv("ok", ok).kv("x", x).kv("y", y).str(); }
    if (op == "lres") { size_t a = t.I(); V_ y = rdl(t); bf::l_residual(reg[a], y); return J(y); }
    if (op == "span") { sp = std::make_unique<bf::Span<F>>(size_t(t.I()), F()); return Rec().kv("dim", sp->dim()).kv("vdim", sp->vdim()).str(); }
    if (op == "sadd") { V_ v = rdl(t); bool r = sp->add(v); return Rec().kv("r", r).kv("dim", sp->dim()).kv("vdim", sp->vdim()).raw("Pt", dump(sp->Pt)).raw("L", dump(sp->L)).str(); }
    if (op == "shas") { V_ v = rdl(t); return J(sp->contains(v)); }
    if (op == "sim") { size_t a = t.I(); sim = std::make_unique<bf::SimilarityTransform<F>>(reg[a]); return simd(); }
    if (op == "simop") {
        std::string k = t.S(); size_t i = t.I(), j = t.I(); F c = RdF<F>::rd(t);
        if (k == "swapr") sim->swap_rows(i, j); else if (k == "swapc") sim->swap_columns(i, j); else if (k == "add") sim->add_row(c, i, j); else if (k == "scaler") sim->scale_row(c, i); else sim->scale_column(c, i);
        return simd();
    }
    if (op == "perm") {          // composite built from swaps by append, swap, or composition; applied to data
        auto is = t.L<size_t>(), js = t.L<size_t>(), hows = t.L<size_t>(); auto data = t.L<long>();
        bf::CompositePermutation p; std::vector<long> e = data;
        for (size_t k = 0; k < is.size(); ++k) {
            const bf::ElementaryPermutation q(is[k], js[k]);
            if (hows[k] == 0) p.append(q); else if (hows[k] == 1) p.swap(is[k], js[k]); else if (hows[k] == 2) q(p); else p(q);
        }
        std::ostringstream os; os << p; const auto& cp = p;
        cp(e); std::vector<long> one = data; if (is.size()) { const bf::ElementaryPermutation q(is[0], js[0]); q(one); }
        return Rec().kv("all", e).kv("one", one).kv("txt", os.str()).str();
    }
    if (op == "range") {
        long b = t.I(), e = t.I(), s = t.I(); bool two = t.I(); bf::range<long> r = two ? bf::range<long>(b, e) : bf::range<long>(b, e, s); std::vector<long> x, y, z;
        for (size_t i = 0; i < r.size(); ++i) x.push_back(r[i]);
        for (auto it = r.begin(); it != r.end(); ++it) y.push_back(*it);
        for (auto it = r.cbegin(); it != r.cend();) z.push_back(*it++);
        return Rec().kv("n", r.size()).kv("x", x).kv("y", y).kv("z", z).kv("f", r.first()).kv("l", r.last()).kv("s", r.stride()).str();
    }
    throw std::runtime_error("harness: bad op " + op);
}
int main(int argc, char** argv) { return run_main(argc, argv, init, step); }

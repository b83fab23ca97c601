// Interpreter for histories over field elements, sparse vectors and column matrices.
// -DFIELD=2|3|5|7|13|0 (0 = rationals)
#include "common.hpp"
using namespace vf;
#if FIELD == 0
using F = Rational<int>;
#else
using F = ModP<int, FIELD>;
#endif
using V = SparseVector<F, size_t>;
using M = ColumnMatrix<V>;
static std::map<long, F> fr; static std::map<long, V> vr; static std::map<long, M> mr;

static void init(Tok&) {}
static F rf(Tok& t) { return RdF<F>::rd(t); }
template <class T> static std::vector<F> rfl(Tok& t) { size_t n = t.I(); std::vector<F> v; for (size_t i = 0; i < n; ++i) v.push_back(rf(t)); return v; }
template <class It, class Vv> static std::string pos(It it, const Vv& v) {   // position of an iterator
    if (it == v.nzend()) return "[]";
    return "[" + J((size_t) it->ind) + "," + J(it->val) + "]";
}

static std::string field_op(const std::string& op, Tok& t) {
    long d = t.I();
    if (op == "fint") { fr[d] = F((int) t.I()); }
#if FIELD == 0
    else if (op == "ffrac") { int n = t.I(); int dd = t.I(); fr[d] = F(n, dd); }
#endif
    else if (op == "fadd") { F a = fr[t.I()], b = fr[t.I()]; fr[d] = a + b; }
    else if (op == "fsub") { F a = fr[t.I()], b = fr[t.I()]; fr[d] = a - b; }
    else if (op == "fmul") { F a = fr[t.I()], b = fr[t.I()]; fr[d] = a * b; }
    else if (op == "fdiv") { F a = fr[t.I()], b = fr[t.I()]; fr[d] = a / b; }
    else if (op == "fneg") { F a = fr[t.I()]; fr[d] = F(-a); }
    else if (op == "finv") { F a = fr[t.I()]; fr[d] = a.inv(); }
    else if (op == "fadde") { F& b = fr[t.I()]; fr[d] += b; }
    else if (op == "fsube") { F& b = fr[t.I()]; fr[d] -= b; }
    else if (op == "fmule") { F& b = fr[t.I()]; fr[d] *= b; }
    else if (op == "fdive") { F& b = fr[t.I()]; fr[d] /= b; }
    else if (op == "fassign") { int k = t.I(); fr[d] = k; }
    else if (op == "fcmp") { F a = fr[d], b = fr[t.I()]; return JL({J(a == b), J(a != b), J(a < b), J(b < a), J(a.iszero())}); }
    else if (op == "fcmpi") { F a = fr[d]; int k = t.I(); return JL({J(a == k), J(a != k)}); }
    else if (op == "fint_of") { return J((int) fr[d].to_int()); }
    else throw std::runtime_error("harness: bad op " + op);
    return J(fr[d]);
}

static std::string vec_op(const std::string& op, Tok& t) {
    long d = t.I();
    V& y = vr[d];
    typename V::tmp_type tmp;
    if (op == "vset") y = rdvec<V>(t);
    else if (op == "vtup") {  // unsorted integer tuples
        size_t k = t.I(); std::vector<std::tuple<size_t, int>> iv;
        for (size_t i = 0; i < k; ++i) { size_t a = t.I(); int b = t.I(); iv.emplace_back(a, b); }
        y = V(iv);
    }
    else if (op == "vunit") y = V((size_t) t.I());
    else if (op == "vdense") { F a = rf(t); y = V::dense(a, t.I()); }
    else if (op == "vaxpy") { F a = rf(t); y.axpy(a, vr[t.I()]); }
    else if (op == "vaxpyt") { F a = rf(t); y.axpy(a, vr[t.I()], tmp); }
    else if (op == "vaxpyr") { F a = rf(t); long s = t.I(); size_t f = t.I(), l = t.I(); y.axpy(a, vr[s], f, l, tmp); }
    else if (op == "vaxpyc") { long s = t.I(); auto c = rfl<F>(t); auto ii = t.L<size_t>(); y.axpy(vr[s], c, ii, tmp); }
    else if (op == "vadd") { V a = vr[t.I()], b = vr[t.I()]; y = a + b; }
    else if (op == "vcopy") { y = vr[t.I()]; }
    else if (op == "vscale") { F a = rf(t); y.scale_inplace(a); }
    else if (op == "vscalev") { auto c = rfl<F>(t); y.scale_inplace(c); }
    else if (op == "vscalei") { size_t i = t.I(); F a = rf(t); y.scale_inplace(i, a); }
    else if (op == "vmul") { F a = rf(t); y = vr[t.I()] * a; }
    else if (op == "vscaled") { F a = rf(t); y = vr[t.I()].scale(a); }
    else if (op == "vdot") { return J(F(y * vr[t.I()])); }
    else if (op == "vget") { size_t i = t.I(); return JL({J(F(y.getval(i))), J(F(y[i]))}); }
    else if (op == "vgetall") { size_t n = t.I(); std::vector<F> o; for (size_t i = 0; i < n; ++i) o.push_back(y[i]); return J(o); }
    else if (op == "vperm") y.permute(t.L<size_t>());
    else if (op == "viperm") y.ipermute(t.L<size_t>());
    else if (op == "vJ") y.J(t.I());
    else if (op == "vrev") y.reverse_inds(t.I());
    else if (op == "vswap") { size_t i = t.I(), j = t.I(); y.swap_rows(i, j); }
    else if (op == "vmix") { size_t i = t.I(), j = t.I(); F a = rf(t), b = rf(t), c = rf(t), e = rf(t); y.mix_rows(i, j, a, b, c, e); }
    else if (op == "vblock") { V s = vr[t.I()]; size_t i = t.I(), j = t.I(); y = s.block(i, j); }
    else if (op == "vsetblock") { size_t i = t.I(), j = t.I(); V s = vr[t.I()]; y.set_block(i, j, s); }
    else if (op == "vshift") { V s = vr[t.I()]; y = s.shift_inds(t.I()); }
    else if (op == "vkron") { V a = vr[t.I()], b = vr[t.I()]; y = a.kron(b, t.I()); }
    else if (op == "vindset") { V s = vr[t.I()]; y = s[t.L<size_t>()]; }
    else if (op == "vsubv") { V s = vr[t.I()]; size_t n = t.I(); auto p = bats::util::partial_perm(t.L<size_t>(), n); y = s.subvector(p); }
    else if (op == "verase") y.erase_for_matrix(t.I());
    else if (op == "veraselast") y.erase_last_row_of_matrix(t.I());
    else if (op == "veraselasts") { size_t i = t.I(); y.erase_last_rows_of_matrix(i, t.I()); }
    else if (op == "veraseafter") y.erase_rows_after(t.I());
    else if (op == "verasefirst") y.erase_initial_rows(t.I());
    else if (op == "vinsert") { auto r = t.L<size_t>(); auto v = rfl<F>(t); y.insert_rows(r, v); }
    else if (op == "vinsertz") { auto r = t.L<size_t>(); y.insert_rows(r); }
    else if (op == "vclearinds") { auto c = t.L<int>(); std::vector<bool> b(c.begin(), c.end()); y.clear_inds(b); }
    else if (op == "vclearindst") { auto c = t.L<int>(); std::vector<bool> b(c.begin(), c.end()); y.clear_inds(b, tmp); }
    else if (op == "vclear") y.clear();
    else if (op == "vnnzint") return J((size_t) y.nnz_intersection(vr[t.I()]));
    else if (op == "vcoeffint") {
        std::map<F, size_t> ct; y.coeff_intersection(vr[t.I()], ct);
        std::vector<std::string> p; for (auto& kv : ct) p.push_back("[" + J(kv.first) + "," + J(kv.second) + "]");
        return JL(p);
    }
    else if (op == "veq") { V b = vr[t.I()]; return JL({J(y == b), J(y != b)}); }
    else if (op == "vquery") {
        return Rec().kv("nnz", (size_t) y.nnz()).kv("inds", y.nzinds()).kv("vals", y.nzvals()).str();
    }
    else if (op == "vends") { return JL({"[" + J((size_t) y.firstnz().ind) + "," + J(F(y.firstnz().val)) + "]", "[" + J((size_t) y.lastnz().ind) + "," + J(F(y.lastnz().val)) + "]"}); }
    else if (op == "vbounds") { size_t i = t.I(); return JL({pos(y.lower_bound(i), y), pos(y.upper_bound(i), y)}); }
    else if (op == "vio") { std::string s = y.str(); if (!s.empty() && s.back() == '\n') s.pop_back(); y = V(s); }
    else if (op == "vpush") { size_t i = t.I(); F a = rf(t); y.emplace_back(i, a); }
    else throw std::runtime_error("harness: bad op " + op);
    return J(y);
}

// the same vectors in a SetVector (op "impl" chooses it for a history)
using SV = SetVector<F, size_t>;
static bool useset = false; static std::map<long, SV> sr;
static std::string js(const SV& x) { std::vector<std::string> o; for (auto it = x.nzbegin(); it != x.nzend(); ++it) o.push_back("[" + J((size_t) it->ind) + "," + J(it->val) + "]"); return JL(o); }
static V plain(const SV& x) { V y; for (auto it = x.nzbegin(); it != x.nzend(); ++it) y.emplace_back(it->ind, it->val); return y; }
static std::string set_op(const std::string& op, Tok& t) {
    long d = t.I();
    SV& y = sr[d];
    if (op == "vset") {
        V v = rdvec<V>(t); auto i = v.nzinds(); auto c = v.nzvals();
        if (d % 2) y = SV(i.cbegin(), c.cbegin(), i.size());
        else { std::reverse(i.begin(), i.end()); std::reverse(c.begin(), c.end()); y = SV(i, c); }
    }
    else if (op == "vtup") { size_t k = t.I(); std::vector<size_t> i; std::vector<int> c; for (size_t q = 0; q < k; ++q) { i.push_back(t.I()); c.push_back(t.I()); } y = SV(i.begin(), c.begin(), k); }
    else if (op == "vunit") y = SV((size_t) t.I());
    else if (op == "vaxpy") { F a = rf(t); SV x = sr[t.I()]; y.axpy(a, x); }
    else if (op == "vaxpyt") { F a = rf(t); y.axpy(a, plain(sr[t.I()])); }
    else if (op == "vaxpyr") { F a = rf(t); SV x = sr[t.I()]; size_t f = t.I(), l = t.I(); if (f % 2) y.axpy(a, plain(x), f, l); else y.axpy(a, x, f, l); }
    else if (op == "vcopy") { y = sr[t.I()]; }
    else if (op == "vput") { size_t i = t.I(); F a = rf(t); auto it = y.set(i, a); if (it->ind != i || !(it->val == a)) return "\"set\""; }
    else if (op == "vrepl") { size_t i = t.I(), j = t.I(); F a = rf(t); auto it = y.lower_bound(i); auto r = i == j ? y.replace(it, a) : y.replace(it, j, a); if (r->ind != j || !(r->val == a)) return "\"replace\""; }
    else if (op == "vperm") y.permute(t.L<size_t>());
    else if (op == "vget") { size_t i = t.I(); return JL({J(F(y.get(i))), J(F(y.get(i)))}); }
    else if (op == "vgetall") { size_t n = t.I(); std::vector<F> o; for (size_t i = 0; i < n; ++i) o.push_back(y.get(i)); return J(o); }
    else if (op == "veq") { const SV& b = sr[t.I()]; bool e = y == b; if (e != (y == plain(b))) return "\"mixed\""; return JL({J(e), J(!e)}); }
    else if (op == "vquery") { std::vector<size_t> i; std::vector<F> c; for (auto it = y.nzbegin(); it != y.nzend(); ++it) { i.push_back(it->ind); c.push_back(it->val); } return Rec().kv("nnz", (size_t) y.nnz()).kv("inds", i).kv("vals", c).str(); }
    else if (op == "vends") { return JL({"[" + J((size_t) y.nzbegin()->ind) + "," + J(F(y.nzbegin()->val)) + "]", "[" + J((size_t) y.lastnz().ind) + "," + J(F(y.lastnz().val)) + "]"}); }
    else if (op == "vbounds") { size_t i = t.I(); const SV& c = y; if (c.lower_bound(i) != y.lower_bound(i) || c.upper_bound(i) != y.upper_bound(i)) return "\"const\""; return JL({pos(y.lower_bound(i), y), pos(y.upper_bound(i), y)}); }
    else throw std::runtime_error("harness: bad op " + op);
    return js(y);
}

static std::vector<V> rdvecs(Tok& t) { size_t n = t.I(); std::vector<V> v; for (size_t i = 0; i < n; ++i) v.push_back(rdvec<V>(t)); return v; }
static std::vector<bool> rb(Tok& t) { auto c = t.L<int>(); return std::vector<bool>(c.begin(), c.end()); }

static std::string mat_op(const std::string& op, Tok& t) {
    long d = t.I();
    M& y = mr[d];
    if (op == "mset") y = rdmat<V>(t);
    else if (op == "mzero") { size_t m = t.I(), n = t.I(); y = M(m, n); }
    else if (op == "mfill") { size_t m = t.I(), n = t.I(); F a = rf(t); y = M(m, n, a); }
    else if (op == "mident") y = M::identity(t.I());
    else if (op == "mcopy") { y = mr[t.I()]; }
    else if (op == "mcsc") {   // integer CSC columns (colptr, rowind, val) with m rows
        size_t m = t.I(); auto cp = t.L<size_t>(); auto ri = t.L<size_t>(); auto va = t.L<int>();
        CSCMatrix<int, size_t> A(m, cp.size() - 1, cp, ri, va); y = M(A);
    }
    else if (op == "madd") { M a = mr[t.I()], b = mr[t.I()]; M c = a + b; y = c; }
    else if (op == "madde") { M b = mr[t.I()]; y += b; }
    else if (op == "msub") { M a = mr[t.I()], b = mr[t.I()]; M c = a - b; y = c; }
    else if (op == "mmul") { M a = mr[t.I()], b = mr[t.I()]; M c = a * b; y = c; }
    else if (op == "mscal") { M a = mr[t.I()]; F c = rf(t); y = a * c; }
    else if (op == "mT") { M a = mr[t.I()]; y = a.transpose(); }
    else if (op == "mTT") { M a = mr[t.I()]; y = a.T(); }
    else if (op == "mgemv") { long s = t.I(); typename V::tmp_type tmp; V a = y * vr[s], b = y.gemv(vr[s]), c = y.gemv(vr[s], tmp); return JL({J(a), J(b), J(c)}); }
    else if (op == "mvtm") { V x = vr[t.I()]; return J(x * y); }
    else if (op == "mget") { size_t i = t.I(), j = t.I(); return JL({J(F(y.getval(i, j))), J(F(y(i, j)))}); }
    else if (op == "mrows") { return J(y.to_row_array()); }
    else if (op == "mpermr") y.permute_rows(t.L<size_t>());
    else if (op == "mipermr") y.ipermute_rows(t.L<size_t>());
    else if (op == "mpermc") y.permute_cols(t.L<size_t>());
    else if (op == "mipermc") y.ipermute_cols(t.L<size_t>());
    else if (op == "mpermrc") { auto a = t.L<size_t>(); auto b = t.L<size_t>(); y.permute(a, b); }
    else if (op == "mswapr") { size_t i = t.I(), j = t.I(); y.swap_rows(i, j); }
    else if (op == "mswapc") { size_t i = t.I(), j = t.I(); y.swap_cols(i, j); }
    else if (op == "mmixr") { size_t i = t.I(), j = t.I(); F a = rf(t), b = rf(t), c = rf(t), e = rf(t); y.mix_rows(i, j, a, b, c, e); }
    else if (op == "mmixc") { size_t i = t.I(), j = t.I(); F a = rf(t), b = rf(t), c = rf(t), e = rf(t); y.mix_cols(i, j, a, b, c, e); }
    else if (op == "mrowscale") y.row_scale(rfl<F>(t));
    else if (op == "mcolinv") y.col_inv_scale(rfl<F>(t));
    else if (op == "msubm") { M a = mr[t.I()]; auto r = t.L<size_t>(); auto c = t.L<size_t>(); y = a.submatrix(r, c); }
    else if (op == "mblock") { M a = mr[t.I()]; size_t i0 = t.I(), i1 = t.I(), j0 = t.I(), j1 = t.I(); y = a.block(i0, i1, j0, j1); }
    else if (op == "msetblock") { size_t i0 = t.I(), i1 = t.I(), j0 = t.I(), j1 = t.I(); M b = mr[t.I()]; y.set_block(i0, i1, j0, j1, b); }
    else if (op == "mclearr") y.clear_rows(rb(t));
    else if (op == "mclearc") y.clear_cols(rb(t));
    else if (op == "mappc") { V v = rdvec<V>(t); y.append_column(v); }
    else if (op == "mappcz") y.append_column();
    else if (op == "minsc") { size_t i = t.I(); V v = rdvec<V>(t); y.insert_column(i, v); }
    else if (op == "minscz") { size_t i = t.I(); y.insert_column(i); }
    else if (op == "minscs") { auto ii = t.L<size_t>(); auto vs = rdvecs(t); y.insert_columns(ii, vs); }
    else if (op == "mappr") y.append_row(rfl<F>(t));
    else if (op == "mapprs") y.append_sparse_row(rdvec<V>(t));
    else if (op == "mapprz") y.append_row();
    else if (op == "minsr") { size_t i = t.I(); y.insert_row(i, rfl<F>(t)); }
    else if (op == "minsrz") { size_t i = t.I(); y.insert_row(i); }
    else if (op == "minsrsz") y.insert_rows(t.L<size_t>());
    else if (op == "minsrs") { auto ii = t.L<size_t>(); auto vs = rdvecs(t); y.insert_rows(ii, vs); }
    else if (op == "minssp") { auto ii = t.L<size_t>(); auto vs = rdvecs(t); y.insert_sparse_rows(ii, vs); }
    else if (op == "merc") y.erase_column(t.I());
    else if (op == "mercl") y.erase_column();
    else if (op == "merfc") y.erase_final_columns(t.I());
    else if (op == "meric") y.erase_initial_cols(t.I());
    else if (op == "merr") y.erase_row(t.I());
    else if (op == "merrl") y.erase_row();
    else if (op == "merrs") y.erase_rows(t.I());
    else if (op == "merir") y.erase_initial_rows(t.I());
    else if (op == "mJr") { M a = mr[t.I()]; y = a.J_right(); }
    else if (op == "mJl") { M a = mr[t.I()]; y = a.J_left(); }
    else if (op == "mJc") { M a = mr[t.I()]; y = a.J_conjugation(); }
    else if (op == "mdsum") { M a = mr[t.I()], b = mr[t.I()]; y = direct_sum(a, b); }
    else if (op == "mio") { std::stringstream s; y.write(s); M z(s); y = z; }
    else if (op == "mtests") {
        return Rec().kv("nnz", (size_t) y.nnz()).kv("zero", y.is_zero()).kv("upper", y.is_upper()).kv("lower", y.is_lower())
            .kv("red", y.is_reduced()).kv("pivot", y.is_pivot_matrix()).kv("el", y.is_EL()).kv("eu", y.is_EU())
            .kv("elh", y.is_ELhat()).kv("euh", y.is_EUhat()).str();
    }
    else if (op == "mupinv") return J(y.is_upper_invert());
    else if (op == "meq") { M b = mr[t.I()]; return J(y == b); }
    // ---- triangular solves / inverses
    else if (op == "usolvev") { V b = vr[t.I()]; return J(u_solve(y, b)); }
    else if (op == "lsolvev") { V b = vr[t.I()]; return J(l_solve(y, b)); }
    else if (op == "usolve") { M b = mr[t.I()]; return J(u_solve(y, b)); }
    else if (op == "lsolve") { M b = mr[t.I()]; return J(l_solve(y, b)); }
    else if (op == "uinv") return J(u_inv(y));
    else if (op == "linv") return J(l_inv(y));
    else if (op == "inv") return J(inv(y));
    // ---- factorisations: [L, E, U, P] in the order of the product
    else if (op == "LEUP") { auto f = LEUP(y); return JL({J(f.L), J(f.E), J(f.U), J(f.P)}); }
    else if (op == "PLEU") { auto f = PLEU(y); return JL({J(f.P), J(f.L), J(f.E), J(f.U)}); }
    else if (op == "UELP") { auto f = UELP(y); return JL({J(f.U), J(f.E), J(f.L), J(f.P)}); }
    else if (op == "PUEL") { auto f = PUEL(y); return JL({J(f.P), J(f.U), J(f.E), J(f.L)}); }
    else if (op == "LQU") { auto f = LQU(y); return JL({J(f.L), J(f.E), J(f.U)}); }
    else if (op == "UQL") { auto f = UQL(y); return JL({J(f.U), J(f.E), J(f.L)}); }
    else if (op == "comm") {   // commute a triangular matrix past an echelon/pivot matrix
        std::string k = t.S(); M a = mr[t.I()];
        // y * a = result * y (or y * result), see the specification for each kind
        if (k == "EL_L") return J(EL_L_commute(y, a));
        if (k == "L_EL") return J(L_EL_commute(y, a));
        if (k == "EU_U") return J(EU_U_commute(y, a));
        if (k == "U_EU") return J(U_EU_commute(y, a));
        throw std::runtime_error("harness: bad commute " + k);
    }
    else throw std::runtime_error("harness: bad op " + op);
    return J(y);
}

static std::string step(const std::string& op, Tok& t) {
    if (op[0] == 'f' && op != "fold") return field_op(op, t);
    if (op == "impl") { useset = t.S() == "set"; return "0"; }
    if (op[0] == 'v') return useset ? set_op(op, t) : vec_op(op, t);
    return mat_op(op, t);
}
int main(int argc, char** argv) { return run_main(argc, argv, init, step); }

// Interpreter for compressed-column matrices.  -DFIELD=p
#include "common.hpp"
using namespace vf;
using namespace bats;
#if FIELD == 0
using F = Rational<int>;
#else
using F = ModP<int, FIELD>;
#endif
using C_ = CSCMatrix<F, size_t>;
static std::vector<C_> reg(4);
static void init(Tok&) { reg.assign(4, C_()); }
static std::string dump(const C_& M) {            // [m, n, columns of [row, value]] with the entries seen one by one
    std::vector<std::string> cs, g;
    auto& cp = M.get_colptr(); auto& ri = M.get_rowind(); auto& v = M.get_val();
    for (size_t j = 0; j < M.ncol(); ++j) { std::vector<std::string> es; for (size_t k = cp.at(j); k < cp.at(j + 1); ++k) es.push_back(JL({J(ri.at(k)), J(v.at(k))})); cs.push_back(JL(es)); }
    for (size_t i = 0; i < M.nrow(); ++i) { std::vector<F> x; for (size_t j = 0; j < M.ncol(); ++j) x.push_back(M.getval(i, j)); g.push_back(J(x)); }
    return Rec().raw("M", JL({J(M.nrow()), J(M.ncol()), JL(cs)})).raw("rows", JL(g)).kv("nnz", ri.size()).kv("nval", (size_t)v.size()).str();
}
static std::string step(const std::string& op, Tok& t) {
    if (op == "make") {
        size_t i = t.I(), m = t.I(), n = t.I(); std::string how = t.S(); auto cp = t.L<size_t>(), ri = t.L<size_t>();
        std::vector<F> v; size_t z = t.I(); for (size_t k = 0; k < z; ++k) v.push_back(RdF<F>::rd(t));
        reg[i] = how == "infer" ? C_(cp, ri, v) : C_(m, n, cp, ri, v);
        return dump(reg[i]);
    }
    size_t d = t.I(), a = t.I();
    if (op == "copy") { reg[d] = C_(reg[a]); return dump(reg[d]); }
    if (op == "sub") { auto r = t.L<size_t>(), c = t.L<size_t>(); reg[d] = reg[a].submatrix(r, c); return dump(reg[d]); }
    if (op == "block") { auto c = t.L<size_t>(), pr = t.L<size_t>(); for (auto& x : pr) if (x == 1000000001) x = bats::NO_IND; size_t m = t.I(); block_select(reg[a], c, pr, m, reg[d]); return dump(reg[d]); }
    if (op == "block2") {
        auto c = t.L<size_t>(), p1 = t.L<size_t>(), p2 = t.L<size_t>(); size_t m1 = t.I(), m2 = t.I();
        for (auto& x : p1) if (x == 1000000001) x = bats::NO_IND;
        for (auto& x : p2) if (x == 1000000001) x = bats::NO_IND;
        C_ X, Y; block_select(reg[a], c, {&p1, &p2}, {m1, m2}, {&X, &Y});
        return Rec().raw("A", dump(X)).raw("B", dump(Y)).str();
    }
    size_t b = t.I();
    if (op == "mul") { std::string how = t.S(); if (how == "op") reg[d] = reg[a] * reg[b]; else { C_ X = reg[3]; gemm(reg[a], reg[b], X); reg[d] = X; } return dump(reg[d]); }
    if (op == "sum") { C_ X = reg[3]; sum(reg[a], reg[b], X); reg[d] = X; return dump(reg[d]); }
    if (op == "axpy") { F al = RdF<F>::rd(t); C_ X = reg[3]; sum(al, reg[a], reg[b], X); reg[d] = X; return dump(reg[d]); }
    if (op == "solve") { C_ X = reg[3]; trilu(reg[a], reg[b], X); reg[d] = X; return dump(reg[d]); }
    throw std::runtime_error("harness: bad op " + op);
}
int main(int argc, char** argv) { return run_main(argc, argv, init, step); }

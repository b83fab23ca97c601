// Interpreter for matrix-reduction calls.  -DFIELD=p
#include "common.hpp"
using namespace vf;
using namespace bats;
#if FIELD == 0
using F = Rational<int>;
#else
using F = ModP<int, FIELD>;
#endif
using V = SparseVector<F, size_t>;
using M = ColumnMatrix<V>;
static M AA, R, UU; static bool has_u;
#define U UU
#define A AA
static void init(Tok&) {}
static std::string out(const std::vector<size_t>& p2c) {
    Rec r; r.kv("R", R).kv("p2c", p2c);
    if (has_u) r.kv("U", U);
    return r.str();
}
static std::vector<size_t> flat(const std::unordered_map<size_t, size_t>& m) {
    std::vector<size_t> v(R.nrow(), bats::NO_IND);
    for (auto& kv : m) v.at(kv.first) = kv.second;
    return v;
}
static std::string step(const std::string& op, Tok& t) {
    std::vector<size_t> p2c;
    if (op == "input") { A = rdmat<V>(t); return J(A); }
    if (op == "reduce") {             // alg, with basis?
        std::string alg = t.S(); has_u = t.I();
        R = A; if (has_u) U = M::identity(A.ncol());
        if (alg == "default") p2c = has_u ? reduce_matrix(R, U) : reduce_matrix(R);
        else if (alg == "standard") p2c = has_u ? reduce_matrix(R, U, standard_reduction_flag()) : reduce_matrix(R, standard_reduction_flag());
        else if (alg == "extra") p2c = has_u ? reduce_matrix(R, U, extra_reduction_flag()) : reduce_matrix(R, extra_reduction_flag());
        else if (alg == "dq") p2c = has_u ? reduce_matrix(R, U, divide_conquer_flag()) : reduce_matrix(R, divide_conquer_flag());
        else if (alg == "sparsecol") {
            p2c.assign(R.nrow(), bats::NO_IND); std::map<F, size_t> co; V::tmp_type tmp;
            for (size_t j = 0; j < R.ncol(); ++j) reduce_column_sparsify(R, j, p2c, co, tmp);
        }
        else if (alg == "extracol") {
            std::unordered_map<size_t, size_t> m; V::tmp_type tmp;
            for (size_t j = 0; j < R.ncol(); ++j) reduce_column_extra(R, j, m, tmp);
            p2c = flat(m);
        }
        else throw std::runtime_error("harness: bad alg");
        return out(p2c);
    }
    if (op == "block") {              // divide and conquer with a small block size
        size_t bs = t.I(); size_t depth = t.I(); has_u = t.I();
        R = A; if (has_u) U = M::identity(A.ncol());
        std::unordered_map<size_t, size_t> m; std::vector<size_t> nz;
        if (has_u) std::tie(m, nz) = reduce_block_dq(R, U, 0, R.ncol(), bs);
        else {
            #pragma omp parallel
            {
                #pragma omp single nowait
                { std::tie(m, nz) = reduce_block_dq(R, 0, R.ncol(), bs, 0, depth); }
            }
        }
        return out(flat(m));
    }
    if (op == "partial") {            // parallel sweep, then sequential reduction
        size_t bs = t.I(); has_u = t.I();
        R = A; if (has_u) U = M::identity(A.ncol());
        if (has_u) partial_reduce_parallel(R, U, bs); else partial_reduce_parallel(R, bs);
        return out({});
    }
    if (op == "finish") {             // sequential reduction of the current pair
        p2c = has_u ? reduce_matrix(R, U) : reduce_matrix(R);
        return out(p2c);
    }
    if (op == "sparsify") { sparsify_basis(R, U); return out({}); }
    if (op == "rmcycles") { remove_extra_cycles(R, U); return out({}); }
    if (op == "clearinds") { p2c = t.L<size_t>(); for (auto& x : p2c) if (x > 1000000000) x = bats::NO_IND; return J(get_clearing_inds(p2c)); }
    if (op == "compinds") { std::vector<bool> b = get_compression_inds(R); std::vector<int> c(b.begin(), b.end()); return J(c); }
    throw std::runtime_error("harness: bad op " + op);
}
int main(int argc, char** argv) { return run_main(argc, argv, init, step); }

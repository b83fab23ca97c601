// Interpreter for barcodes of line quivers.  -DFIELD=p
#include "common.hpp"
using namespace vf;
using namespace bats;
#if FIELD == 0
using F = Rational<int>;
#else
using F = ModP<int, FIELD>;
#endif
using V = SparseVector<F, size_t>;
using MT_ = ColumnMatrix<V>;
static std::vector<Diagram<char, MT_>> ds; static Diagram<char, std::vector<MT_>> stack;
static void init(Tok&) {}
static std::string out(const std::vector<PersistencePair<size_t>>& b) {
    std::vector<std::string> o; for (auto& x : b) o.push_back(JL({J(x.get_dim()), J(x.get_birth()), J(x.get_birth_ind()), J(x.get_death()), J(x.get_death_ind())}));
    return JL(o);
}
template <class D, class... A> std::string bars(const D& d, const std::string& alg, A... a) {
    if (alg == "dq") return out(barcode(d, a..., flags::divide_conquer()));
    if (alg == "right") return out(barcode(d, a..., flags::rightward()));
    if (alg == "left") return out(barcode(d, a..., flags::leftward()));
    return out(barcode(d, a...));
}
static std::string step(const std::string& op, Tok& t) {
    if (op == "dgm") {       // K layers: dims per layer, directions, matrices per layer
        auto dims = t.LL<size_t>(); auto dir = t.L<long>(); size_t K = t.I(), m = dir.size();
        ds.clear(); stack = Diagram<char, std::vector<MT_>>(m + 1, m);
        for (size_t k = 0; k < K; ++k) {
            ds.emplace_back(m + 1, m); size_t c = t.I();
            for (size_t i = 0; i < c; ++i) ds.back().set_edge(i, dir[i] == 1 ? i : i + 1, dir[i] == 1 ? i + 1 : i, rdmat<V>(t));
        }
        for (size_t i = 0; i < m; ++i) {
            std::vector<MT_> v; for (size_t k = 0; k < K; ++k) v.push_back(ds[k].edata[i]);
            stack.set_edge(i, dir[i] == 1 ? i : i + 1, dir[i] == 1 ? i + 1 : i, v);
        }
        return "0";
    }
    if (op == "bars") { size_t k = t.I(), hd = t.I(); std::string alg = t.S(); omp_set_num_threads(t.I()); return bars(ds.at(k), alg, hd); }
    if (op == "allbars") { std::string alg = t.S(); omp_set_num_threads(t.I()); return bars(stack, alg); }
    if (op == "form") {
        size_t k = t.I(); std::string alg = t.S(); omp_set_num_threads(t.I());
        if (alg == "dq") return J(barcode_form_divide_conquer(ds.at(k)));
        if (alg == "right") return J(barcode_form_leftright(ds.at(k)));
        return J(barcode_form_rightleft(ds.at(k)));
    }
    throw std::runtime_error("harness: bad op " + op);
}
int main(int argc, char** argv) { return run_main(argc, argv, init, step); }

// Interpreter for permutation, sorted-list and prefix-tree utilities.
#include "common.hpp"
using namespace vf;
using namespace bats;
using namespace bats::util;
using Tr = SparseTrie<size_t, size_t>;
using Li = std::vector<int>; using Ls = std::vector<size_t>;
static std::map<std::string, Tr> ts;
static void init(Tok& h) { ts.clear(); }
static std::string step(const std::string& op, Tok& t) {
    if (op == "sortp") {
        Li x = t.L<int>(); size_t k = t.I(), n = x.size(); std::vector<double> d(n); for (size_t i = 0; i < n; ++i) d[i] = x[i] / 4.0;
        std::set<int> S = to_set(x); Li into, into2(3, 7); sort_into(x, into); sort_into(x, into2); Ls fi(5, 9); fill_sortperm(x, fi);
        double p = n ? double(k) / n : 0;
        return Rec().kv("sp", sortperm(x)).kv("it", sortperm(x.begin(), x.end())).kv("fi", fi).kv("dbl", sortperm(d))
            .kv("gt", sortperm(x.begin(), x.end(), [](int a, int b) { return a > b; }))
            .kv("ix", n ? sortperm(size_t(3), 3 + n, [&](size_t a, size_t b) { return x[a - 3] > x[b - 3]; }) : Ls())
            .kv("st", stable_sortperm(x)).kv("si", sort_indexes(d)).kv("rk", find_perm_from_vector(x))
            .kv("fk", firstk(x.begin(), x.end(), k)).kv("tk", top_k(d, k)).kv("tp", top_p(x, p)).kv("pk", top_p(x, p).size())
            .kv("inv", perm_inversions(x)).kv("sign", perm_sign(d)).kv("into", into).kv("into2", into2)
            .kv("kt", Kendall_tau(x)).kv("ktd", Kendall_tau(d)).kv("set", S).str();
    }
    if (op == "perm") {
        Ls p = t.L(), q = t.L(); Li x = t.L<int>(); size_t n = p.size(); std::vector<Li> xs; for (auto v : x) xs.push_back({v, v}); auto un = [](const std::vector<Li>& y) { Li r; for (auto& v : y) { if (v.size() != 2 || v[0] != v[1]) { r.push_back(-999); } else { r.push_back(v[0]); } } return r; };
        Li ap = x; apply_perm(ap, p); Li apt = x; std::vector<int> tmp(2); apply_perm(apt.begin(), tmp, p);
        auto apw = xs; apply_perm(apw, p); auto sc = xs; apply_perm_swap(sc, p); auto ga = xs; apply_iperm_swap(ga, p); auto ba = ga; apply_perm_swap(ba, p);
        Ls id = identity_perm(n); Ls s = p;
        return Rec().kv("ap", ap).kv("apt", apt).kv("apw", un(apw)).kv("scat", un(sc)).kv("gath", un(ga)).kv("back", un(ba)).kv("inv", inv_perm(p)).kv("sign", perm_sign(p)).kv("kt", Kendall_tau(p)).kv("kt2", Kendall_tau(p, q))
            .kv("ktl", Kendall_tau(std::vector<Ls>{p, q, id})).kv("id", id).kv("simp", simplex_sign(s)).str();
    }
    if (op == "ind") {
        Ls ind = t.L(), p = t.L(), y = t.L(); size_t n = p.size(); Ls so = ind, ps, p1 = ind, p2 = y, srt = ind; sort_ind_by_perm(so, p); fill_partial_sortperm(ind, p, ps); sort_ind_pair_by_perm(p1, p2, p); std::sort(srt.begin(), srt.end());
        std::vector<Ls> ends; for (size_t i = 0; i < n; ++i) ends.push_back(perm_to_the_end(i, n));
        return Rec().kv("pp", partial_perm(ind, n)).kv("so", so).kv("ps", ps).kv("p1", p1).kv("p2", p2).kv("end", perm_to_the_end(srt, n)).kv("cmp", sorted_complement(srt, n)).kv("ends", ends).str();
    }
    if (op == "ext") { Ls p = t.L(); size_t n = t.I(); return J(extension_perm(p, n)); }
    if (op == "isect") {
        Ls a = t.L(), b = t.L(); size_t m = t.I(); std::set<size_t> A = to_set(a), B = to_set(b), s{3, 99}; Ls v{7}, vs, lt{5}; intersect_sorted(a, b, v); intersect_sorted(A, b, vs); intersect_sorted(a, B, s); intersect_sorted_lt(a, B, m, lt);
        return Rec().kv("v", v).kv("vs", vs).kv("s", s).kv("has", has_intersect_sorted(a, b)).kv("lt", lt).kv("hlt", has_intersect_sorted_lt(A, b, m)).kv("un", set_union(a, B)).kv("in", set_intersection(A, b)).str();
    }
    if (op == "lt") {
        Ls x = t.L(); size_t v = t.I(); std::vector<int> val; for (size_t i = 0; i < x.size(); ++i) val.push_back(i + 1); SparseVector<int, size_t> w(x, val); auto it = w.find_last_nz(v);
        Ls nz; if (!(it == w.nzend())) { nz.push_back(it->ind); nz.push_back(it->val); }
        return Rec().kv("i", find_sorted_lt(x.cbegin(), x.cend(), v)).kv("nz", nz).str();
    }
    if (op == "ssr") { Ls i = t.L(); Li v = t.L<int>(); size_t off = t.I(); Ls perm, ti; Li tv; sort_sum_reduce(i, v, off, perm, ti, tv); return Rec().kv("i", i).kv("v", v).str(); }
    if (op == "simp") { Li s = t.L<int>(); int g = simplex_sign(s); return Rec().kv("sign", g).kv("s", s).kv("deg", is_degenerate(s)).str(); }
    if (op == "rnd") { size_t n = t.I(), k = t.I(); return Rec().kv("p", rand_perm(n)).kv("s", k ? random_subset(n, k) : std::set<size_t>()).str(); }
    std::string s = t.S();
    if (op == "tnew") { ts.erase(s); ts.emplace(s, Tr(size_t(t.I()))); return "0"; }
    if (op == "tins") { Ls k = t.L(); size_t v = t.I(); if (v % 2) ts.at(s).emplace(k, v); else ts.at(s).insert(k.begin(), k.end(), v); return "0"; }
    if (op == "tset") { Ls k = t.L(); size_t v = t.I(); ts.at(s)[k] = v; return "0"; }
    if (op == "tcopy") { std::string u = t.S(); if (t.I() && s != u) { ts.erase(s); ts.emplace(s, ts.at(u)); } else { Tr& a = ts.at(u); ts[s] = a; } return "0"; }
    if (op == "tmove") { std::string u = t.S(); if (t.I()) { Tr x(std::move(ts.at(u))); ts.erase(s); ts.emplace(s, std::move(x)); } else ts[s] = std::move(ts.at(u)); ts[u] = Tr(); return "0"; }
    if (op == "tget") {
        Ls k = t.L(); size_t d = t.I(); Tr& x = ts.at(s); const Tr& c = x; size_t n = x.count(k); Ls e; if (n) { e.push_back(x.get(k.begin(), k.end())); e.push_back(x[k]); }
        return Rec().kv("g", x.get(k.begin(), k.end(), d)).kv("gv", x.get(k, d)).kv("c", c.get(k.begin(), k.end(), d)).kv("cv", c.get(k, d)).kv("n", n).kv("x", e).str();
    }
    throw std::runtime_error("harness: unknown op " + op);
}
int main(int c, char** v) { return run_main(c, v, init, step); }

// Interpreter for metric constructions: flag/Rips, nerve/Dowker/witness, covers, landmarks, neighbourhoods.
#include "common.hpp"
#include <filtration/rips.hpp>
using namespace vf;
using namespace bats;
using SC = SimplicialComplex; using LC = LightSimplicialComplex<>;
using DS = DataSet<double>; using MX = Matrix<double>;
static void init(Tok&) {}
template <class X> std::string cells(const X& x) {
    std::vector<std::vector<std::vector<size_t>>> c(x.maxdim() + 1);
    for (size_t k = 0; k <= x.maxdim(); ++k) for (size_t i = 0; i < x.ncells(k); ++i) { auto s = x.get_simplex(k, i); c[k].emplace_back(s.begin(), s.end()); }
    return J(c);
}
static bool euc = false;
// values of the Euclidean metric are reported squared; anything that is not the root of a multiple of 1/16 is a sentinel
static double val(double v) {
    if (!euc || std::abs(v) >= 1e8 || std::isnan(v)) return v;
    double q = std::round(v * v * 16); if (std::abs(q - v * v * 16) > 1e-6 || v < 0) return std::nan("");
    return q / 4;
}
static std::vector<double> vals(std::vector<double> v) { for (auto& x : v) x = val(x); return v; }
static std::vector<std::vector<double>> vals(std::vector<std::vector<double>> v) { for (auto& x : v) x = vals(x); return v; }
static double rad(Tok& t) { long r = t.I(); return euc ? std::sqrt(r / 64.) : r / 8.; }
static MX rdmx(Tok& t) { size_t m = t.I(), n = t.I(); MX M(m, n); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) M(i, j) = t.I() / 4.; return M; }
static std::string mx(const MX& M, bool v = true) { std::vector<std::vector<double>> r(M.nrow()); for (size_t i = 0; i < M.nrow(); ++i) for (size_t j = 0; j < M.ncol(); ++j) r[i].push_back(v ? val(M(i, j)) : M(i, j)); return J(r); }
static std::string filt(const Filtration<double, SC>& F) { return Rec().raw("cells", cells(F.complex())).kv("vals", vals(F.vals())).str(); }
static std::string filt(const Filtration<double, LC>& F) { return Rec().raw("cells", cells(F.complex())).kv("vals", vals(F.vals())).str(); }
static Cover rdcov(Tok& t) { Cover c; for (auto& s : t.LL<size_t>()) c.emplace_back(s.begin(), s.end()); return c; }
template <class FN> std::string metric(const std::string& m, FN f) {
    euc = m == "euc";
    if (m == "euc") return f(Euclidean());
    if (m == "l1") return f(L1Dist());
    if (m == "linf") return f(LInfDist());
    throw std::runtime_error("harness: bad metric");
}
template <class E> std::string fedges(const std::vector<E>& es) { std::vector<std::string> o; for (auto& e : es) o.push_back(JL({J(e.s), J(e.t), J(val(e.r))})); return JL(o); }
template <class X> std::string flagk(const std::string& op, Tok& t) {
    if (op == "flag") { size_t n = t.I(), d = t.I(); auto e = t.L<size_t>(); return cells(FlagComplex<X>(e, n, d)); }
    if (op == "flagf" || op == "flagx") {
        euc = false; size_t n = t.I(), d = t.I(); double t0 = t.I() / 4.; std::vector<filtered_edge<double>> es;
        size_t m = t.I(); for (size_t i = 0; i < m; ++i) { size_t a = t.I(), b = t.I(); es.emplace_back(a, b, t.I() / 4.); }
        if (op == "flagf") { auto F = FlagFiltration<X>(es, n, d, t0); return Rec().raw("f", filt(F)).str(); }
        auto [F, inds] = FlagFiltration_extension<X>(es, n, d, t0);
        return Rec().raw("f", filt(F)).kv("inds", inds).raw("edges", fedges(es)).str();
    }
    if (op == "rips" || op == "ripsf" || op == "ripsx") {
        DS P(rdmx(t)); std::string m = t.S(); std::string how = t.S(); bool pd = how == "pdist";
        return metric(m, [&](auto dist) {
            double r = rad(t); size_t d = t.I();
            MX Q = dist(P);
            if (op == "rips") return cells(pd ? RipsComplex<X>(Q, r, d) : RipsComplex<X>(P, dist, r, d));
            if (op == "ripsf") return Rec().raw("f", filt(pd ? RipsFiltration<X>(Q, r, d) : RipsFiltration<X>(P, dist, r, d))).str();
            auto [F, inds] = pd ? RipsFiltration_extension<X>(Q, r, d) : RipsFiltration_extension<X>(P, dist, r, d);
            return Rec().raw("f", filt(F)).kv("inds", inds).raw("edges", fedges(pd ? rips_filtration_edges(Q, r) : rips_filtration_edges(P, dist, r))).str();
        });
    }
    if (op == "ripscov") {
        DS P(rdmx(t)); std::string m = t.S(); Cover c = rdcov(t); bool strict = t.I();
        return metric(m, [&](auto dist) { double r = rad(t); size_t d = t.I();
            if (strict) return filt(StrictRipsCoverFiltration<double, X>(P, c, dist, r, d));
            return filt(RipsFiltration(P, c, dist, r, d)); });
    }
    throw std::runtime_error("harness: bad op " + op);
}
static std::string dgm(const Diagram<std::set<size_t>, std::vector<size_t>>& g) {
    std::vector<std::string> n, e;
    for (size_t i = 0; i < g.nnode(); ++i) n.push_back(J(g.node_data(i)));
    for (size_t i = 0; i < g.nedge(); ++i) e.push_back(JL({J(g.edge_source(i)), J(g.edge_target(i)), J(g.edge_data(i))}));
    return Rec().raw("nodes", JL(n)).raw("edges", JL(e)).str();
}
static std::string dset(const DS& x) { return mx(x.data, false); }
static std::string micro(double v) { if (std::isnan(v)) return "1000000007"; return std::to_string((long) std::llround(v * 1e6)); }
static std::string step(const std::string& op, Tok& t) {
    if (op == "flag" || op == "flagf" || op == "flagx" || op == "rips" || op == "ripsf" || op == "ripsx" || op == "ripscov") {
        std::string kind = t.S(); return kind == "simp" ? flagk<SC>(op, t) : flagk<LC>(op, t);
    }
    euc = false;
    if (op == "complete") {
        size_t n = t.I(), d = t.I(); double t0 = t.I() / 4.; auto e = t.L<size_t>(); auto v = t.LD(4);
        auto [X, F] = CompleteFlagFiltration(e, v, n, d, t0); return Rec().raw("X", cells(X)).raw("f", filt(F)).str();
    }
    if (op == "rips1") { auto x = t.LD(4); std::vector<size_t> e; std::vector<double> v; rips_edges(x, e, v); return Rec().kv("e", e).kv("t", v).str(); }
    if (op == "allpairs") return J(all_pairs(t.I()));
    if (op == "sortedges") { auto e = t.L<size_t>(); auto v = t.LD(4); sort_edges(e, v); return Rec().kv("e", e).kv("t", v).str(); }
    if (op == "pairdist") { size_t d = t.I(); auto x = t.LD(4); auto e = t.L<size_t>(); euc = true; return J(vals(pairwise_dist(x, e, d))); }
    // ---- nerves, Dowker, witnesses
    if (op == "nerve") { Cover c = rdcov(t); return cells(Nerve(c, t.I())); }
    if (op == "dowedge") { MX P = rdmx(t); size_t i = t.I(), j = t.I(); return J(dowker_edge_param(P, i, j)); }
    if (op == "dowker") { MX P = rdmx(t); MX R = dowker_edge_param(P); for (size_t i = 0; i < R.nrow(); ++i) R(i, i) = 0; return mx(R); }
    if (op == "dowf") { MX P = rdmx(t); double r = rad(t); size_t d = t.I(); return filt(DowkerFiltration(P, r, d)); }
    if (op == "dowfd") { DS L(rdmx(t)), X(rdmx(t)); std::string m = t.S(); return metric(m, [&](auto dist) { double r = rad(t); size_t d = t.I(); return filt(DowkerFiltration(L, X, dist, r, d)); }); }
    if (op == "dowc") { MX P = rdmx(t); Cover c = rdcov(t); double r = rad(t); size_t d = t.I(); return filt(DowkerFiltration(P, c, r, d)); }
    if (op == "dowcd") { DS L(rdmx(t)), X(rdmx(t)); std::string m = t.S(); Cover c = rdcov(t); return metric(m, [&](auto dist) { double r = rad(t); size_t d = t.I(); return filt(DowkerFiltration(L, X, dist, c, r, d)); }); }
    if (op == "getm") { MX P = rdmx(t); return J(get_m(P, size_t(t.I()))); }
    if (op == "wit") { DS L(rdmx(t)), X(rdmx(t)); std::string m = t.S(); return metric(m, [&](auto dist) { return cells(WitnessComplex(X, L, dist, size_t(t.I()))); }); }
    if (op == "witp") { DS L(rdmx(t)), X(rdmx(t)); std::string m = t.S(); return metric(m, [&](auto dist) { MX R = witness_edge_param(X, L, dist, size_t(t.I())); for (size_t i = 0; i < R.nrow(); ++i) R(i, i) = 0; return mx(R); }); }
    if (op == "witlazy") { DS L(rdmx(t)), X(rdmx(t)); std::string m = t.S(); return metric(m, [&](auto dist) { size_t nu = t.I(); double r = rad(t); size_t d = t.I(); return cells(WitnessComplex(X, L, dist, nu, r, d)); }); }
    if (op == "witn") { DS L(rdmx(t)), X(rdmx(t)); std::string m = t.S(); return metric(m, [&](auto dist) { size_t nu = t.I(); double r = rad(t); return J(witness_neighborhoods(X, L, dist, nu, r)); }); }
    if (op == "witstrict") { DS L(rdmx(t)), X(rdmx(t)); std::string m = t.S(); return metric(m, [&](auto dist) { size_t nu = t.I(); double r = rad(t); size_t d = t.I(); return cells(StrictWitnessComplex(X, L, dist, nu, r, d)); }); }
    if (op == "witf") { DS L(rdmx(t)), X(rdmx(t)); std::string m = t.S(); return metric(m, [&](auto dist) { double r = rad(t); size_t d = t.I(); return filt(WitnessFiltration(L, X, dist, r, d)); }); }
    if (op == "wite") { DS L(rdmx(t)), X(rdmx(t)); std::string m = t.S(); return metric(m, [&](auto dist) { double r = rad(t); return J(witness_edges(X, L, dist, r)); }); }
    if (op == "incl") { auto a = t.L<size_t>(), b = t.L<size_t>(); std::set<size_t> s(a.begin(), a.end()), u(b.begin(), b.end()); return J(vertex_inclusion_map(s, u)); }
    if (op == "subsets") { Cover c = rdcov(t); return dgm(linear_subset_union_diagram(c)); }
    if (op == "covers") { Cover c = rdcov(t); return dgm(linear_cover_intersection_diagram(c)); }
    if (op == "bivar") { Cover a = rdcov(t), b = rdcov(t); auto [c, f, g] = bivariate_cover(a, b); return Rec().kv("c", c).kv("f1", f).kv("f2", g).str(); }
    // ---- metrics, landmarks, covers, neighbourhoods
    if (op == "dist") { DS P(rdmx(t)), Q(rdmx(t)); std::string m = t.S(); return metric(m, [&](auto dist) {
        std::vector<std::vector<double>> a(P.size()), b(P.size()), c(P.size());
        for (size_t i = 0; i < P.size(); ++i) for (size_t j = 0; j < Q.size(); ++j) { a[i].push_back(val(dist.dist(P[i], Q[j]))); b[i].push_back(val(dist(P[i], Q[j]))); }
        for (size_t i = 0; i < P.size(); ++i) c[i] = vals(dist(P[i], Q));
        return Rec().kv("a", a).kv("b", b).kv("c", c).raw("d", mx(dist(P, Q))).raw("s", mx(dist(P))).str(); }); }
    if (op == "angdist") {      // in millionths; angles through their cosine, together with the sign check 0 <= angle <= pi
        DS P(rdmx(t)); std::string m = t.S();
        auto go = [&](auto dist, bool ang) { std::vector<std::string> r;
            for (size_t i = 0; i < P.size(); ++i) { std::vector<std::string> q; for (size_t j = 0; j < P.size(); ++j) { double v = dist(P[i], P[j]); if (dist.dist(P[i], P[j]) != v && !std::isnan(v)) v = std::nan(""); if (ang) v = (v >= 0 && v <= 3.1415926536) ? std::cos(v) : std::nan(""); q.push_back(micro(v)); } r.push_back(JL(q)); }
            return JL(r); };
        if (m == "cos") return go(CosineDist(), false);
        if (m == "rpcos") return go(RPCosineDist(), false);
        if (m == "angle") return go(AngleDist(), true);
        return go(RPAngleDist(), true);
    }
    if (op == "enclosing") { MX P = rdmx(t); return J(enclosing_radius(P)); }
    if (op == "greedy") { DS P(rdmx(t)); std::string m = t.S(); size_t k = t.I(), i0 = t.I(); return metric(m, [&](auto dist) { return dset(greedy_landmarks(P, k, dist, i0)); }); }
    if (op == "hausland") { DS P(rdmx(t)); std::string m = t.S(); return metric(m, [&](auto dist) { double r = rad(t); size_t i0 = t.I(); return dset(hausdorff_landmarks(P, r, dist, i0)); }); }
    if (op == "ghaus") {
        DS P(rdmx(t)); std::string m = t.S(); std::string how = t.S(); size_t i0 = t.I(), k = t.I();
        return metric(m, [&](auto dist) {
            std::tuple<std::vector<size_t>, std::vector<double>> r;
            if (how == "all") r = greedy_landmarks_hausdorff(P, dist, i0); else if (how == "k") r = greedy_landmarks_hausdorff(P, dist, i0, k); else r = greedy_landmarks_hausdorff(dist(P), i0);
            return Rec().kv("inds", std::get<0>(r)).kv("h", vals(std::get<1>(r))).str(); });
    }
    if (op == "randland") { DS P(rdmx(t)); return dset(random_landmarks(P, size_t(t.I()))); }
    if (op == "center") { DS P(rdmx(t)); std::string m = t.S(); size_t k = t.I(), i0 = t.I(); return metric(m, [&](auto dist) { return J(approx_center(P, dist, k, i0)); }); }
    if (op == "lcover") { DS X(rdmx(t)), L(rdmx(t)); std::string m = t.S(); size_t k = t.I(); omp_set_num_threads(t.I()); return metric(m, [&](auto dist) { return J(landmark_cover(X, L, dist, k)); }); }
    if (op == "ecover") { DS X(rdmx(t)), L(rdmx(t)); std::string m = t.S(); long e = t.I(); return metric(m, [&](auto dist) { return J(landmark_eps_cover(X, L, dist, e / 8.)); }); }
    if (op == "icover") { auto x = t.LD(4); return J(uniform_interval_cover(x, size_t(t.I()))); }
    if (op == "proj") { DS X(rdmx(t)); return J(coordinate_projection(X, size_t(t.I()))); }
    if (op == "subset") { DS X(rdmx(t)); auto v = t.L<size_t>(); std::set<size_t> s(v.begin(), v.end()); return Rec().raw("a", dset(get_subset(X, s))).raw("b", dset(X[v])).str(); }
    if (op == "nbr") { DS X(rdmx(t)), Y(rdmx(t)); std::string m = t.S(); return metric(m, [&](auto dist) { double r = rad(t); omp_set_num_threads(t.I()); std::vector<std::vector<size_t>> one; for (size_t i = 0; i < X.size(); ++i) one.push_back(neighborhood(X[i], Y, dist, r)); return Rec().kv("one", one).kv("all", neighborhoods(X, Y, dist, r)).str(); }); }
    if (op == "knbr") { DS X(rdmx(t)), Y(rdmx(t)); std::string m = t.S(); size_t k = t.I(); omp_set_num_threads(t.I()); return metric(m, [&](auto dist) { std::vector<std::vector<size_t>> one; for (size_t i = 0; i < X.size(); ++i) one.push_back(neighborhood(X[i], Y, dist, k)); return Rec().kv("one", one).kv("all", neighborhoods(X, Y, dist, k)).str(); }); }
    if (op == "pnbr") { MX P = rdmx(t); double e = t.I() / 4.; return J(neighborhoods(P, e)); }
    if (op == "kdist") { DS X(rdmx(t)); std::string m = t.S(); size_t k = t.I(); return metric(m, [&](auto dist) { return J(vals(kdist(X, dist, k))); }); }
    if (op == "zoo") {
        DS X(rdmx(t)); std::string m = t.S(); std::string which = t.S(); double rho = t.I() / 4., eta = t.I() / 4.; size_t dmax = t.I();
        return metric(m, [&](auto dist) {
            auto [S, r] = which != "osc" ? DiscreteMorozovZigzagSets(X, dist, rho) : OscillatingRipsZigzagSets(X, dist, rho, eta);
            std::vector<std::string> xs;
            if (which == "refuse") { try { OscillatingRipsZigzagSets(X, dist, rho, eta); return J(std::string("accepted")); } catch (std::runtime_error&) { return J(std::string("refused")); } }
            auto R = Rips(S, X, dist, r, dmax); for (size_t i = 0; i < R.nnode(); ++i) xs.push_back(cells(R.node_data(i)));
            std::vector<long> milli; for (double v : r) milli.push_back(std::llround((euc ? v * v : v) * 16));
            if (which == "dm") {                                     // the whole construction in one call
                auto [R2, r2] = DiscreteMorozovZigzag(X, dist, rho, dmax); std::vector<std::string> ys; std::vector<std::vector<size_t>> es;
                for (size_t i = 0; i < R2.nnode(); ++i) ys.push_back(cells(R2.node_data(i)));
                for (size_t i = 0; i < R2.nedge(); ++i) es.push_back({R2.edge_source(i), R2.edge_target(i)});
                return Rec().raw("sets", dgm(S)).kv("r16", milli).raw("rips", JL(xs)).raw("whole", JL(ys)).kv("ends", es).kv("samer", r == r2).str();
            }
            return Rec().raw("sets", dgm(S)).kv("r16", milli).raw("rips", JL(xs)).str(); });
    }
    if (op == "gen") {                                               // coordinates in thousandths
        std::string what = t.S();
        auto milli = [](const DS& d) { std::vector<std::vector<long>> o(d.size()); for (size_t i = 0; i < d.size(); ++i) for (size_t j = 0; j < d.dim(); ++j) o[i].push_back(std::lround(d(i, j) * 1000)); return o; };
        if (what == "prod") { DS X(rdmx(t)), Y(rdmx(t)); return J(milli(product_space(X, Y))); }
        if (what == "interval") { double a = t.I(), b = t.I(); return J(milli(interval(a, b, (size_t)t.I()))); }
        if (what == "circle") { double a = t.I(); return J(milli(circle(a, (size_t)t.I()))); }
        if (what == "cylinder") { size_t a = t.I(), b = t.I(); return J(milli(gen_cylinder(a, b, (double)t.I()))); }
        size_t d = t.I(), n = t.I(); unsigned s = t.I(); bool sphere = what == "sphere";
        DS A1 = sphere ? sample_sphere<double>(d, n, s) : sample_cube<double>(d, n, s), A2 = sphere ? sample_sphere<double>(d, n, s) : sample_cube<double>(d, n, s), A3 = sphere ? sample_sphere<double>(d, n) : sample_cube<double>(d, n);
        auto m1 = milli(A1); return Rec().kv("a", m1).kv("same", m1 == milli(A2)).kv("b", milli(A3)).str();
    }
    throw std::runtime_error("harness: bad op " + op);
}
int main(int argc, char** argv) { return run_main(argc, argv, init, step); }

// Shared interpreter for scenario files.
//
// Input  : lines "S <id> <header tokens...>", then one line per call "<op> <args...>", then "E".
// Output : "S <id>", then one JSON value per executed call (prefixed "R "), then "E" when every call
//          returned; "T <what>" for an escaped exception.  Each scenario runs in its own forked child
//          (crash / hang containment); a child that dies leaves "X <signal>" behind.
#pragma once
#include <bats.hpp>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <cstdio>
#include <cmath>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <sstream>
#include <vector>
#include <iostream>
#include <fstream>
#include <limits>

namespace vf {

struct Tok {
    std::vector<std::string> t;
    size_t i = 0;
    const std::string& S() { if (i >= t.size()) { throw std::runtime_error("harness: missing token"); } return t[i++]; }
    long I() { return std::stol(S()); }
    bool more() const { return i < t.size(); }
    template <class T = size_t> std::vector<T> L() {
        size_t n = I(); std::vector<T> v; v.reserve(n);
        for (size_t k = 0; k < n; ++k) v.push_back(T(I()));
        return v;
    }
    template <class T = size_t> std::vector<std::vector<T>> LL() {
        size_t n = I(); std::vector<std::vector<T>> v;
        for (size_t k = 0; k < n; ++k) v.push_back(L<T>());
        return v;
    }
    std::vector<double> LD(double scale = 1) {
        size_t n = I(); std::vector<double> v;
        for (size_t k = 0; k < n; ++k) v.push_back(double(I()) / scale);
        return v;
    }
};

// ---- JSON output -------------------------------------------------------------------------------
inline void js(std::ostream& o, bool x) { o << (x ? "true" : "false"); }
inline void js(std::ostream& o, int x) { o << x; }
inline void js(std::ostream& o, long x) { o << x; }
inline void js(std::ostream& o, size_t x) { if (x > 1000000000ul) o << 1000000001; else o << x; }
inline void js(std::ostream& o, unsigned x) { js(o, (size_t) x); }
inline void js(std::ostream& o, const std::string& s) { o << '"' << s << '"'; }
inline void js(std::ostream& o, const char* s) { o << '"' << s << '"'; }
// reals are reported exactly in quarter units; anything else becomes an impossible sentinel
inline void js(std::ostream& o, double x) {
    if (std::isnan(x)) { o << 1000000007; return; }
    if (x >= 1e8) { o << 1000000000; return; }      // +infinity
    if (x <= -1e8) { o << -1000000000; return; }    // -infinity
    double y = x * 4;
    if (y != std::floor(y)) { o << 1000000009; return; }
    o << (long) y;
}
inline void js(std::ostream& o, float x) { js(o, (double) x); }
template <class I, unsigned P> void js(std::ostream& o, const ModP<I, P>& x) { o << x; }
template <class I> void js(std::ostream& o, const Rational<I>& x) {
    std::ostringstream s; s << x; std::string t = s.str(); auto k = t.find('/');
    o << '[' << t.substr(0, k) << ',' << t.substr(k + 1) << ']';
}
template <class A, class B> void js(std::ostream& o, const std::pair<A, B>& x);
template <class TV, class TI> void js(std::ostream& o, const SparseVector<TV, TI>& v);
template <class TC> void js(std::ostream& o, const ColumnMatrix<TC>& M);
template <class T> void js(std::ostream& o, const std::set<T>& v);
template <class T> void js(std::ostream& o, const std::vector<T>& v) {
    o << '['; bool f = true;
    for (const auto& x : v) { if (!f) o << ','; f = false; T y = x; js(o, y); }
    o << ']';
}
template <class T> void js(std::ostream& o, const std::set<T>& v) {
    o << '['; bool f = true;
    for (const auto& x : v) { if (!f) o << ','; f = false; js(o, x); }
    o << ']';
}
template <class A, class B> void js(std::ostream& o, const std::pair<A, B>& x) { o << '['; js(o, x.first); o << ','; js(o, x.second); o << ']'; }
template <class A, class B> void js(std::ostream& o, const std::tuple<A, B>& x) { o << '['; js(o, std::get<0>(x)); o << ','; js(o, std::get<1>(x)); o << ']'; }
template <class TV, class TI> void js(std::ostream& o, const SparseVector<TV, TI>& v) {
    o << '['; bool f = true;
    for (auto it = v.nzbegin(); it != v.nzend(); ++it) {
        if (!f) o << ','; f = false;
        o << '['; js(o, (size_t) it->ind); o << ','; js(o, it->val); o << ']';
    }
    o << ']';
}
// a matrix: [m, n, [columns]] - the column list is what the object really stores, not ncol()
template <class TC> void js(std::ostream& o, const ColumnMatrix<TC>& M) {
    o << '['; js(o, (size_t) M.nrow()); o << ','; js(o, (size_t) M.ncol()); o << ",[";
    bool f = true;
    for (const auto& c : M.cols()) { if (!f) o << ','; f = false; js(o, c); }
    o << "]]";
}

// list-of-anything builder
struct Rec {
    std::ostringstream o; bool first = true;
    template <class T> Rec& kv(const char* k, const T& v) {
        o << (first ? "{" : ",") << '"' << k << "\":"; first = false; js(o, v); return *this;
    }
    Rec& raw(const char* k, const std::string& v) { o << (first ? "{" : ",") << '"' << k << "\":" << v; first = false; return *this; }
    std::string str() const { return first ? std::string("{\"nil\":0}") : o.str() + "}"; }
};
template <class T> std::string J(const T& x) { std::ostringstream o; js(o, x); return o.str(); }
inline std::string JL(const std::vector<std::string>& parts) {
    std::string s = "["; for (size_t i = 0; i < parts.size(); ++i) { if (i) s += ','; s += parts[i]; } return s + "]";
}

// ---- field elements and sparse objects from tokens ------------------------------------------------
template <class F> struct RdF { static F rd(Tok& t) { return F(int(t.I())); } };
template <class I> struct RdF<Rational<I>> { static Rational<I> rd(Tok& t) { I n = t.I(); I d = t.I(); return Rational<I>(n, d); } };
template <class V> V rdvec(Tok& t) {      // k (i v)*
    using F = typename V::val_type;
    size_t k = t.I(); std::vector<size_t> ind; std::vector<F> val;
    for (size_t i = 0; i < k; ++i) { ind.push_back(t.I()); val.push_back(RdF<F>::rd(t)); }
    return V(ind, val);
}
template <class V> ColumnMatrix<V> rdmat(Tok& t) {   // m n then n columns
    size_t m = t.I(), n = t.I(); std::vector<V> c;
    for (size_t j = 0; j < n; ++j) c.push_back(rdvec<V>(t));
    return ColumnMatrix<V>(m, n, c);
}

// ---- scenario loop ----------------------------------------------------------------------------------
struct Scenario { std::string id; std::vector<std::string> hdr; std::vector<std::vector<std::string>> ops; };

// runs one call, returns its JSON result
using StepFn = std::string (*)(const std::string& op, Tok& t);
using InitFn = void (*)(Tok& hdr);

inline void put(int fd, const std::string& s) {
    size_t k = 0; while (k < s.size()) { ssize_t w = ::write(fd, s.data() + k, s.size() - k); if (w <= 0) _exit(98); k += w; }
}

inline int run_main(int argc, char** argv, InitFn init, StepFn step) {
    if (argc < 3) { std::cerr << "usage: driver scenarios out [seconds]\n"; return 2; }
    unsigned limit = argc > 3 ? std::stoul(argv[3]) : 20;
    std::ifstream in(argv[1]);
    int fd = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (fd < 0) { perror("open"); return 2; }
    // library chatter on stdout/stderr is not an observation
    int dn = ::open("/dev/null", O_WRONLY); ::dup2(dn, 1); if (!getenv("VF_DEBUG")) ::dup2(dn, 2);
    std::string line; Scenario sc; bool have = false; int hangs = 0;
    while (std::getline(in, line)) {
        std::istringstream is(line); std::vector<std::string> t; std::string w;
        while (is >> w) t.push_back(w);
        if (t.empty()) continue;
        if (t[0] == "S") { sc = Scenario(); sc.id = t[1]; sc.hdr.assign(t.begin() + 2, t.end()); have = true; continue; }
        if (t[0] != "E") { sc.ops.push_back(t); continue; }
        if (!have) continue;
        have = false;
        put(fd, "S " + sc.id + "\n");
        if (hangs >= 2) { put(fd, "X not-run-after-hangs\n"); continue; }      // the hangs before are already rejected
        pid_t pid = ::fork();
        if (pid < 0) { perror("fork"); return 2; }
        if (pid == 0) {
            ::alarm(limit);
            struct rlimit rl; rl.rlim_cur = rl.rlim_max = 3ul << 30; if (!getenv("VF_DEBUG")) ::setrlimit(RLIMIT_AS, &rl);
            rl.rlim_cur = rl.rlim_max = 0; ::setrlimit(RLIMIT_CORE, &rl);
            try {
                Tok h; h.t = sc.hdr; init(h);
                for (auto& o : sc.ops) {
                    Tok a; a.t.assign(o.begin() + 1, o.end());
                    std::string r = step(o[0], a);
                    put(fd, "R " + r + "\n");
                }
                put(fd, "E\n");
                ::_exit(0);
            } catch (const std::exception& e) {
                std::string s = e.what(); for (auto& c : s) if (c == '\n' || c == '"' || c == '\\') c = ' ';
                put(fd, "T " + s + "\n"); ::_exit(0);
            } catch (...) { put(fd, "T unknown\n"); ::_exit(0); }
        }
        int st = 0;
        while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { ++hangs; limit = std::min(limit, 8u); }
        if (WIFSIGNALED(st)) put(fd, "X " + std::to_string(WTERMSIG(st)) + "\n");
        else if (WEXITSTATUS(st) != 0) put(fd, "X exit" + std::to_string(WEXITSTATUS(st)) + "\n");
    }
    return 0;
}
} // namespace vf

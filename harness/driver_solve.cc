// Conformance driver for the solver machine (spec/Solve.tla): TriDiag, the Cholesky factorizations, ILU(0), GMRES, cgs.
//
// Registers: t0,t1 DynTriDiagMat; u0,u1 SizedTriDiagMat<N>; z0..z3 solvers; right-hand sides and results:
// d0..d2 DynVec; v0,v1 SizedVec<N>; m0..m2 DynMat; s0,s1 SizedMat<N,3>.
// Matrices are integers times 2^EA, right-hand sides integers times 2^EB; results are logged in units of 2^-S (factors
// 2^-SF) of their natural scale, with LB more bits in a second number when LB > 0. A certificate in a call is copied to the log for the specification to judge.
#include "common.hpp"
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "lalib/ops/sp_mat_ops.hpp"
#include "lalib/ops/orthogonal.hpp"
#include "lalib/solver/tri_diag.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
#include "lalib/solver/ilu.hpp"
#include "lalib/solver/gmres.hpp"
#include <array>
#include <deque>
#include <memory>
#include <thread>
using namespace lalib;
using T = ELEM;

struct Config { int EA, EB, S, SF, LB; };

// ---------------------------------------------------------------- solvers behind one face
struct Solver {
    std::string kind; size_t n = 0; int ea = 0;
    virtual ~Solver() = default;
    virtual std::unique_ptr<Solver> copy() const = 0;
    virtual std::unique_ptr<Solver> move() = 0;
    virtual std::string factor(int sf) const { return "[]"; }
    virtual size_t bits() const { return 0; }
};
template<class F> struct Hold : Solver {
    F f;
    Hold(F&& x): f(std::move(x)) {}
    Hold(const F& x): f(x) {}
    std::unique_ptr<Solver> copy() const override { auto r = std::make_unique<Hold>(f); r->kind = kind; r->n = n; r->ea = ea; return r; }
    std::unique_ptr<Solver> move() override { auto r = std::make_unique<Hold>(std::move(f)); r->kind = kind; r->n = n; r->ea = ea; return r; }
    const auto& mat() const { if constexpr (requires { f.factor_mat(); }) return f.factor_mat(); else if constexpr (requires { f.lower_mat(); }) return f.lower_mat(); else return f.mat(); }
    static constexpr bool shows = requires(const F& x) { x.factor_mat(); } || requires(const F& x) { x.lower_mat(); } || requires(const F& x) { x.mat(); };
    // the scale of factor element (i,j): L of a Cholesky factorization 2^(EA/2), L*D and U of the others 2^EA, unit L of ILU 1
    int exponent(size_t i, size_t j) const { return kind[0] == 'c' ? (kind[1] == 'm' ? ea : ea / 2) : i > j ? 0 : ea; }
    std::string factor(int sf) const override {
        if constexpr (!shows) return "[]";
        else {
            const auto& w = mat(); std::vector<std::string> rows;
            for (size_t i = 0; i < n; ++i) {
                std::vector<std::string> r;
                for (size_t j = 0; j < (kind[0] == 'c' ? i + 1 : n); ++j) r.push_back(encr<T>(w(i, j), sf - exponent(i, j)));
                rows.push_back(join(r));
            }
            return join(rows);
        }
    }
    size_t bits() const override {
        if constexpr (!shows) return 0;
        else { std::vector<T> all; const auto& w = mat(); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { if (kind[0] == 'c' && j > i) break; all.push_back(w(i, j)); } return cksum(all.data(), all.size()); }
    }
};

struct Base {
    virtual ~Base() = default;
    virtual void exec(const std::string&, Line&) = 0;
    virtual void reset() = 0;
};

template<size_t N> struct Machine : Base {
    using TD = DynTriDiagMat<T>; using TS = SizedTriDiagMat<T, N>;
    using SM = SizedMat<T, N, 3>;
    static constexpr size_t PER = 1 << 20;
    Config c; Shadow sh;
    TD t[2] = {TD({}, {}, {}), TD({}, {}, {})};
    size_t tn[2] = {0, 0};
    TS u[2] = {TS(zeros<N - 1>(), zeros<N>(), zeros<N - 1>()), TS(zeros<N - 1>(), zeros<N>(), zeros<N - 1>())};
    int te[4] = {0, 0, 0, 0};
    std::unique_ptr<Solver> z[4];
    DynVec<T> d[3]; SizedVec<T, N> v[2] = {SizedVec<T, N>::filled(T(0)), SizedVec<T, N>::filled(T(0))};
    DynMat<T> m[3] = {DynMat<T>::filled(0, 0, T(0)), DynMat<T>::filled(0, 0, T(0)), DynMat<T>::filled(0, 0, T(0))};
    SM s[2] = {SM::filled(T(0)), SM::filled(T(0))};
    std::map<std::string, int> ex;               // exponent of each right-hand side register

    template<size_t K> static std::array<T, K> zeros() { std::array<T, K> a{}; return a; }
    template<size_t K> static std::array<T, K> arr(const std::vector<T>& w) { std::array<T, K> a{}; for (size_t i = 0; i < K; ++i) a[i] = w.at(i); return a; }
    explicit Machine(Config cc): c(cc) {}
    void reset() override {}

    static size_t reg(const std::string& r, size_t top) { size_t k = size_t(r.at(1) - '0'); if (r.size() != 2 || k >= top) bad_script("register " + r); return k; }
    template<class F> void rhs(const std::string& r, F&& f) {
        switch (r.at(0)) {
            case 'd': f(d[reg(r, 3)]); break; case 'v': f(v[reg(r, 2)]); break;
            case 'm': f(m[reg(r, 3)]); break; case 's': f(s[reg(r, 2)]); break; default: bad_script("register " + r);
        }
    }
    template<class W> static std::pair<size_t, size_t> dims(const W& w) { if constexpr (Vector<W>) return {w.size(), 1}; else return w.shape(); }

    template<class W> std::string project(const W& w, int e) {
        auto [n, k] = dims(w);
        std::vector<std::string> p, q;
        for (size_t i = 0; i < n * k; ++i) {
            auto x = w.data()[i];
            p.push_back(encr<T>(x, c.S - e));
            if (c.LB > 0) {
                auto y = std::ldexp(x, c.S - e), hi = std::round(y);
                q.push_back(std::isfinite(y) && std::abs(y) < (1 << 30) ? std::to_string(std::llround(std::ldexp(y - hi, c.LB))) : "0");
            }
        }
        return "{\"n\":" + std::to_string(n) + ",\"k\":" + std::to_string(k) + ",\"p\":" + join(p) + ",\"q\":" + join(q) + ",\"h\":" + std::to_string(cksum(w.data(), n * k)) + "}";
    }
    template<class W> std::string project_tri(W& w, size_t n, int e) {
        auto row = [&](const T* p, size_t k) { std::vector<std::string> r; for (size_t i = 0; i < k; ++i) r.push_back(enc<T>(p[i], e)); return join(r); };
        size_t o = n ? n - 1 : 0;
        return "{\"n\":" + std::to_string(n) + ",\"dl\":" + row(w.data_dl(), o) + ",\"d\":" + row(w.data_d(), n) + ",\"du\":" + row(w.data_du(), o) + "}";
    }
    void log(Ev& e, const std::string& out, const std::string& ret = "[]") {
        Rec r{e.b, out, ret};
        if (g_par) *g_par = r; else write(r);
    }
    void write(const Rec& rec) {
        std::string ch; bool any = false;
        for (int k = 0; k < 2; ++k) ch += sh.diff("t" + std::to_string(k), project_tri(t[k], tn[k], te[k]), any);
        for (int k = 0; k < 2; ++k) ch += sh.diff("u" + std::to_string(k), project_tri(u[k], N, te[2 + k]), any);
        for (int k = 0; k < 4; ++k)
            ch += sh.diff("z" + std::to_string(k), z[k] ? "{\"kind\":\"" + z[k]->kind + "\",\"F\":" + z[k]->factor(c.SF) + ",\"h\":" + std::to_string(z[k]->bits()) + "}" : "{\"kind\":\"\",\"F\":[],\"h\":0}", any);
        for (int k = 0; k < 3; ++k) { auto r = "d" + std::to_string(k); ch += sh.diff(r, project(d[k], ex[r]), any); }
        for (int k = 0; k < 2; ++k) { auto r = "v" + std::to_string(k); ch += sh.diff(r, project(v[k], ex[r]), any); }
        for (int k = 0; k < 3; ++k) { auto r = "m" + std::to_string(k); ch += sh.diff(r, project(m[k], ex[r]), any); }
        for (int k = 0; k < 2; ++k) { auto r = "s" + std::to_string(k); ch += sh.diff(r, project(s[k], ex[r]), any); }
        std::string o = guard::intact() ? rec.out : "corrupt";
        g_out += rec.b + ",\"out\":\"" + o + "\",\"ret\":" + rec.ret + ",\"ch\":{" + ch + "}}\n";
    }
    static std::vector<T> lower(const std::vector<T>& a, size_t n) { std::vector<T> r; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) r.push_back(a[i * n + j]); return r; }
    static SpCooMat<T> coo(const std::vector<T>& a, size_t n) {
        std::vector<T> val; std::vector<size_t> r, q;
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (a[i * n + j] != T(0)) { val.push_back(a[i * n + j]); r.push_back(i); q.push_back(j); }
        return SpCooMat<T>(std::move(val), std::move(r), std::move(q));
    }
    template<class F> void put(size_t k, F&& f, const std::string& kind, size_t n) {
        auto h = std::make_unique<Hold<std::remove_cvref_t<F>>>(std::forward<F>(f));
        h->kind = kind; h->n = n; h->ea = c.EA; z[k] = std::move(h);
    }
    void make(size_t k, const std::string& kind, size_t n, const std::vector<T>& a, T tol) {
        using namespace lalib::solver;
        if (kind == "cd") put(k, DynCholeskyFactorization<T>(DynMat<T>(a, n, n)), kind, n);
        else if (kind == "ct") put(k, DynTriCholeskyFactorization<T>(DynHermiteMat<T>(n, lower(a, n))), kind, n);
        else if (kind == "cm") put(k, DynModCholeskyFactorization<T>(DynMat<T>(a, n, n)), kind, n);
        else if (kind == "id") put(k, Ilu<T, DynMat<T>>(DynMat<T>(a, n, n)), kind, n);
        else if (kind == "is") put(k, Ilu<T, SpMat<T>>(SpMat<T>(coo(a, n))), kind, n);
        else if (kind == "io") put(k, Ilu<T, SpCooMat<T>>(coo(a, n)), kind, n);
        else if (kind == "iz") { if (n != N) bad_script("size"); put(k, Ilu<T, SizedMat<T, N, N>>(SizedMat<T, N, N>(arr<N * N>(a))), kind, n); }
        else if (kind == "gd") put(k, Gmres<T, DynMat<T>>(DynMat<T>(a, n, n), tol), kind, n);
        else if (kind == "gs") put(k, Gmres<T, SpMat<T>>(SpMat<T>(coo(a, n)), tol), kind, n);
        else bad_script("kind " + kind);
    }
    template<class F> void with(size_t k, F&& f) {
        using namespace lalib::solver;
        if (!z[k]) bad_script("no solver");
        auto& b = *z[k]; auto& q = b.kind;
        if (q == "tdd") f(static_cast<Hold<TriDiag<TD>>&>(b).f);
        else if (q == "tds") f(static_cast<Hold<TriDiag<TS>>&>(b).f);
        else if (q == "cd") f(static_cast<Hold<DynCholeskyFactorization<T>>&>(b).f);
        else if (q == "ct") f(static_cast<Hold<DynTriCholeskyFactorization<T>>&>(b).f);
        else if (q == "cm") f(static_cast<Hold<DynModCholeskyFactorization<T>>&>(b).f);
        else if (q == "id") f(static_cast<Hold<Ilu<T, DynMat<T>>>&>(b).f);
        else if (q == "is") f(static_cast<Hold<Ilu<T, SpMat<T>>>&>(b).f);
        else if (q == "io") f(static_cast<Hold<Ilu<T, SpCooMat<T>>>&>(b).f);
        else if (q == "iz") f(static_cast<Hold<Ilu<T, SizedMat<T, N, N>>>&>(b).f);
        else if (q == "gd") f(static_cast<Hold<Gmres<T, DynMat<T>>>&>(b).f);
        else if (q == "gs") f(static_cast<Hold<Gmres<T, SpMat<T>>>&>(b).f);
    }
    size_t bits(const std::string& op, const std::string& r) { return op == "make" && z[reg(r, 4)] ? z[reg(r, 4)]->bits() : 0; }
    // x := the solution of A x = b, by whatever call this kind of solver offers; true if it returned a reference to x
    template<class F, class W> static bool solve_into(F& f, const W& b, W& x, bool mut) {
        if constexpr (requires { f.solve_linear(b, x); }) { return static_cast<const void*>(&f.solve_linear(b, x)) == &x; }
        else if constexpr (requires { f.solve_linear_mut(x); }) {
            const F& cf = f;
            if (mut) return static_cast<const void*>(&cf.solve_linear_mut(x)) == &x;
            x = cf.solve_linear(b); return true;
        }
        else if constexpr (requires(const F& g) { g.solve(b); } && std::is_same_v<W, DynVec<T>>) { const F& cf = f; x = cf.solve(b); return true; }
        else bad_script("solver does not take this right-hand side");
    }

    void exec(const std::string& op, Line& l) override {
        Ev e(op);
        if (op == "par") run_par(*this, sh, l);
        else if (op == "init") log(e, "ok");
        else if (op == "tri" || op == "tpoke") {
            auto r = l.word(); size_t k = reg(r, 2); bool dyn = r[0] == 't'; if (!dyn && r[0] != 'u') bad_script("register " + r);
            if (op == "tri") {                    // tri r n <dl> <d> <du>
                size_t n = size_t(l.num()), o = n ? n - 1 : 0;
                Vals<T> dl(l, o, c.EA), dd(l, n, c.EA), du(l, o, c.EA);
                auto out = outcome([&] {
                    if (dyn) { t[k] = TD(dl.v, dd.v, du.v); tn[k] = n; }
                    else { if (n != N) bad_script("size"); u[k] = TS(arr<N - 1>(dl.v), arr<N>(dd.v), arr<N - 1>(du.v)); }
                });
                te[dyn ? k : 2 + k] = c.EA;
                e.s("r", r).i("n", long(n)).raw("dl", dl.lit).raw("d", dd.lit).raw("du", du.lit); log(e, out);
            } else {                              // tpoke r w i x : one element, w = 0 sub, 1 main, 2 super-diagonal
                long w = l.num(); size_t i = size_t(l.num()); Scalar<T> x(l, c.EA);
                auto out = outcome([&] { auto f = [&](auto& q) { (w == 0 ? q.data_dl() : w == 1 ? q.data_d() : q.data_du())[i] = x.v; }; if (dyn) f(t[k]); else f(u[k]); });
                e.s("r", r).i("w", w).i("i", long(i)).raw("x", x.lit); log(e, out);
            }
        }
        else if (op == "mktri") {                 // mktri z t how : lv by reference, mv from a temporary
            auto r = l.word(), a = l.word(), how = l.word(); size_t k = reg(r, 4), q = reg(a, 2);
            using namespace lalib::solver;
            auto out = outcome([&] {
                if (a[0] == 't') { if (how == "lv") put(k, TriDiag<TD>(t[q]), "tdd", tn[q]); else { TD tmp(t[q]); put(k, TriDiag<TD>(std::move(tmp)), "tdd", tn[q]); } }
                else { if (how == "lv") put(k, TriDiag<TS>(u[q]), "tds", N); else { TS tmp(u[q]); put(k, TriDiag<TS>(std::move(tmp)), "tds", N); } }
            });
            e.s("z", r).s("t", a); log(e, out);
        }
        else if (op == "make") {                  // make z kind n tol[+tf] <n*n values> certificate ; the tolerance is tol units and tf of the finer units
            auto r = l.word(), kind = l.word(); size_t k = reg(r, 4), n = size_t(l.num()); auto tw = l.word(); size_t plus = tw.find('+'); long tol = std::stol(tw), tf = plus == std::string::npos ? 0 : std::stol(tw.substr(plus + 1));
            Vals<T> a(l, n * n, c.EA); auto cert = l.word();
            auto out = outcome([&] { make(k, kind, n, a.v, std::ldexp(T(tol), c.EB - c.EA - c.S) + std::ldexp(T(tf), c.EB - c.EA - c.S - c.LB)); });
            std::string rows = "["; for (size_t i = 0; i < n; ++i) { std::vector<std::string> w; for (size_t j = 0; j < n; ++j) w.push_back(enc<T>(a.v[i * n + j], c.EA)); rows += (i ? "," : "") + join(w); }
            e.s("z", r).s("kind", kind).i("n", long(n)).i("tol", tol).i("tf", tf).raw("A", rows + "]").raw("cert", cert); log(e, out);
        }
        else if (op == "zcopy" || op == "zmove") { // zcopy z y
            auto r = l.word(), a = l.word(); size_t k = reg(r, 4), q = reg(a, 4);
            auto out = outcome([&] { if (!z[q]) bad_script("no solver"); auto w = op == "zcopy" ? z[q]->copy() : z[q]->move(); if (op == "zmove") z[q].reset(); z[k] = std::move(w); });
            e.s("z", r).s("y", a); log(e, out);
        }
        else if (op == "rhs") {                   // rhs r n k <values>, row by row
            auto r = l.word(); size_t n = size_t(l.num()), k = size_t(l.num()); Vals<T> x(l, n * k, c.EB);
            auto out = outcome([&] { rhs(r, [&](auto& w) {
                using W = std::remove_cvref_t<decltype(w)>;
                if constexpr (std::is_same_v<W, DynVec<T>>) w = DynVec<T>(x.v);
                else if constexpr (std::is_same_v<W, DynMat<T>>) w = DynMat<T>(x.v, n, k);
                else { if (dims(w) != std::pair<size_t, size_t>(n, k)) bad_script("size"); std::copy(x.v.begin(), x.v.end(), w.data()); }
            }); });
            ex[r] = c.EB;
            e.s("r", r).i("n", long(n)).i("k", long(k)).raw("p", x.lit); log(e, out);
        }
        else if (op == "solve" || op == "solvem") { // solve z b x ; solvem z b : in place
            auto r = l.word(), b = l.word(), x = op == "solve" ? l.word() : b; size_t k = reg(r, 4); std::string okr = "ok";
            auto out = outcome([&] { with(k, [&](auto& f) { rhs(b, [&](auto& bb) { rhs(x, [&](auto& xx) {
                if constexpr (std::is_same_v<decltype(bb), decltype(xx)>) { if (!solve_into(f, bb, xx, op == "solvem")) okr = "WrongRef"; } else bad_script("kinds");
            }); }); }); });
            ex[x] = ex[b] - z[k]->ea;
            e.s("z", r).s("b", b).s("x", x); log(e, out == "ok" ? okr : out);
        }
        else if (op == "parsolve") {              // parsolve reps z1 b1 x1 z2 b2 x2 ... : thread i solves for bi into xi, reps times, all at once
            long reps = l.num(); std::vector<std::string> zs, bs, xs;
            while (l.more()) { zs.push_back(l.word()); reg(zs.back(), 4); bs.push_back(l.word()); xs.push_back(l.word()); }
            std::vector<std::string> outs(bs.size(), "ok");
            auto out = outcome([&] {
                std::vector<std::thread> th;
                bool seq = std::getenv("SEQ");
                std::atomic<size_t> ready{0};
                for (size_t i = 0; i < bs.size(); ++i) { auto work = [&, i] {
                    if (!seq) { ++ready; while (ready < bs.size()) std::this_thread::yield(); }
                    auto o = outcome([&] { with(reg(zs[i], 4), [&](auto& f) { rhs(bs[i], [&](auto& bb) { rhs(xs[i], [&](auto& xx) {
                        if constexpr (std::is_same_v<decltype(bb), decltype(xx)>) {
                            size_t h = 0;
                            for (long q = 0; q < reps; ++q) {
                                solve_into(f, bb, xx, false);
                                auto [n, w] = dims(xx); size_t g = cksum(xx.data(), n * w);
                                if (q && g != h) { outs[i] = "Unstable"; return; }
                                h = g;
                            }
                        } else bad_script("kinds"); }); }); }); });
                    if (o != "ok") outs[i] = o; };
                    if (seq) work(); else th.emplace_back(work); }
                for (auto& w : th) w.join();
            });
            for (auto& o : outs) if (o != "ok") out = o;
            for (size_t i = 0; i < bs.size(); ++i) ex[xs[i]] = ex[bs[i]] - z[reg(zs[i], 4)]->ea;
            std::string zl = "[", bl = "[", xl = "["; for (size_t i = 0; i < bs.size(); ++i) { zl += (i ? ",\"" : "\"") + zs[i] + "\""; bl += (i ? ",\"" : "\"") + bs[i] + "\""; xl += (i ? ",\"" : "\"") + xs[i] + "\""; }
            e.raw("zs", zl + "]").raw("bs", bl + "]").raw("xs", xl + "]"); log(e, out);
        }
        else if (op == "cgs") {                   // cgs kind n m <m vectors>
            auto kind = l.word(); size_t n = size_t(l.num()), mm = size_t(l.num()); std::vector<std::vector<T>> in; std::string lits = "[";
            for (size_t i = 0; i < mm; ++i) { Vals<T> x(l, n, c.EB); in.push_back(x.v); lits += (i ? "," : "") + x.lit; }
            std::string ret = "[";
            auto show = [&](auto& vs) { for (size_t i = 0; i < mm; ++i) { std::vector<std::string> p; if (vs[i].size() != n) p.push_back(std::to_string(V_VIEW)); else for (size_t j = 0; j < n; ++j) p.push_back(encr<T>(vs[i][j], c.S - c.EB)); ret += (i ? "," : "") + join(p); } };
            auto out = outcome([&] {
                if (kind == "dyn") { std::vector<DynVec<T>> vs; for (auto& x : in) vs.emplace_back(x); orth::cgs(vs); show(vs); }
                else if (kind == "deque") { std::deque<DynVec<T>> vs; for (auto& x : in) vs.emplace_back(x); orth::cgs(vs); show(vs); }
                else if (kind == "arr") { std::array<DynVec<T>, 3> vs{DynVec<T>(in.at(0)), DynVec<T>(in.at(1)), DynVec<T>(in.at(2))}; if (mm != 3) bad_script("size"); orth::cgs(vs); show(vs); }
                else if (kind == "sized") { if (n != N) bad_script("size"); std::vector<SizedVec<T, N>> vs; for (auto& x : in) vs.emplace_back(arr<N>(x)); orth::cgs(vs); show(vs); }
                else bad_script("kind");
            });
            e.raw("v", lits + "]"); log(e, out, ret + "]");
        }
        else bad_script("unknown call " + op);
    }
};

int main() {
    return run_script([] { return [m = std::unique_ptr<Base>()](Line& l) mutable {
        auto op = l.word();
        if (op == "reset") {                      // reset N EA EB S SF LB
            long n = l.num(); Config c{int(l.num()), int(l.num()), int(l.num()), int(l.num()), 0}; if (l.more()) c.LB = int(l.num());
            if (c.EA % 2) bad_script("EA is even");
            m.reset();
            if (n == 1) m = std::make_unique<Machine<1>>(c); else if (n == 2) m = std::make_unique<Machine<2>>(c);
            else if (n == 3) m = std::make_unique<Machine<3>>(c); else if (n == 5) m = std::make_unique<Machine<5>>(c);
            else if (n == 8) m = std::make_unique<Machine<8>>(c); else bad_script("size");
            g_out += "{\"op\":\"reset\",\"N\":" + std::to_string(n) + ",\"S\":" + std::to_string(c.S) + ",\"SF\":" + std::to_string(c.SF) + ",\"LB\":" + std::to_string(c.LB) + "}\n";
            Line li("init"); li.word(); m->exec("init", li);
        } else { if (!m) bad_script("no reset"); m->exec(op, l); }
    }; });
}

// Conformance driver for the solver machine (spec/Solve.tla), complex elements: the dense Cholesky factorization, which the
// LAPACK backend offers for std::complex.
//
// A complex matrix is written as the real one of twice the size that acts alike: element x+iy is the block [[x,-y],[y,x]],
// a vector element is the two rows x, y. Under this map a Hermitian matrix is a symmetric one, its Cholesky factor the
// Cholesky factor of the symmetric one, and the specification applies word for word.
// Registers: z0..z3 factorizations; d0..d2 DynVec; v0,v1 SizedVec<N>; m0..m2 DynMat; s0,s1 SizedMat<N,3>. N is the complex size.
#include "common.hpp"
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
#include <array>
#include <memory>
#include <optional>
using namespace lalib;
using T = ELEM; using R = Real<T>;

struct Config { int EA, EB, S, SF, LB; };
struct Base { virtual ~Base() = default; virtual void exec(const std::string&, Line&) = 0; };

template<size_t N> struct Machine : Base {
    using F = solver::DynCholeskyFactorization<T>;
    using SM = SizedMat<T, N, 3>;
    Config c; Shadow sh;
    std::optional<F> z[4]; size_t zn[4] = {0, 0, 0, 0};
    DynVec<T> d[3]; SizedVec<T, N> v[2] = {SizedVec<T, N>::filled(T(0)), SizedVec<T, N>::filled(T(0))};
    DynMat<T> m[3] = {DynMat<T>::filled(T(0), 0, 0), DynMat<T>::filled(T(0), 0, 0), DynMat<T>::filled(T(0), 0, 0)};
    SM s[2] = {SM::filled(T(0)), SM::filled(T(0))};
    std::map<std::string, int> ex;
    explicit Machine(Config cc): c(cc) {}

    static size_t reg(const std::string& r, size_t top) { size_t k = size_t(r.at(1) - '0'); if (r.size() != 2 || k >= top) bad_script("register " + r); return k; }
    template<class G> void rhs(const std::string& r, G&& f) {
        switch (r.at(0)) {
            case 'd': f(d[reg(r, 3)]); break; case 'v': f(v[reg(r, 2)]); break;
            case 'm': f(m[reg(r, 3)]); break; case 's': f(s[reg(r, 2)]); break; default: bad_script("register " + r);
        }
    }
    template<class W> static std::pair<size_t, size_t> dims(const W& w) { if constexpr (Vector<W>) return {w.size(), 1}; else return w.shape(); }
    static R part(const T& x, int w) { return w ? x.imag() : x.real(); }
    template<class W> std::string project(const W& w, int e) {
        auto [n, k] = dims(w);
        std::vector<std::string> p, q;
        for (size_t i = 0; i < 2 * n; ++i) for (size_t j = 0; j < k; ++j) {
            R x = part(w.data()[i / 2 * k + j], i % 2);
            p.push_back(encr<R>(x, c.S - e));
            if (c.LB > 0) { R y = std::ldexp(x, c.S - e), hi = std::round(y); q.push_back(std::isfinite(y) && std::abs(y) < (1 << 30) ? std::to_string(std::llround(std::ldexp(y - hi, c.LB))) : "0"); }
        }
        return "{\"n\":" + std::to_string(2 * n) + ",\"k\":" + std::to_string(k) + ",\"p\":" + join(p) + ",\"q\":" + join(q) + ",\"h\":" + std::to_string(cksum(w.data(), n * k)) + "}";
    }
    int ea[4] = {0, 0, 0, 0};
    std::string show(size_t k) {
        if (!z[k]) return "{\"kind\":\"\",\"F\":[],\"h\":0}";
        const auto& w = z[k]->factor_mat(); size_t n = zn[k];
        std::vector<std::string> rows; std::vector<T> all;
        for (size_t i = 0; i < 2 * n; ++i) {
            std::vector<std::string> r;
            for (size_t j = 0; j <= i; ++j) {
                T x = w(i / 2, j / 2); bool di = i % 2, dj = j % 2;
                r.push_back(encr<R>(di == dj ? x.real() : di ? x.imag() : -x.imag(), c.SF - ea[k] / 2));
                if (!di && !dj) all.push_back(x);
            }
            rows.push_back(join(r));
        }
        return "{\"kind\":\"cd\",\"F\":" + join(rows) + ",\"h\":" + std::to_string(cksum(all.data(), all.size())) + "}";
    }
    void log(Ev& e, const std::string& out) {
        std::string ch; bool any = false;
        for (auto r : {"t0", "t1", "u0", "u1"}) ch += sh.diff(r, "{\"n\":0,\"dl\":[],\"d\":[],\"du\":[]}", any);
        for (size_t k = 0; k < 4; ++k) ch += sh.diff("z" + std::to_string(k), show(k), any);
        for (int k = 0; k < 3; ++k) { auto r = "d" + std::to_string(k); ch += sh.diff(r, project(d[k], ex[r]), any); }
        for (int k = 0; k < 2; ++k) { auto r = "v" + std::to_string(k); ch += sh.diff(r, project(v[k], ex[r]), any); }
        for (int k = 0; k < 3; ++k) { auto r = "m" + std::to_string(k); ch += sh.diff(r, project(m[k], ex[r]), any); }
        for (int k = 0; k < 2; ++k) { auto r = "s" + std::to_string(k); ch += sh.diff(r, project(s[k], ex[r]), any); }
        g_out += e.b + ",\"out\":\"" + (guard::intact() ? out : "corrupt") + "\",\"ret\":[],\"ch\":{" + ch + "}}\n";
    }

    void exec(const std::string& op, Line& l) override {
        Ev e(op);
        if (op == "init") log(e, "ok");
        else if (op == "make") {                  // make z cd 2n tol <2n*2n values> certificate
            auto r = l.word(), kind = l.word(); size_t k = reg(r, 4), n = size_t(l.num()); long tol = l.num();
            if (kind != "cd" || n % 2) bad_script("kind");
            Vals<R> a(l, n * n, c.EA); auto cert = l.word(); size_t h = n / 2;
            std::vector<T> w; for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < h; ++j) w.push_back(T(a.v[2 * i * n + 2 * j], a.v[(2 * i + 1) * n + 2 * j]));
            auto out = outcome([&] { F f(DynMat<T>(w, h, h)); z[k].reset(); z[k].emplace(std::move(f)); zn[k] = h; ea[k] = c.EA; });
            std::string rows = "["; for (size_t i = 0; i < n; ++i) { std::vector<std::string> x; for (size_t j = 0; j < n; ++j) x.push_back(enc<R>(a.v[i * n + j], c.EA)); rows += (i ? "," : "") + join(x); }
            e.s("z", r).s("kind", kind).i("n", long(n)).i("tol", tol).i("tf", 0).raw("A", rows + "]").raw("cert", cert); log(e, out);
        }
        else if (op == "zcopy" || op == "zmove") {
            auto r = l.word(), a = l.word(); size_t k = reg(r, 4), q = reg(a, 4);
            auto out = outcome([&] {
                if (!z[q]) bad_script("no solver");
                if (op == "zcopy") { F f(*z[q]); z[k].reset(); z[k].emplace(std::move(f)); } else { F f(std::move(*z[q])); z[q].reset(); z[k].reset(); z[k].emplace(std::move(f)); }
                zn[k] = zn[q]; ea[k] = ea[q];
            });
            e.s("z", r).s("y", a); log(e, out);
        }
        else if (op == "rhs") {                   // rhs r 2n k <values>, row by row
            auto r = l.word(); size_t n = size_t(l.num()), k = size_t(l.num()); Vals<R> x(l, n * k, c.EB);
            std::vector<T> w; for (size_t i = 0; i < n / 2; ++i) for (size_t j = 0; j < k; ++j) w.push_back(T(x.v[2 * i * k + j], x.v[(2 * i + 1) * k + j]));
            auto out = outcome([&] { rhs(r, [&](auto& y) {
                using W = std::remove_cvref_t<decltype(y)>;
                if constexpr (std::is_same_v<W, DynVec<T>>) y = DynVec<T>(w);
                else if constexpr (std::is_same_v<W, DynMat<T>>) y = DynMat<T>(w, n / 2, k);
                else { if (dims(y) != std::pair<size_t, size_t>(n / 2, k)) bad_script("size"); std::copy(w.begin(), w.end(), y.data()); }
            }); });
            ex[r] = c.EB;
            e.s("r", r).i("n", long(n)).i("k", long(k)).raw("p", x.lit); log(e, out);
        }
        else if (op == "solve" || op == "solvem") {
            auto r = l.word(), b = l.word(), x = op == "solve" ? l.word() : b; size_t k = reg(r, 4); std::string okr = "ok";
            if (!z[k]) bad_script("no solver");
            auto out = outcome([&] { const F& f = *z[k]; rhs(b, [&](auto& bb) { rhs(x, [&](auto& xx) {
                if constexpr (std::is_same_v<decltype(bb), decltype(xx)>) {
                    if (op == "solvem") { if (&f.solve_linear_mut(xx) != &xx) okr = "WrongRef"; } else xx = f.solve_linear(bb);
                } else bad_script("kinds");
            }); }); });
            ex[x] = ex[b] - ea[k];
            e.s("z", r).s("b", b).s("x", x); log(e, out == "ok" ? okr : out);
        }
        else bad_script("unknown call " + op);
    }
};

int main() {
    return run_script([] { return [m = std::unique_ptr<Base>()](Line& l) mutable {
        auto op = l.word();
        if (op == "reset") {                      // reset N EA EB S SF LB
            long n = l.num(); Config c{int(l.num()), int(l.num()), int(l.num()), int(l.num()), 0}; if (l.more()) c.LB = int(l.num());
            if (c.EA % 2) bad_script("EA is even");
            m.reset();
            if (n == 1) m = std::make_unique<Machine<1>>(c); else if (n == 2) m = std::make_unique<Machine<2>>(c);
            else if (n == 3) m = std::make_unique<Machine<3>>(c); else if (n == 5) m = std::make_unique<Machine<5>>(c);
            else if (n == 8) m = std::make_unique<Machine<8>>(c); else bad_script("size");
            g_out += "{\"op\":\"reset\",\"N\":" + std::to_string(n) + ",\"S\":" + std::to_string(c.S) + ",\"SF\":" + std::to_string(c.SF) + ",\"LB\":" + std::to_string(c.LB) + "}\n";
            Line li("init"); li.word(); m->exec("init", li);
        } else { if (!m) bad_script("no reset"); m->exec(op, l); }
    }; });
}

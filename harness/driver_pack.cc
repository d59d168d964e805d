// Conformance driver for the packed matrix machine (spec/Pack.tla): tri-diagonal, Hessenberg, upper and lower
// triangular and symmetric matrices.
//
// Registers: t0..t2 DynTriDiagMat; s0,s1 SizedTriDiagMat<N>; h0..h2 HessenbergMat; u0..u2 DynUpperTriMat;
// l0..l2 DynLowerTriMat; k0,k1 SizedLowerTriMat<N>; g0..g2 DynHermiteMat; f0,f1 SizedHermiteMat<N>.
#include "common.hpp"
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include <array>
#include <memory>
#include <optional>
using namespace lalib;
using T = ELEM;
struct Base { virtual ~Base() = default; virtual void exec(const std::string&, Line&) = 0; };

template<class W> constexpr char kind_of = '?';
template<> constexpr char kind_of<DynTriDiagMat<T>> = 't';
template<size_t N> constexpr char kind_of<SizedTriDiagMat<T, N>> = 's';
template<> constexpr char kind_of<HessenbergMat<T>> = 'h';
template<> constexpr char kind_of<DynUpperTriMat<T>> = 'u';
template<> constexpr char kind_of<DynLowerTriMat<T>> = 'l';
template<size_t N> constexpr char kind_of<SizedLowerTriMat<T, N>> = 'k';
template<> constexpr char kind_of<DynHermiteMat<T>> = 'g';
template<size_t N> constexpr char kind_of<SizedHermiteMat<T, N>> = 'f';

template<size_t N> struct Machine final : Base {
    using DT = DynTriDiagMat<T>; using ST = SizedTriDiagMat<T, N>; using H = HessenbergMat<T>; using U = DynUpperTriMat<T>;
    using DL = DynLowerTriMat<T>; using SL = SizedLowerTriMat<T, N>; using DH = DynHermiteMat<T>; using SH = SizedHermiteMat<T, N>;
    static constexpr size_t K = N * (N + 1) / 2;
    std::optional<DT> t[3]; std::optional<ST> s[2]; std::optional<H> h[3]; std::optional<U> u[3];
    std::optional<DL> l[3]; std::optional<SL> k[2]; std::optional<DH> g[3]; std::optional<SH> f[2];
    int E; Shadow sh;
    static T z() { return mk<T>(0, 0, 0); }
    template<size_t M> static std::array<T, M> arr(const std::vector<T>& v) { std::array<T, M> a{}; if (v.size() != M) bad_script("array size"); for (size_t i = 0; i < M; ++i) a[i] = v[i]; return a; }
    explicit Machine(int e): E(e) {
        for (auto& x : t) reset(x); for (auto& x : s) reset(x); for (auto& x : h) reset(x); for (auto& x : u) reset(x);
        for (auto& x : l) reset(x); for (auto& x : k) reset(x); for (auto& x : g) reset(x); for (auto& x : f) reset(x);
    }
    template<class W> void reset(std::optional<W>& x) {
        constexpr char q = kind_of<W>;
        if constexpr (q == 't') x.emplace(std::vector<T>(), std::vector<T>(), std::vector<T>());
        else if constexpr (q == 's') { std::array<T, N - 1> a{}; std::array<T, N> b{}; x.emplace(a, b, a); }
        else if constexpr (q == 'h' || q == 'u') x.emplace(std::vector<T>());
        else if constexpr (q == 'l' || q == 'g') x.emplace(size_t(0), std::vector<T>());
        else { std::array<T, K> a{}; x.emplace(a); }
    }
    template<class F> void on(const std::string& r, F&& fn) {
        size_t i = size_t(r.at(1) - '0');
        auto go = [&](auto& regs) { if (i >= std::size(regs)) bad_script("register " + r); fn(regs[i]); };
        switch (r[0]) {
            case 't': go(t); break; case 's': go(s); break; case 'h': go(h); break; case 'u': go(u); break;
            case 'l': go(l); break; case 'k': go(k); break; case 'g': go(g); break; case 'f': go(f); break;
            default: bad_script("register " + r);
        }
    }
    // the stored elements, as the data pointers show them
    template<class W> std::string stored(W& w) {
        constexpr char q = kind_of<W>;
        const W& c = w;
        size_t n = c.shape().first;
        auto seq = [&](const T* p, size_t cnt) { std::vector<std::string> v; for (size_t i = 0; i < cnt; ++i) v.push_back(enc<T>(p[i], E)); return join(v); };
        const std::string bad = "[" + std::to_string(V_VIEW) + "]";
        if constexpr (q == 't' || q == 's') {
            size_t o = n ? n - 1 : 0;
            if (n && (c.data_d() != w.data_d() || c.data_dl() != w.data_dl() || c.data_du() != w.data_du())) return bad;
            return "[" + seq(c.data_dl(), o) + "," + seq(c.data_d(), n) + "," + seq(c.data_du(), o) + "]";
        } else if constexpr (q == 'h') {
            if (n == 0) return "[]";
            auto col = c.get_col(n - 1);
            long cnt = (col.data() + col.size()) - w.data();
            if (cnt < 0 || cnt > long(n * (n + 3) / 2 + 1)) return bad;
            return seq(w.data(), size_t(cnt));
        } else if constexpr (q == 'u') return seq(w.data(), n * (n + 1) / 2);
        else { if (n && c.lower_data() != w.lower_data()) return bad; return seq(c.lower_data(), n * (n + 1) / 2); }
    }
    template<class W> std::string project(W& w) {
        const W& c = w;
        auto [n, m] = c.shape();
        if (n != m || n > 4096) return "{\"n\":" + std::to_string(idx(n)) + ",\"p\":[],\"v\":[[" + std::to_string(V_VIEW) + "]],\"a\":[]}";
        // every element through the reading paths: first all references, then their values
        std::vector<const T*> at(n * n), op(n * n); std::vector<int> acc(n * n);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
            op[i * n + j] = &c(i, j); at[i * n + j] = &c.at(i, j);
            const T *p1 = nullptr, *p2 = nullptr;
            auto o1 = outcome([&] { p1 = &w(i, j); });
            auto o2 = outcome([&] { p2 = &w.mut_at(i, j); });
            // 1: writable, and what is written is what is read; 0: rejected
            acc[i * n + j] = (o1 == "ok") != (o2 == "ok") ? 9 : o1 == "ok" ? (p1 == p2 && p1 == op[i * n + j] ? 1 : 8) : ((kind_of<W> != 'l' && kind_of<W> != 'k') || (o1 == "invalid_argument" && o2 == o1) ? 0 : 2);
        }
        poison_stack();
        std::vector<std::string> rows, arows;
        for (size_t i = 0; i < n; ++i) {
            std::vector<std::string> r, a;
            for (size_t j = 0; j < n; ++j) {
                r.push_back(same_bits(*op[i * n + j], *at[i * n + j]) ? enc<T>(*op[i * n + j], E) : cplx<T> ? "[2000000006,0]" : std::to_string(V_VIEW));
                a.push_back(std::to_string(acc[i * n + j]));
            }
            rows.push_back(join(r)); arows.push_back(join(a));
        }
        return "{\"n\":" + std::to_string(n) + ",\"p\":" + stored(w) + ",\"v\":" + join(rows) + ",\"a\":" + join(arows) + "}";
    }
    void log(Ev& e, const std::string& out, const std::string& ret = "[]") {
        Rec r{e.b, out, ret};
        if (g_par) *g_par = r; else write(r);
    }
    void write(const Rec& rec) {
        std::string ch; bool any = false;
        auto all = [&](const char* nm, auto& regs) { int i = 0; for (auto& x : regs) ch += sh.diff(nm + std::to_string(i++), project(*x), any); };
        all("t", t); all("s", s); all("h", h); all("u", u); all("l", l); all("k", k);
        if constexpr (!cplx<T>) { all("g", g); all("f", f); }
        std::string o = guard::intact() ? rec.out : "corrupt";
        g_out += rec.b + ",\"out\":\"" + o + "\",\"ret\":" + rec.ret + ",\"ch\":{" + ch + "}}\n";
    }
    void exec(const std::string& op, Line& ln) override {
        Ev e(op);
        if (op == "par") run_par(*this, sh, ln);
        else if (op == "init") log(e, "ok");
        else if (op == "loadt") {                // loadt r kind n <dl> <d> <du>
            auto r = ln.word(), kind = ln.word(); size_t n = size_t(ln.num()), o = n ? n - 1 : 0;
            Vals<T> dl(ln, o, E), d(ln, n, E), du(ln, o, E);
            auto out = outcome([&] { on(r, [&](auto& x) {
                using W = typename std::remove_cvref_t<decltype(x)>::value_type;
                if constexpr (kind_of<W> == 't') {
                    auto a = dl.v, b = d.v, c = du.v;
                    if (kind == "move") x.emplace(std::move(a), std::move(b), std::move(c)); else { const auto &ca = a, &cb = b, &cc = c; x.emplace(ca, cb, cc); a.assign(a.size(), mk<T>(77, 0, E)); b.assign(b.size(), mk<T>(77, 0, E)); c.assign(c.size(), mk<T>(77, 0, E)); }
                } else if constexpr (kind_of<W> == 's') x.emplace(arr<N - 1>(dl.v), arr<N>(d.v), arr<N - 1>(du.v));
                else bad_script("register");
            }); });
            e.s("r", r).i("n", long(n)).raw("p", "[" + dl.lit + "," + d.lit + "," + du.lit + "]"); log(e, out);
        }
        else if (op == "loadp") {                // loadp r n k <values>   (n is only used by the types that are told their size)
            auto r = ln.word(); size_t n = size_t(ln.num()), cnt = size_t(ln.num()); Vals<T> v(ln, cnt, E);
            auto out = outcome([&] { on(r, [&](auto& x) {
                using W = typename std::remove_cvref_t<decltype(x)>::value_type; constexpr char q = kind_of<W>;
                auto a = v.v;
                if constexpr (q == 'h' || q == 'u') { W tmp(std::move(a)); x.emplace(std::move(tmp)); }
                else if constexpr (q == 'l' || q == 'g') x.emplace(n, std::move(a));
                else if constexpr (q == 'k' || q == 'f') x.emplace(arr<K>(a));
                else bad_script("register");
            }); });
            e.s("r", r).i("n", long(n)).raw("p", v.lit); log(e, out);
        }
        else if (op == "build") {                // build h|u k : only the size of a matrix of k (zero) elements
            auto w = ln.word(); size_t cnt = size_t(ln.num()); size_t n = 0;
            std::vector<T> a(cnt, z());
            auto out = outcome([&] { if (w == "h") { H x(std::move(a)); n = x.shape().first == x.shape().second ? x.shape().first : 999999; } else { U x(std::move(a)); n = x.shape().first == x.shape().second ? x.shape().first : 999999; } });
            e.s("w", w).i("k", long(cnt)); log(e, out, out == "ok" ? "[" + std::to_string(idx(n)) + "]" : "[]");
        }
        else if (op == "empty") {                // empty r how cap
            auto r = ln.word(), how = ln.word(); size_t cap = size_t(ln.num());
            auto out = outcome([&] { on(r, [&](auto& x) {
                using W = typename std::remove_cvref_t<decltype(x)>::value_type; constexpr char q = kind_of<W>;
                if constexpr (q == 'h') x.emplace(W::with_capacity(cap));
                else if constexpr (q == 'u') { if (how == "cap") x.emplace(W::with_capacity(cap)); else { poison_stack(); x.emplace(); } }
                else bad_script("register");
            }); });
            e.s("r", r); log(e, out);
        }
        else if (op == "copyp" || op == "assignp" || op == "movep") {
            auto r = ln.word(), a = ln.word();
            auto out = outcome([&] { on(r, [&](auto& x) { on(a, [&](auto& y) {
                using X = std::remove_cvref_t<decltype(x)>; using Y = std::remove_cvref_t<decltype(y)>;
                if constexpr (std::is_same_v<X, Y>) {
                    using W = typename X::value_type; const W& cy = *y;
                    if (op == "copyp") { W tmp(cy); x.emplace(tmp); }
                    else if (op == "movep") { W tmp(std::move(*y)); reset(y); x.emplace(std::move(tmp)); }
                    else if constexpr (std::is_copy_assignable_v<W>) *x = cy;
                    else { W tmp(cy); x.emplace(tmp); }
                } else bad_script("kinds");
            }); }); });
            e.s("r", r).s("a", a); log(e, out);
        }
        else if (op == "set") {                  // set r via i j value
            auto r = ln.word(), via = ln.word(); size_t i = size_t(ln.num()), j = size_t(ln.num()); Scalar<T> x(ln, E);
            auto out = outcome([&] { on(r, [&](auto& w) { if (via == "op") (*w)(i, j) = x.v; else if (via == "mut") w->mut_at(i, j) = x.v; else bad_script("via"); }); });
            if (out != "ok" && r[0] != 'l' && r[0] != 'k') out = "rejected";
            e.s("r", r).i("i", long(i)).i("j", long(j)).raw("x", x.lit); log(e, out);
        }
        else if (op == "poke") {                 // poke r which index value : through a data pointer
            auto r = ln.word(); size_t which = size_t(ln.num()), i = size_t(ln.num()); Scalar<T> x(ln, E);
            auto out = outcome([&] { on(r, [&](auto& w) {
                using W = typename std::remove_cvref_t<decltype(w)>::value_type; constexpr char q = kind_of<W>;
                if constexpr (q == 't' || q == 's') (which == 0 ? w->data_dl() : which == 1 ? w->data_d() : w->data_du())[i] = x.v;
                else if constexpr (q == 'h' || q == 'u') w->data()[i] = x.v;
                else w->lower_data()[i] = x.v;
            }); });
            e.s("r", r).i("w", long(which)).i("i", long(i)).raw("x", x.lit); log(e, out);
        }
        else if (op == "ext0") {
            auto r = ln.word();
            auto out = outcome([&] { if (r[0] == 'h') h[r[1] - '0']->extend_with_zero(); else if (r[0] == 'u') u[r[1] - '0']->extend_with_zero(); else bad_script("register"); });
            e.s("r", r); log(e, out);
        }
        else if (op == "extw") {                 // extw r k <values>
            auto r = ln.word(); size_t cnt = size_t(ln.num()); Vals<T> v(ln, cnt, E); auto a = v.v;
            auto out = outcome([&] { if (r[0] == 'h') h[r[1] - '0']->extend_with(std::move(a)); else if (r[0] == 'u') u[r[1] - '0']->extend_with(std::move(a)); else bad_script("register"); });
            e.s("r", r).raw("p", v.lit); log(e, out);
        }
        else if (op == "getcol") {               // getcol r j
            auto r = ln.word(); size_t j = size_t(ln.num()); std::vector<std::string> c;
            auto out = outcome([&] { if (r[0] != 'h') bad_script("register"); const H& x = *h[r[1] - '0']; auto sp = x.get_col(j); if (sp.size() > 100000) throw std::runtime_error("size"); for (auto& v : sp) c.push_back(enc<T>(v, E)); });
            e.s("r", r).i("j", long(j)); log(e, out, join(c));
        }
        else if (op == "intolow") {              // intolow r a
            auto r = ln.word(), a = ln.word();
            auto out = outcome([&] {
                if (r[0] == 'l' && a[0] == 'g') { auto& y = g[a[1] - '0']; DL tmp = y->into_lower_mat(); reset(y); l[r[1] - '0'].emplace(std::move(tmp)); }
                else if (r[0] == 'k' && a[0] == 'f') { auto& y = f[a[1] - '0']; SL tmp = y->into_lower_mat(); reset(y); k[r[1] - '0'].emplace(tmp); }
                else bad_script("register");
            });
            e.s("r", r).s("a", a); log(e, out);
        }
        else if (op == "backsub") {              // backsub r kind shift n <y> : the solution times 2^shift, rounded (shift 0: exact)
            auto r = ln.word(), kind = ln.word(); long shift = ln.num(); size_t n = size_t(ln.num()); Vals<T> y(ln, n, 0);
            std::vector<T> res = y.v;
            auto out = outcome([&] {
                if (r[0] != 'u') bad_script("register"); const U& w = *u[r[1] - '0'];
                struct Keep { std::vector<T>& dst; std::function<void()> f; ~Keep() { f(); } };
                if (kind == "std") w.back_sub(res);
                else if (kind == "dyn") { DynVec<T> d(y.v); Keep kp{res, [&] { res.assign(d.begin(), d.end()); }}; w.back_sub(d); }
                else if (kind == "span") { std::span<T> sp(res); w.back_sub(sp); }
                else if (kind == "sized" && n == N) { SizedVec<T, N> d(y.v); Keep kp{res, [&] { res.assign(d.begin(), d.end()); }}; w.back_sub(d); }
                else w.back_sub(res);
            });
            std::vector<std::string> c; for (auto& v : res) c.push_back(shift ? encr<T>(v, int(shift)) : enc<T>(v, 0));
            e.s("r", r).i("k", shift).i("n", long(n)).raw("y", y.lit); log(e, out, join(c));
        }
        else bad_script("unknown call " + op);
    }
};

static std::unique_ptr<Base> make(long n, int e) {
    switch (n) { case 1: return std::make_unique<Machine<1>>(e); case 2: return std::make_unique<Machine<2>>(e); case 3: return std::make_unique<Machine<3>>(e);
                 case 5: return std::make_unique<Machine<5>>(e); case 8: return std::make_unique<Machine<8>>(e); }
    bad_script("size");
}
int main() {
    return run_script([] { return [m = std::unique_ptr<Base>()](Line& l) mutable {
        auto op = l.word();
        if (op == "reset") {                      // reset N E
            long n = l.num(), e = l.num();
            m.reset(); m = make(n, int(e));
            g_out += "{\"op\":\"reset\",\"N\":" + std::to_string(n) + ",\"E\":" + std::to_string(e) + "}\n";
            Line li("init"); li.word(); m->exec("init", li);
        } else { if (!m) bad_script("no reset"); m->exec(op, l); }
    }; });
}

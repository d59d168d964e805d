// Conformance driver for the vector machine (spec/Vec.tla): DynVec and SizedVec, real API calls only.
#include "common.hpp"
#include "lalib/vec.hpp"
#include <memory>
#include <array>
#include <thread>
using namespace lalib;
using T = ELEM;

struct Base { virtual ~Base() = default; virtual void exec(const std::string&, Line&) = 0; };

template<size_t N> struct Machine final : Base {
    using D = DynVec<T>; using S = SizedVec<T, N>;
    D d[4]; S s[4] = {S::filled(mk<T>(0,0,0)), S::filled(mk<T>(0,0,0)), S::filled(mk<T>(0,0,0)), S::filled(mk<T>(0,0,0))};
    size_t per; int E; Shadow sh;
    Machine(size_t per, int e): per(per), E(e) {}

    template<class F> void on(const std::string& r, F&& f) {
        int k = r.at(1) - '0';
        if (k < 0 || k > 3) bad_script("register " + r);
        if (r[0] == 'd') f(d[k]); else if (r[0] == 's') f(s[k]); else bad_script("register " + r);
    }
    void log(Ev& e, const std::string& out, const std::string& ret = "[]") {
        Rec r{e.b, out, ret};
        if (g_par) *g_par = r; else write(r);
    }
    void write(const Rec& rec) {
        std::string ch; bool any = false;
        for (int k = 0; k < 4; ++k) ch += sh.diff("d" + std::to_string(k), project_vec(d[k], per, E), any);
        for (int k = 0; k < 4; ++k) ch += sh.diff("s" + std::to_string(k), project_vec(s[k], per, E), any);
        std::string o = guard::intact() ? rec.out : "corrupt";
        g_out += rec.b + ",\"out\":\"" + o + "\",\"ret\":" + rec.ret + ",\"ch\":{" + ch + "}}\n";
    }
    size_t bits(const std::string&, const std::string& r) { size_t h = 0; on(r, [&](auto& v) { h = cksum(v.data(), v.size()); }); return h; }
    // result of a call returning a reference: it must be the destination
    template<class A, class B> static std::string ref(const A& r, const B& dst) {
        return static_cast<const void*>(&r) == static_cast<const void*>(&dst) ? "ok" : "WrongRef";
    }

    void exec(const std::string& op, Line& l) override {
        Ev e(op);
        if (op == "par") run_par(*this, sh, l);
        else if (op == "load") {                       // load r kind n <pattern of min(n,per) values>
            auto r = l.word(); auto kind = l.word(); size_t n = size_t(l.num());
            Vals<T> p(l, std::min(n, per), E);
            std::vector<T> full = n ? expand(p.v, n) : std::vector<T>();
            auto out = outcome([&] { on(r, [&](auto& v) {
                using V = std::remove_cvref_t<decltype(v)>;
                if (kind == "vec") { const auto& c = full; v = V(c); }
                else if (kind == "move") v = V(std::vector<T>(full));
                else if (kind == "arr") {
                    if constexpr (std::is_same_v<V, S>) { std::array<T, N> a{}; for (size_t i = 0; i < N; ++i) a[i] = full.at(i); v = S(a); }
                    else v = V(full);
                }
                else if (kind == "init") {
                    const auto& f = full;
                    switch (n) {
                        case 0: v = V(std::initializer_list<T>{}); break;
                        case 1: v = V({f[0]}); break;
                        case 2: v = V({f[0], f[1]}); break;
                        case 3: v = V({f[0], f[1], f[2]}); break;
                        case 4: v = V({f[0], f[1], f[2], f[3]}); break;
                        case 5: v = V({f[0], f[1], f[2], f[3], f[4]}); break;
                        default: v = V(f);
                    }
                }
                else if (kind == "write") {       // uninit, then element writes through the three views in turn
                    if constexpr (std::is_same_v<V, S>) v = S::uninit(); else v = D::uninit(n);
                    if (v.size() != n) throw std::runtime_error("size");
                    auto it = v.begin();
                    for (size_t i = 0; i < n; ++i, ++it) { if (i % 3 == 0) v[i] = full[i]; else if (i % 3 == 1) v.data()[i] = full[i]; else *it = full[i]; }
                }
                else bad_script("load kind");
            }); });
            e.s("r", r).i("n", long(n)).raw("p", p.lit); log(e, out);
        }
        else if (op == "fill") {                  // fill r n value
            auto r = l.word(); size_t n = size_t(l.num()); Scalar<T> a(l, E);
            auto out = outcome([&] { on(r, [&](auto& v) {
                using V = std::remove_cvref_t<decltype(v)>;
                if constexpr (std::is_same_v<V, S>) v = S::filled(a.v); else v = D::filled(n, a.v);
            }); });
            e.s("r", r).i("n", long(n)).raw("a", a.lit); log(e, out);
        }
        else if (op == "copy" || op == "assign" || op == "move" || op == "moveassign") {     // op r a
            auto r = l.word(), a = l.word();
            auto out = outcome([&] { on(r, [&](auto& v) { on(a, [&](auto& w) {
                using V = std::remove_cvref_t<decltype(v)>; using W = std::remove_cvref_t<decltype(w)>;
                if constexpr (std::is_same_v<V, W>) {
                    if (op == "copy") { V c(w); std::destroy_at(&v); std::construct_at(&v, c); }
                    else if (op == "assign") v = w;
                    else if (op == "move") { V c(std::move(w)); if constexpr (std::is_same_v<V, D>) w = D(); std::destroy_at(&v); std::construct_at(&v, std::move(c)); }
                    else { v = std::move(w); if constexpr (std::is_same_v<V, D>) { if (static_cast<void*>(&v) != static_cast<void*>(&w)) w = D(); } }
                } else bad_script("kinds");
            }); }); });
            e.s("r", r).s("a", a); log(e, out);
        }
        else if (op == "swap") {                  // std::swap through move construction/assignment
            auto r = l.word(), a = l.word();
            auto out = outcome([&] { on(r, [&](auto& v) { on(a, [&](auto& w) {
                using V = std::remove_cvref_t<decltype(v)>; using W = std::remove_cvref_t<decltype(w)>;
                if constexpr (std::is_same_v<V, W>) std::swap(v, w); else bad_script("kinds");
            }); }); });
            e.s("r", r).s("a", a); log(e, out);
        }
        else if (op == "set") {                   // set r via i value
            auto r = l.word(), via = l.word(); size_t i = size_t(l.num()); Scalar<T> a(l, E);
            auto out = outcome([&] { on(r, [&](auto& v) {
                if (via == "idx") v[i] = a.v; else if (via == "data") v.data()[i] = a.v;
                else if (via == "iter") *(v.begin() + long(i)) = a.v; else if (via == "rev") *(v.end() - long(v.size() - i)) = a.v; else bad_script("via");
            }); });
            e.s("r", r).i("i", long(i)).raw("a", a.lit); log(e, out);
        }
        else if (op == "get") {                   // get r i : a read changes nothing
            auto r = l.word(); size_t i = size_t(l.num()); std::string ret = "[]";
            auto out = outcome([&] { on(r, [&](auto& v) { const auto& c = v; T x = c[i]; ret = "[" + enc<T>(x, E) + "]"; }); });
            e.s("r", r).i("i", long(i)); log(e, out, ret);
        }
        else if (op == "add" || op == "sub") {
            auto r = l.word(), a = l.word(), b = l.word(); std::string okr = "ok";
            auto out = outcome([&] { on(r, [&](auto& v) { on(a, [&](auto& x) { on(b, [&](auto& y) {
                const auto& cx = x; const auto& cy = y;
                if constexpr (requires { add(cx, cy, v); }) { if (op == "add") okr = ref(add(cx, cy, v), v); else okr = ref(sub(cx, cy, v), v); }
                else bad_script("overload");
            }); }); }); });
            e.s("r", r).s("a", a).s("b", b); log(e, out == "ok" ? okr : out);
        }
        else if (op == "neg") {
            auto r = l.word(), a = l.word(); std::string okr = "ok";
            auto out = outcome([&] { on(r, [&](auto& v) { on(a, [&](auto& x) {
                const auto& cx = x;
                if constexpr (requires { neg(cx, v); }) okr = ref(neg(cx, v), v); else bad_script("overload");
            }); }); });
            e.s("r", r).s("a", a); log(e, out == "ok" ? okr : out);
        }
        else if (op == "axpy") {                  // axpy r al x : r <- al * x + r
            auto r = l.word(); Scalar<T> al(l, 0); auto a = l.word(); std::string okr = "ok";
            auto out = outcome([&] { on(r, [&](auto& v) { on(a, [&](auto& x) {
                const auto& cx = x;
                if constexpr (requires { axpy(al.v, cx, v); }) okr = ref(axpy(al.v, cx, v), v); else bad_script("overload");
            }); }); });
            e.s("r", r).raw("al", al.lit).s("a", a); log(e, out == "ok" ? okr : out);
        }
        else if (op == "scale") {
            auto r = l.word(); Scalar<T> al(l, 0); std::string okr = "ok";
            auto out = outcome([&] { on(r, [&](auto& v) { okr = ref(scale(al.v, v), v); }); });
            e.s("r", r).raw("al", al.lit); log(e, out == "ok" ? okr : out);
        }
        else if (op == "opadd" || op == "opsub") { // r <- a + b
            auto r = l.word(), a = l.word(), b = l.word();
            auto out = outcome([&] { on(r, [&](auto& v) { on(a, [&](auto& x) { on(b, [&](auto& y) {
                const auto& cx = x; const auto& cy = y;
                if constexpr (std::is_same_v<decltype(x), decltype(v)> && requires { cx + cy; }) { if (op == "opadd") v = cx + cy; else v = cx - cy; }
                else bad_script("overload");
            }); }); }); });
            e.s("r", r).s("a", a).s("b", b); log(e, out);
        }
        else if (op == "opneg") {
            auto r = l.word(), a = l.word();
            auto out = outcome([&] { on(r, [&](auto& v) { on(a, [&](auto& x) {
                const auto& cx = x; if constexpr (std::is_same_v<decltype(x), decltype(v)>) v = -cx; else bad_script("overload");
            }); }); });
            e.s("r", r).s("a", a); log(e, out);
        }
        else if (op == "scaled" || op == "mull" || op == "mulr") {
            auto r = l.word(); Scalar<T> al(l, 0); auto a = l.word();
            auto out = outcome([&] { on(r, [&](auto& v) { on(a, [&](auto& x) {
                const auto& cx = x;
                if constexpr (std::is_same_v<decltype(x), decltype(v)>) { if (op == "scaled") v = scaled(al.v, cx); else if (op == "mull") v = al.v * cx; else v = cx * al.v; }
                else bad_script("overload");
            }); }); });
            e.s("r", r).raw("al", al.lit).s("a", a); log(e, out);
        }
        else if (op == "div") {                   // exact division by a power of two
            auto r = l.word(), a = l.word(); Scalar<T> al(l, 0);
            auto out = outcome([&] { on(r, [&](auto& v) { on(a, [&](auto& x) {
                const auto& cx = x; if constexpr (std::is_same_v<decltype(x), decltype(v)> && !std::is_integral_v<T>) v = cx / al.v; else bad_script("overload");
            }); }); });
            e.s("r", r).s("a", a).raw("al", al.lit); log(e, out);
        }
        else if (op == "divr") {                  // any divisor: the quotients, rounded to multiples of 2^-k
            auto a = l.word(); Scalar<T> al(l, 0); long k = l.num(); std::vector<std::string> q;
            auto out = outcome([&] { on(a, [&](auto& x) { const auto& cx = x; if constexpr (!std::is_integral_v<T>) { auto y = cx / al.v; for (size_t i = 0; i < std::min(y.size(), per); ++i) q.push_back(encr<T>(y[i], int(k) - E)); } else bad_script("division"); }); });
            e.s("a", a).raw("al", al.lit).i("k", k); log(e, out, join(q));
        }
        else if (op == "dot" || op == "mdot") {
            if constexpr (!cplx<T>) {
                auto a = l.word(), b = l.word(); std::string ret = "[]";
                auto out = outcome([&] { on(a, [&](auto& x) { on(b, [&](auto& y) {
                    const auto& cx = x; const auto& cy = y;
                    if (op == "mdot") { T v = cx.dot(cy); ret = "[" + enc<T>(v, 2 * E) + "]"; }
                    else if constexpr (requires { dot(cx, cy); }) { T v = dot(cx, cy); ret = "[" + enc<T>(v, 2 * E) + "]"; }
                    else bad_script("overload");
                }); }); });
                e.s("a", a).s("b", b); log(e, out, ret);
            } else bad_script("complex dot");
        }
        else if (op == "norm2") {                 // the norm, rounded to a multiple of 2^-k
            if constexpr (!cplx<T>) {
                auto a = l.word(); long k = l.num(); std::string ret = "[]";
                auto out = outcome([&] { on(a, [&](auto& x) { const auto& cx = x; T v = cx.norm2(); ret = "[" + encr<T>(v, int(k) - E) + "]"; }); });
                e.s("a", a).i("k", k); log(e, out, ret);
            } else bad_script("complex norm");
        }
        else if (op == "cross2") {
            auto a = l.word(), b = l.word(); std::string ret = "[]";
            auto out = outcome([&] { on(a, [&](auto& x) { on(b, [&](auto& y) {
                const auto& cx = x; const auto& cy = y;
                if constexpr (N == 2 && requires { { cross(cx, cy) } -> std::same_as<T>; }) { T v = cross(cx, cy); ret = "[" + enc<T>(v, 2 * E) + "]"; }
                else bad_script("overload");
            }); }); });
            e.s("a", a).s("b", b); log(e, out, ret);
        }
        else if (op == "cross3") {                // returned by value, stored in a sized register
            auto r = l.word(), a = l.word(), b = l.word();
            auto out = outcome([&] { on(r, [&](auto& v) { on(a, [&](auto& x) { on(b, [&](auto& y) {
                const auto& cx = x; const auto& cy = y;
                if constexpr (N == 3 && std::is_same_v<std::remove_cvref_t<decltype(v)>, S> && requires { { cross(cx, cy) } -> std::same_as<S>; }) v = cross(cx, cy);
                else bad_script("overload");
            }); }); }); });
            e.s("r", r).s("a", a).s("b", b); log(e, out);
        }
        else if (op == "cross3to" || op == "crossacc") {
            auto r = l.word(), a = l.word(), b = l.word(); std::string okr = "ok";
            if (E != 0) bad_script("cross needs exponent 0");
            auto out = outcome([&] { on(r, [&](auto& v) { on(a, [&](auto& x) { on(b, [&](auto& y) {
                const auto& cx = x; const auto& cy = y;
                if constexpr (N == 3 && requires { cross(cx, cy, v); }) { if (op == "cross3to") okr = ref(cross(cx, cy, v), v); else okr = ref(cross_acc(cx, cy, v), v); }
                else bad_script("overload");
            }); }); }); });
            e.s("r", r).s("a", a).s("b", b); log(e, out == "ok" ? okr : out);
        }
        else bad_script("op " + op);
    }
};

template<size_t... Ns> std::unique_ptr<Base> make(size_t n, size_t per, int e) {
    std::unique_ptr<Base> m;
    ((Ns == n ? (m = std::make_unique<Machine<Ns>>(per, e), 0) : 0), ...);
    if (!m) bad_script("sized length");
    return m;
}
#ifndef SIZES
#define SIZES 1, 2, 3, 4, 8, 17
#endif

int main() {
    return run_script([] { return [m = std::unique_ptr<Base>()](Line& l) mutable {
        auto op = l.word();
        if (op == "reset") {                      // reset N per E
            size_t n = size_t(l.num()), per = size_t(l.num()); int e = int(l.num());
            m.reset(); m = make<SIZES>(n, per, e);
            g_out += "{\"op\":\"reset\",\"N\":" + std::to_string(n) + ",\"per\":" + std::to_string(per) + "}\n";
Line z("s0 " + std::to_string(n) + (cplx<T> ? " 0 0" : " 0")); m->exec("fill", z);
        }
        else { if (!m) bad_script("no reset"); m->exec(op, l); }
    }; });
}

// Conformance driver for the dense matrix machine (spec/Mat.tla): DynMat, SizedMat, and their products with
// vectors and matrices.
//
// Registers: m0..m3 dynamic matrices; a0,a1 sized NxL; b0,b1 sized LxM; c0,c1 sized NxM; q0,q1 sized 2x2;
// v0..v3 dynamic vectors; x0,x1 sized L; y0,y1 sized N.
#include "common.hpp"
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include <memory>
#include <array>
using namespace lalib;
using T = ELEM;

struct Base { virtual ~Base() = default; virtual void exec(const std::string&, Line&) = 0; };

template<class> struct is_sized_mat : std::false_type {};
template<size_t N, size_t M> struct is_sized_mat<SizedMat<T, N, M>> : std::true_type { static constexpr size_t n = N, m = M; };

template<size_t N, size_t L, size_t M> struct Machine final : Base {
    using D = DynMat<T>; using A = SizedMat<T, N, L>; using B = SizedMat<T, L, M>; using C = SizedMat<T, N, M>; using Q = SizedMat<T, 2, 2>;
    using DV = DynVec<T>; using X = SizedVec<T, L>; using Y = SizedVec<T, N>;
    static T z() { return mk<T>(0, 0, 0); }
    D m[4] = {D::filled(z(), 0, 0), D::filled(z(), 0, 0), D::filled(z(), 0, 0), D::filled(z(), 0, 0)};
    A a[2] = {A::filled(z()), A::filled(z())}; B b[2] = {B::filled(z()), B::filled(z())}; C c[2] = {C::filled(z()), C::filled(z())};
    Q q[2] = {Q::filled(z()), Q::filled(z())};
    DV v[4]; X x[2] = {X::filled(z()), X::filled(z())}; Y y[2] = {Y::filled(z()), Y::filled(z())};
    size_t per; int E; Shadow sh;
    Machine(size_t per, int e): per(per), E(e) {}

    static constexpr bool square = N == L && L == M;
    template<class F> void onm(const std::string& r, F&& f) {
        int k = r.at(1) - '0'; if (k < 0 || k > (r[0] == 'm' ? 3 : 1)) bad_script("register " + r);
        switch (r[0]) {
            case 'm': f(m[k]); break; case 'a': f(a[k]); break;
            case 'b': f(b[k]); break; case 'c': f(c[k]); break;
            case 'q': f(q[k]); break; default: bad_script("register " + r);
        }
    }
    template<class F> void onp(const std::string& r, F&& f) {       // operands of products and sums
        int k = r.at(1) - '0'; if (k < 0 || k > (r[0] == 'm' ? 3 : 1)) bad_script("register " + r);
        switch (r[0]) {
            case 'm': f(m[k]); break; case 'a': f(a[k]); break; case 'b': f(b[k]); break; case 'c': f(c[k]); break;
            default: bad_script("register " + r);
        }
    }
    template<class F> void onv(const std::string& r, F&& f) {
        int k = r.at(1) - '0'; if (k < 0 || k > (r[0] == 'v' ? 3 : 1)) bad_script("register " + r);
        switch (r[0]) { case 'v': f(v[k]); break; case 'x': f(x[k]); break; case 'y': f(y[k]); break; default: bad_script("register " + r); }
    }
    // what a matrix shows: shape, elements (through every view), the container's extent
    template<class W> std::string project_mat(W& w) {
        const W& cw = w;
        auto [n, mm] = cw.shape();
        size_t cnt = n * mm;
        bool ok = size_t(w.end() - w.begin()) == cnt && size_t(cw.end() - cw.begin()) == cnt && size_t(cw.cend() - cw.cbegin()) == cnt && w.data() == cw.data();
        bool periodic = true;
        for (size_t i = 0; i < n && ok; ++i) for (size_t j = 0; j < mm && ok; ++j) {
            const T* p = cw.data() + (i * mm + j);
            ok = &w(i, j) == p && &cw(i, j) == p && &cw.at(i, j) == p && &w.mut_at(i, j) == p && &*(w.begin() + long(i * mm + j)) == p && &*(cw.cbegin() + long(i * mm + j)) == p;
            if ((i >= per || j >= per) && !(*p == cw(i % per, j % per))) periodic = false;
        }
        std::vector<std::string> rows;
        if (!ok) rows.push_back("[" + std::to_string(V_VIEW) + "]");
        else if (!periodic) rows.push_back("[" + std::to_string(V_APERIODIC) + "]");
        else for (size_t i = 0; i < std::min(n, per); ++i) {
            std::vector<std::string> r; for (size_t j = 0; j < std::min(mm, per); ++j) r.push_back(enc<T>(cw(i, j), E));
            rows.push_back(join(r));
        }
        return "{\"n\":" + std::to_string(idx(n)) + ",\"m\":" + std::to_string(idx(mm)) + ",\"p\":" + join(rows) + "}";
    }
    size_t bits(const std::string&, const std::string& r) {
        size_t h = 0;
        if (std::strchr("vxy", r.at(0))) onv(r, [&](auto& v) { h = cksum(v.data(), v.size()); }); else onm(r, [&](auto& w) { auto [n, k] = w.shape(); h = cksum(w.data(), n * k); });
        return h;
    }
    void log(Ev& e, const std::string& out, const std::string& ret = "[]") {
        Rec r{e.b, out, ret};
        if (g_par) *g_par = r; else write(r);
    }
    void write(const Rec& rec) {
        std::string ch; bool any = false;
        auto one = [&](const char* nm, int k, const std::string& s) { ch += sh.diff(nm + std::to_string(k), s, any); };
        for (int k = 0; k < 4; ++k) one("m", k, project_mat(m[k]));
        for (int k = 0; k < 2; ++k) { one("a", k, project_mat(a[k])); one("b", k, project_mat(b[k])); one("c", k, project_mat(c[k])); one("q", k, project_mat(q[k])); }
        for (int k = 0; k < 4; ++k) one("v", k, project_vec(v[k], per, E));
        for (int k = 0; k < 2; ++k) { one("x", k, project_vec(x[k], per, E)); one("y", k, project_vec(y[k], per, E)); }
        std::string o = guard::intact() ? rec.out : "corrupt";
        g_out += rec.b + ",\"out\":\"" + o + "\",\"ret\":" + rec.ret + ",\"ch\":{" + ch + "}}\n";
    }
    template<class P, class R> static std::string ref(const P& r, const R& dst) { return static_cast<const void*>(&r) == static_cast<const void*>(&dst) ? "ok" : "WrongRef"; }
    template<class R> static bool same(const R& s, const R& t) { for (size_t i = 0; i < 4; ++i) if (!same_bits(s.data()[i], t.data()[i])) return false; return true; }
    static std::string mlit(const Vals<T>& p, size_t n, size_t mm) {   // row-major literal -> rows
        std::vector<std::string> rows; 
        for (size_t i = 0; i < n; ++i) { std::vector<std::string> r; for (size_t j = 0; j < mm; ++j) r.push_back(enc<T>(p.v[i * mm + j], 0)); rows.push_back(join(r)); }
        return join(rows);
    }

    void exec(const std::string& op, Line& l) override {
        Ev e(op);
        if (op == "par") run_par(*this, sh, l);
        else if (op == "loadm") {                      // loadm r kind n m <rows of the pattern, row-major>
            auto r = l.word(), kind = l.word(); size_t n = size_t(l.num()), mm = size_t(l.num());
            size_t pn = std::min(n, per), pm = std::min(mm, per);
            Vals<T> lit(l, pn * pm, 0);
            std::vector<T> full; full.reserve(n * mm);
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < mm; ++j) full.push_back(rescale(lit.v[(i % per) * pm + j % per], E));
            auto out = outcome([&] { onm(r, [&](auto& w) {
                using W = std::remove_cvref_t<decltype(w)>;
                const auto& f = full;
                if constexpr (std::is_same_v<W, D>) {
                    if (kind == "vec") w = D(n, mm, f);
                    else if (kind == "depr") w = D(f, n, mm);
                    else if (kind == "init" && f.size() <= 6) {
                        switch (f.size()) {
                            case 0: w = D(n, mm, std::initializer_list<T>{}); break;
                            case 1: w = D(n, mm, {f[0]}); break;
                            case 2: w = D(n, mm, {f[0], f[1]}); break;
                            case 3: w = D(n, mm, {f[0], f[1], f[2]}); break;
                            case 4: w = D(n, mm, {f[0], f[1], f[2], f[3]}); break;
                            case 5: w = D(n, mm, {f[0], f[1], f[2], f[3], f[4]}); break;
                            case 6: w = D(n, mm, {f[0], f[1], f[2], f[3], f[4], f[5]}); break;
                        }
                    }
                    else {
                        w = D::uninit(n, mm);
                        if (w.shape() != std::pair<size_t, size_t>(n, mm)) throw std::runtime_error("shape");
                        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < mm; ++j) {
                            size_t k = i * mm + j;
                            switch (k % 4) { case 0: w(i, j) = f[k]; break; case 1: w.mut_at(i, j) = f[k]; break; case 2: w.data()[k] = f[k]; break; default: *(w.begin() + long(k)) = f[k]; }
                        }
                    }
                } else {
                    constexpr size_t SN = is_sized_mat<W>::n, SM = is_sized_mat<W>::m;
                    if (kind == "vec" || kind == "depr") w = W(f);
                    else if (kind == "init" && f.size() <= 6) {
                        switch (f.size()) {
                            case 0: w = W(std::initializer_list<T>{}); break;
                            case 1: w = W(std::initializer_list<T>{f[0]}); break;
                            case 2: w = W({f[0], f[1]}); break;
                            case 3: w = W({f[0], f[1], f[2]}); break;
                            case 4: w = W({f[0], f[1], f[2], f[3]}); break;
                            case 5: w = W({f[0], f[1], f[2], f[3], f[4]}); break;
                            case 6: w = W({f[0], f[1], f[2], f[3], f[4], f[5]}); break;
                        }
                    }
                    else if (kind == "arr") { std::array<T, SN * SM> t; for (size_t i = 0; i < SN * SM; ++i) t[i] = f.at(i); w = W(t); }
                    else if (kind == "init") w = W(f);
                    else {
                        w = W::uninit();
                        for (size_t i = 0; i < SN; ++i) for (size_t j = 0; j < SM; ++j) {
                            size_t k = i * SM + j;
                            switch (k % 4) { case 0: w(i, j) = f.at(k); break; case 1: w.mut_at(i, j) = f.at(k); break; case 2: w.data()[k] = f.at(k); break; default: *(w.begin() + long(k)) = f.at(k); }
                        }
                    }
                }
            }); });
            e.s("r", r).i("n", long(n)).i("m", long(mm)).raw("p", mlit(lit, pn, pm)); log(e, out);
        }
        else if (op == "loadv") {                 // loadv r n <pattern>
            auto r = l.word(); size_t n = size_t(l.num()); Vals<T> p(l, std::min(n, per), E);
            std::vector<T> full = n ? expand(p.v, n) : std::vector<T>();
            auto out = outcome([&] { onv(r, [&](auto& w) { using W = std::remove_cvref_t<decltype(w)>; const auto& f = full; w = W(f); }); });
            e.s("r", r).i("n", long(n)).raw("p", p.lit); log(e, out);
        }
        else if (op == "fillm") {                 // fillm r n m value
            auto r = l.word(); size_t n = size_t(l.num()), mm = size_t(l.num()); Scalar<T> s(l, E);
            auto out = outcome([&] { onm(r, [&](auto& w) { using W = std::remove_cvref_t<decltype(w)>; if constexpr (std::is_same_v<W, D>) w = D::filled(s.v, n, mm); else w = W::filled(s.v); }); });
            e.s("r", r).i("n", long(n)).i("m", long(mm)).raw("al", s.lit); log(e, out);
        }
        else if (op == "diagv") {                 // diagv r n <values>
            auto r = l.word(); size_t n = size_t(l.num()); Vals<T> p(l, n, E);
            auto out = outcome([&] { onm(r, [&](auto& w) { using W = std::remove_cvref_t<decltype(w)>;
                if constexpr (std::is_same_v<W, D>) { const auto& f = p.v; w = D::diag(f); }
                else if constexpr (is_sized_mat<W>::n == is_sized_mat<W>::m) { std::array<T, is_sized_mat<W>::n> t; for (size_t i = 0; i < t.size(); ++i) t[i] = p.v.at(i); w = W::diag(t); }
                else bad_script("square"); }); });
            e.s("r", r).i("n", long(n)).raw("p", p.lit); log(e, out);
        }
        else if (op == "diags") {                 // diags r n value
            auto r = l.word(); size_t n = size_t(l.num()); Scalar<T> s(l, E);
            auto out = outcome([&] { onm(r, [&](auto& w) { using W = std::remove_cvref_t<decltype(w)>;
                if constexpr (std::is_same_v<W, D>) w = D::diag(s.v, n);
                else if constexpr (is_sized_mat<W>::n == is_sized_mat<W>::m) w = W::diag(s.v); else bad_script("square"); }); });
            e.s("r", r).i("n", long(n)).raw("al", s.lit); log(e, out);
        }
        else if (op == "ident") {                 // ident r n   (exponent 0)
            auto r = l.word(); size_t n = size_t(l.num()); if (E) bad_script("exponent");
            auto out = outcome([&] { onm(r, [&](auto& w) { using W = std::remove_cvref_t<decltype(w)>;
                if constexpr (std::is_same_v<W, D>) w = D::identity(n);
                else if constexpr (is_sized_mat<W>::n == is_sized_mat<W>::m) w = W::identity(); else bad_script("square"); }); });
            e.s("r", r).i("n", long(n)); log(e, out);
        }
        else if (op == "copym" || op == "assignm" || op == "movem" || op == "swapm") {
            auto r = l.word(), s = l.word();
            auto out = outcome([&] { onm(r, [&](auto& w) { onm(s, [&](auto& u) {
                using W = std::remove_cvref_t<decltype(w)>; using U = std::remove_cvref_t<decltype(u)>;
                if constexpr (std::is_same_v<W, U>) {
                    if (op == "copym") { const U& cu = u; W t(cu); std::destroy_at(&w); std::construct_at(&w, t); }
                    else if (op == "assignm") { const U& cu = u; w = cu; }
                    else if (op == "movem") { W t(std::move(u)); if constexpr (std::is_same_v<W, D>) { u = D::filled(z(), 0, 0); } w = std::move(t); }
                    else std::swap(w, u);
                } else bad_script("kinds");
            }); }); });
            e.s("r", r).s("a", s); log(e, out);
        }
        else if (op == "setm") {                  // setm r via i j value
            auto r = l.word(), via = l.word(); size_t i = size_t(l.num()), j = size_t(l.num()); Scalar<T> s(l, E);
            auto out = outcome([&] { onm(r, [&](auto& w) {
                size_t k = i * w.shape().second + j;
                if (via == "op") w(i, j) = s.v; else if (via == "mut") w.mut_at(i, j) = s.v; else if (via == "data") w.data()[k] = s.v;
                else if (via == "iter") *(w.begin() + long(k)) = s.v; else if (via == "rev") *(w.end() - long(w.shape().first * w.shape().second - k)) = s.v; else bad_script("via");
            }); });
            e.s("r", r).i("i", long(i)).i("j", long(j)).raw("al", s.lit); log(e, out);
        }
        else if (op == "getm") {                  // getm r i j
            auto r = l.word(); size_t i = size_t(l.num()), j = size_t(l.num()); std::string ret = "[]";
            auto out = outcome([&] { onm(r, [&](auto& w) { const auto& cw = w; T s = cw(i, j), t = cw.at(i, j), u = w(i, j), f = w.mut_at(i, j); ret = "[" + enc<T>(s, E) + "," + enc<T>(t, E) + "," + enc<T>(u, E) + "," + enc<T>(f, E) + "]"; }); });
            e.s("r", r).i("i", long(i)).i("j", long(j)); log(e, out, ret);
        }
        else if (op == "addm" || op == "subm") {
            auto r = l.word(), s = l.word(), t = l.word(); std::string okr = "ok";
            auto out = outcome([&] { onp(r, [&](auto& w) { onp(s, [&](auto& u) { onp(t, [&](auto& k) {
                const auto& cu = u; const auto& ck = k;
                if constexpr (requires { add(cu, ck, w); }) { if (op == "addm") okr = ref(add(cu, ck, w), w); else okr = ref(sub(cu, ck, w), w); } else bad_script("overload");
            }); }); }); });
            e.s("r", r).s("a", s).s("b", t); log(e, out == "ok" ? okr : out);
        }
        else if (op == "opaddm" || op == "opsubm") {
            auto r = l.word(), s = l.word(), t = l.word();
            auto out = outcome([&] { onp(r, [&](auto& w) { onp(s, [&](auto& u) { onp(t, [&](auto& k) {
                using W = std::remove_cvref_t<decltype(w)>; using U = std::remove_cvref_t<decltype(u)>; using K = std::remove_cvref_t<decltype(k)>;
                const auto& cu = u; const auto& ck = k;
                if constexpr (std::is_same_v<W, U> && std::is_same_v<W, K>) { if (op == "opaddm") w = cu + ck; else w = cu - ck; } else bad_script("overload");
            }); }); }); });
            e.s("r", r).s("a", s).s("b", t); log(e, out);
        }
        else if (op == "scalem") {
            auto r = l.word(); Scalar<T> al(l, 0); std::string okr = "ok";
            auto out = outcome([&] { onm(r, [&](auto& w) { const T s = al.v; okr = ref(scale(s, w), w); }); });
            e.s("r", r).raw("al", al.lit); log(e, out == "ok" ? okr : out);
        }
        else if (op == "scalee") {                // scale by one of its own elements (exponent 0)
            auto r = l.word(); size_t i = size_t(l.num()), j = size_t(l.num()); std::string okr = "ok"; if (E) bad_script("exponent");
            auto out = outcome([&] { onm(r, [&](auto& w) { const auto& cw = w; okr = ref(scale(cw(i, j), w), w); }); });
            e.s("r", r).i("i", long(i)).i("j", long(j)); log(e, out == "ok" ? okr : out);
        }
        else if (op == "mulsm") {                 // r <- al * a
            auto r = l.word(); Scalar<T> al(l, 0); auto s = l.word();
            auto out = outcome([&] { onm(r, [&](auto& w) { onm(s, [&](auto& u) { const auto& cu = u; if constexpr (std::is_same_v<decltype(w), decltype(u)>) w = al.v * cu; else bad_script("kinds"); }); }); });
            e.s("r", r).raw("al", al.lit).s("a", s); log(e, out);
        }
        else if (op == "opnegm") {
            auto r = l.word(), s = l.word();
            auto out = outcome([&] { onm(r, [&](auto& w) { onm(s, [&](auto& u) { const auto& cu = u; if constexpr (!cplx<T> && std::is_same_v<decltype(w), decltype(u)>) w = -cu; else bad_script("kinds"); }); }); });
            e.s("r", r).s("a", s); log(e, out);
        }
        else if (op == "gemm") {                  // gemm r al a b be : r <- al*a*b + be*r (al carries 2^-E)
            auto r = l.word(); Scalar<T> al(l, -E); auto s = l.word(), t = l.word(); Scalar<T> be(l, 0); std::string okr = "ok";
            auto out = outcome([&] { onp(r, [&](auto& w) { onp(s, [&](auto& u) { onp(t, [&](auto& k) {
                const auto& cu = u; const auto& ck = k;
                if constexpr (requires { mul(al.v, cu, ck, be.v, w); }) okr = ref(mul(al.v, cu, ck, be.v, w), w); else bad_script("overload");
            }); }); }); });
            e.s("r", r).raw("al", al.lit).s("a", s).s("b", t).raw("be", be.lit); log(e, out == "ok" ? okr : out);
        }
        else if (op == "opmul") {                 // r <- a * b (exponent 0)
            auto r = l.word(), s = l.word(), t = l.word(); if (E) bad_script("exponent");
            auto out = outcome([&] { onp(r, [&](auto& w) { onp(s, [&](auto& u) { onp(t, [&](auto& k) {
                const auto& cu = u; const auto& ck = k;
                if constexpr (requires { { cu * ck } -> std::same_as<std::remove_cvref_t<decltype(w)>>; }) w = cu * ck; else bad_script("overload");
            }); }); }); });
            e.s("r", r).s("a", s).s("b", t); log(e, out);
        }
        else if (op == "gemv") {                  // gemv r al A x be : r <- al*A*x + be*r
            auto r = l.word(); Scalar<T> al(l, -E); auto s = l.word(), t = l.word(); Scalar<T> be(l, 0); std::string okr = "ok";
            auto out = outcome([&] { onv(r, [&](auto& w) { onp(s, [&](auto& u) { onv(t, [&](auto& k) {
                const auto& cu = u; const auto& ck = k;
                if constexpr (requires { mul(al.v, cu, ck, be.v, w); }) okr = ref(mul(al.v, cu, ck, be.v, w), w); else bad_script("overload");
            }); }); }); });
            e.s("r", r).raw("al", al.lit).s("a", s).s("b", t).raw("be", be.lit); log(e, out == "ok" ? okr : out);
        }
        else if (op == "opmulv") {
            auto r = l.word(), s = l.word(), t = l.word(); if (E) bad_script("exponent");
            auto out = outcome([&] { onv(r, [&](auto& w) { onp(s, [&](auto& u) { onv(t, [&](auto& k) {
                const auto& cu = u; const auto& ck = k;
                if constexpr (requires { { cu * ck } -> std::same_as<std::remove_cvref_t<decltype(w)>>; }) w = cu * ck; else bad_script("overload");
            }); }); }); });
            e.s("r", r).s("a", s).s("b", t); log(e, out);
        }
        else if (op == "inv") {                   // inv r kind a : to (invert(a,r)), self (invert(r), a = r), ret (r <- inverted(a))
            auto r = l.word(), kind = l.word(), s = l.word(); std::string okr = "ok";
            auto out = outcome([&] {
                Q& w = q[r.at(1) - '0']; Q& u = q[s.at(1) - '0']; const Q& cu = u;
                if (kind == "to") { Q t = invert(cu, w); if (!same(t, w)) okr = "WrongRet"; }
                else if (kind == "self") okr = ref(invert(w), w);
                else w = inverted(cu);
            });
            e.s("r", r).s("kind", kind).s("a", s); log(e, out == "ok" ? okr : out);
        }
        else if (op == "invr") {                  // invr kind a k : the inverse, rounded to multiples of 2^-k; a is restored
            auto kind = l.word(), s = l.word(); long k = l.num(); std::string ret;
            auto out = outcome([&] {
                const Q cu = q[s.at(1) - '0']; Q t = Q::filled(z());
                if (kind == "to") invert(cu, t); else if (kind == "self") { t = cu; invert(t); } else t = inverted(cu);
                std::vector<std::string> rs; for (size_t i = 0; i < 4; ++i) rs.push_back(encr<T>(t.data()[i], int(k) + E)); ret = join(rs);
            });
            e.s("a", s).i("k", k); log(e, out, ret);
        }
        else bad_script("op " + op);
    }
};

#ifndef SHAPES
#define SHAPES \
    SHAPE(2, 2, 2) SHAPE(3, 2, 2) SHAPE(2, 2, 3) SHAPE(2, 3, 4) SHAPE(5, 1, 3) SHAPE(1, 4, 1)
#endif

int main() {
    return run_script([] { return [m = std::unique_ptr<Base>()](Line& l) mutable {
        auto op = l.word();
        if (op == "reset") {                      // reset N L M per E
            size_t n = size_t(l.num()), ll = size_t(l.num()), mm = size_t(l.num()), per = size_t(l.num()); int e = int(l.num());
            m.reset();
#define SHAPE(N, L, M) if (n == N && ll == L && mm == M) m = std::make_unique<Machine<N, L, M>>(per, e);
            SHAPES
            if (!m) bad_script("shape");
            g_out += "{\"op\":\"reset\",\"N\":" + std::to_string(n) + ",\"L\":" + std::to_string(ll) + ",\"M\":" + std::to_string(mm) + ",\"per\":" + std::to_string(per) + ",\"E\":" + std::to_string(e) + "}\n";
            Line z(cplx<T> ? "v0 0" : "v0 0"); m->exec("loadv", z);
        }
        else { if (!m) bad_script("no reset"); m->exec(op, l); }
    }; });
}

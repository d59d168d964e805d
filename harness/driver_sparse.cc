// Conformance driver for the sparse matrix machine (spec/Sparse.tla): SpCooMat, SpMat (CSR) and their products.
//
// Registers: c0..c3 SpCooMat; s0..s2 SpMat; v0..v3 DynVec.
#include "common.hpp"
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "lalib/ops/sp_mat_ops.hpp"
#include <memory>
using namespace lalib;
using T = ELEM;

struct Machine {
    using C = SpCooMat<T>; using S = SpMat<T>; using V = DynVec<T>;
    C c[4]; S s[3]; V v[4];
    int E; size_t full; Shadow sh;
    // Coordinates of the script are multiplied by these (like values by 2^E): one history stands for every spread of the rows and columns.
    size_t KR, KC;
    Machine(int e, size_t f, size_t kr, size_t kc): E(e), full(f), KR(kr), KC(kc) {}

    static size_t spread(long i, size_t K) { return i < 0 || i > 1000000 ? size_t(i) : size_t(i) * K; }        // beyond a million: meant literally
    static long back(size_t a, size_t K) { return K == 1 ? idx(a) : a % K ? V_BIG : idx(a / K); }
    static long dim(size_t n, size_t K) { return K == 1 || n == 0 ? idx(n) : (n - 1) % K ? V_BIG : idx((n - 1) / K + 1); }
    static std::vector<size_t> spread(const std::vector<size_t>& w, size_t K) { std::vector<size_t> r; for (auto x : w) r.push_back(spread(long(x), K)); return r; }
    static std::vector<size_t> back(const std::vector<size_t>& w, size_t K) { std::vector<size_t> r; for (auto x : w) r.push_back(size_t(back(x, K))); return r; }
    // row pointers: KR - 1 empty rows between the rows of the script
    std::vector<size_t> spread_ptr(const std::vector<size_t>& w) const {
        if (w.size() < 2 || KR == 1) return w;
        std::vector<size_t> r{w[0]};
        for (size_t i = 1; i < w.size(); ++i) r.insert(r.end(), i + 1 < w.size() ? KR : 1, w[i]);
        return r;
    }
    std::vector<size_t> back_ptr(const std::vector<size_t>& w) const {
        if (w.size() < 2 || KR == 1) return w;
        std::vector<size_t> r{w[0]};
        if ((w.size() - 2) % KR) return {V_BIG};
        for (size_t i = 1; i < w.size(); i += KR) {
            for (size_t k = i; k < i + KR && k < w.size(); ++k) if (w[k] != w[i]) return {V_BIG};
            r.push_back(w[i]);
        }
        return r;
    }

    template<class F> void onm(const std::string& r, F&& f) {
        size_t k = size_t(r.at(1) - '0');
        if (r[0] == 'c' && k < 4) f(c[k]); else if (r[0] == 's' && k < 3) f(s[k]); else bad_script("register " + r);
    }
    V& vec(const std::string& r) { size_t k = size_t(r.at(1) - '0'); if (r[0] != 'v' || k > 3) bad_script("register " + r); return v[k]; }
    C& coo(const std::string& r) { size_t k = size_t(r.at(1) - '0'); if (r[0] != 'c' || k > 3) bad_script("register " + r); return c[k]; }
    S& csr(const std::string& r) { size_t k = size_t(r.at(1) - '0'); if (r[0] != 's' || k > 2) bad_script("register " + r); return s[k]; }

    static std::string sz(const std::vector<size_t>& w) { std::string r = "["; for (size_t i = 0; i < w.size(); ++i) { if (i) r += ","; r += std::to_string(idx(w[i])); } return r + "]"; }
    // what a matrix shows: shape, nnz, arrays, and for small ones every element by every path (one more row and column)
    template<class W> std::string project(W& w) {
        const W& cw = w;
        constexpr bool is_coo = std::is_same_v<W, C>;
        auto [nr, nc] = cw.shape();
        auto& val = cw.values();
        std::vector<std::string> vs; for (auto& x : val) vs.push_back(enc<T>(x, E));
        std::string b = "{\"nr\":" + std::to_string(dim(nr, KR)) + ",\"nc\":" + std::to_string(dim(nc, KC)) + ",\"nnz\":" + std::to_string(idx(cw.nnz())) + ",\"v\":" + join(vs);
        if constexpr (is_coo) b += ",\"r\":" + sz(back(cw.row_indices(), KR)); else b += ",\"r\":" + sz(back_ptr(cw.row_ptr()));
        b += ",\"c\":" + sz(back(cw.col_indices(), KC));
        std::vector<std::string> d, a;
        if (w.data() != val.data() && !val.empty()) d.push_back("[" + std::to_string(V_VIEW) + "]");
        else if (((KR == 1 && KC == 1) || nr + nc == 0) && nr <= full && nc <= full) {
            size_t rows = is_coo ? nr + 1 : nr, cols = nc + 1;
            std::vector<const T*> p, q; std::vector<std::string> as;
            for (size_t i = 0; i < rows; ++i) {
                std::vector<std::string> ar;
                for (size_t j = 0; j < cols; ++j) {
                    p.push_back(&cw(i, j)); q.push_back(&cw.at(i, j));
                    const T* m = nullptr;
                    auto o = outcome([&] { m = &w.mut_at(i, j); });
                    ar.push_back(o == "ok" ? (m == p.back() ? "1" : "8") : o == "out_of_range" ? "0" : "9");
                }
                a.push_back(join(ar));
            }
            poison_stack();
            for (size_t i = 0; i < rows; ++i) {
                std::vector<std::string> r;
                for (size_t j = 0; j < cols; ++j) { size_t k = i * cols + j; r.push_back(same_bits(*p[k], *q[k]) ? enc<T>(*p[k], E) : cplx<T> ? "[2000000006,0]" : std::to_string(V_VIEW)); }
                d.push_back(join(r));
            }
        }
        return b + ",\"d\":" + join(d) + ",\"a\":" + join(a) + "}";
    }
    size_t bits(const std::string&, const std::string& r) {
        size_t k = size_t(r.at(1) - '0');
        auto of = [](const auto& w) { return cksum(w.values().data(), w.values().size()) ^ cksum(w.col_indices().data(), w.col_indices().size()); };
        return r[0] == 'c' ? of(c[k]) : r[0] == 's' ? of(s[k]) : r[0] == 'v' ? cksum(v[k].data(), v[k].size()) : 0;
    }
    void log(Ev& e, const std::string& out, const std::string& ret = "[]") {
        Rec r{e.b, out, ret};
        if (g_par) *g_par = r; else write(r);
    }
    void write(const Rec& rec) {
        std::string ch; bool any = false;
        for (int k = 0; k < 4; ++k) ch += sh.diff("c" + std::to_string(k), project(c[k]), any);
        for (int k = 0; k < 3; ++k) ch += sh.diff("s" + std::to_string(k), project(s[k]), any);
        for (int k = 0; k < 4; ++k) {
            std::vector<std::string> p; for (auto& x : v[k]) p.push_back(enc<T>(x, E));
            ch += sh.diff("v" + std::to_string(k), join(p), any);
        }
        std::string o = guard::intact() ? rec.out : "corrupt";
        g_out += rec.b + ",\"out\":\"" + o + "\",\"ret\":" + rec.ret + ",\"ch\":{" + ch + "}}\n";
    }
    static std::vector<size_t> sizes(Line& l, size_t n) { std::vector<size_t> r; for (size_t i = 0; i < n; ++i) r.push_back(size_t(l.num())); return r; }
    template<class P, class R> static std::string ref(const P& r, const R& dst) { return static_cast<const void*>(&r) == static_cast<const void*>(&dst) ? "ok" : "WrongRef"; }

    void exec(const std::string& op, Line& l) {
        Ev e(op);
        if (op == "par") run_par(*this, sh, l);
        else if (op == "init") log(e, "ok");
        else if (op == "coo" || op == "csr") {       // coo r kind kv kr kc <values> <rows> <cols>; csr: rows are row pointers
            auto r = l.word(), kind = l.word(); size_t kv = size_t(l.num()), kr = size_t(l.num()), kc = size_t(l.num());
            Vals<T> val(l, kv, E); auto rows = sizes(l, kr), cols = sizes(l, kc);
            auto out = outcome([&] {
                auto a = val.v; auto b = op == "coo" ? spread(rows, KR) : spread_ptr(rows), d = spread(cols, KC);
                const auto &ca = a; const auto &cb = b, &cd = d;
                if (op == "coo") { if (kind == "move") { C t(std::move(a), std::move(b), std::move(d)); coo(r) = std::move(t); } else { C t(ca, cb, cd); coo(r) = t; } }
                else { if (kind == "move") { S t(std::move(a), std::move(b), std::move(d)); csr(r) = std::move(t); } else { S t(ca, cb, cd); csr(r) = t; } }
            });
            e.s("r", r).raw("v", val.lit).raw("rows", sz(rows)).raw("cols", sz(cols)); log(e, out);
        }
        else if (op == "unit") {                  // unit r n (exponent 0)
            auto r = l.word(); size_t n = size_t(l.num()); if (E || KR > 1 || KC > 1) bad_script("exponent");
            auto out = outcome([&] { if (r[0] == 'c') coo(r) = C::unit(n); else csr(r) = S::unit(n); });
            e.s("r", r).i("n", long(n)); log(e, out);
        }
        else if (op == "clear") {                 // clear r : default constructed
            auto r = l.word();
            auto out = outcome([&] { onm(r, [&](auto& w) { using W = std::remove_cvref_t<decltype(w)>; W t; w = std::move(t); }); });
            e.s("r", r); log(e, out);
        }
        else if (op == "vec") {                   // vec r n <values>
            auto r = l.word(); size_t n = size_t(l.num()); Vals<T> p(l, n, E);
            auto out = outcome([&] { V t(p.v); vec(r) = t; });
            e.s("r", r).raw("p", p.lit); log(e, out);
        }
        else if (op == "copy" || op == "assign" || op == "move") {
            auto r = l.word(), a = l.word();
            auto out = outcome([&] { onm(r, [&](auto& w) { onm(a, [&](auto& u) {
                using W = std::remove_cvref_t<decltype(w)>; using U = std::remove_cvref_t<decltype(u)>;
                if constexpr (std::is_same_v<W, U>) {
                    const U& cu = u;
                    if (op == "copy") { W t(cu); w = t; } else if (op == "assign") { if (static_cast<const void*>(&(w = cu)) != &w) throw 1; }
                    else { W t(std::move(u)); { U z; u = z; } w = std::move(t); }
                } else bad_script("kinds");
            }); }); });
            e.s("r", r).s("a", a); log(e, out);
        }
        else if (op == "conv") {                  // conv r a kind : CSR from COO, copying or from a temporary
            auto r = l.word(), a = l.word(), kind = l.word();
            auto out = outcome([&] {
                auto& u = coo(a); const C& cu = u;
                if (kind == "copy") { S t(cu); csr(r) = t; } else { C tmp(cu); S t(std::move(tmp)); csr(r) = std::move(t); }
            });
            e.s("r", r).s("a", a); log(e, out);
        }
        else if (op == "get") {                   // get r i j
            auto r = l.word(); size_t i = spread(l.num(), KR), j = spread(l.num(), KC); std::string ret = "[]";
            auto out = outcome([&] { onm(r, [&](auto& w) { const auto& cw = w; ret = "[" + enc<T>(cw(i, j), E) + "," + enc<T>(cw.at(i, j), E) + "]"; }); });
            e.s("r", r).i("i", back(i, KR)).i("j", back(j, KC)); log(e, out, ret);
        }
        else if (op == "set") {                   // set r i j value
            auto r = l.word(); size_t i = spread(l.num(), KR), j = spread(l.num(), KC); Scalar<T> x(l, E);
            auto out = outcome([&] { onm(r, [&](auto& w) { w.mut_at(i, j) = x.v; }); });
            e.s("r", r).i("i", back(i, KR)).i("j", back(j, KC)).raw("x", x.lit); log(e, out);
        }
        else if (op == "poke") {                  // poke r k value : through data()
            auto r = l.word(); size_t k = size_t(l.num()); Scalar<T> x(l, E);
            auto out = outcome([&] { onm(r, [&](auto& w) { w.data()[k] = x.v; }); });
            e.s("r", r).i("k", idx(k)).raw("x", x.lit); log(e, out);
        }
        else if (op == "reserve") {               // reserve r n
            auto r = l.word(); size_t n = size_t(l.num());
            auto out = outcome([&] { if (r[0] == 'c') coo(r).reserve(n); else csr(r).reserve(n, 2 * n); });
            e.s("r", r); log(e, out);
        }
        else if (op == "addas") {                 // addas r a : r += a
            auto r = l.word(), a = l.word(); std::string okr = "ok";
            auto out = outcome([&] { const C& ca = coo(a); okr = ref(coo(r) += ca, coo(r)); });
            e.s("r", r).s("a", a); log(e, out == "ok" ? okr : out);
        }
        else if (op == "add" || op == "sub") {    // r = a + b
            auto r = l.word(), a = l.word(), b = l.word();
            auto out = outcome([&] { const C &ca = coo(a), &cb = coo(b); 
                if (op == "add") coo(r) = ca + cb;
                else if constexpr (!cplx<T>) coo(r) = ca - cb; else bad_script("complex"); });
            e.s("r", r).s("a", a).s("b", b); log(e, out);
        }
        else if (op == "scale" || op == "scalee") {   // scale r alpha ; scalee r k : by its own k-th stored value (exponent 0)
            auto r = l.word(); std::string okr = "ok", out;
            if (op == "scale") {
                Scalar<T> al(l, 0); e.s("r", r).raw("al", al.lit);
                out = outcome([&] { onm(r, [&](auto& w) { okr = ref(scale(al.v, w), w); }); });
            } else {
                size_t k = size_t(l.num()); if (E) bad_script("exponent"); e.s("r", r).i("k", long(k));
                out = outcome([&] { onm(r, [&](auto& w) { okr = ref(scale(w.data()[k], w), w); }); });
            }
            log(e, out == "ok" ? okr : out);
        }
        else if (op == "muls" || op == "neg") {   // r = alpha * a ; r = -a
            auto r = l.word(); std::unique_ptr<Scalar<T>> al; if (op == "muls") al = std::make_unique<Scalar<T>>(l, 0); auto a = l.word();
            auto out = outcome([&] { onm(r, [&](auto& w) { onm(a, [&](auto& u) {
                using W = std::remove_cvref_t<decltype(w)>; using U = std::remove_cvref_t<decltype(u)>;
                if constexpr (std::is_same_v<W, U>) { const U& cu = u; if (al) w = al->v * cu; else if constexpr (!cplx<T>) w = -cu; else bad_script("complex"); } else bad_script("kinds");
            }); }); });
            e.s("r", r).s("a", a); if (al) e.raw("al", al->lit); log(e, out);
        }
        else if (op == "mulv") {                  // mulv y alpha A x beta
            if (KR > 1 || KC > 1) bad_script("spread");
            auto y = l.word(); Scalar<T> al(l, 0); auto a = l.word(), x = l.word(); Scalar<T> be(l, 0); std::string okr = "ok";
            auto out = outcome([&] { const S& m = csr(a); const V& cx = vec(x); okr = ref(mul(rescale(al.v, -E), m, cx, be.v, vec(y)), vec(y)); });
            e.s("y", y).raw("al", al.lit).s("a", a).s("x", x).raw("be", be.lit); log(e, out == "ok" ? okr : out);
        }
        else if (op == "opmulv") {                // y = A x (exponent 0)
            auto y = l.word(), a = l.word(), x = l.word(); if (E || KR > 1 || KC > 1) bad_script("exponent");
            auto out = outcome([&] { const S& m = csr(a); const V& cx = vec(x); vec(y) = m * cx; });
            e.s("y", y).s("a", a).s("x", x); log(e, out);
        }
        else bad_script("unknown call " + op);
    }
};

int main() {
    return run_script([] { return [m = std::unique_ptr<Machine>()](Line& l) mutable {
        auto op = l.word();
        if (op == "reset") {                      // reset E full [KR KC] : full is the largest dimension shown element by element
            long e = l.num(), f = l.num(), kr = l.more() ? l.num() : 1, kc = l.more() ? l.num() : 1;
            if ((kr > 1 || kc > 1) && f) bad_script("full");
            m.reset(); m = std::make_unique<Machine>(int(e), size_t(f), size_t(kr), size_t(kc));
            g_out += "{\"op\":\"reset\",\"E\":" + std::to_string(e) + ",\"full\":" + std::to_string(f) + "}\n";
            Line li("init"); li.word(); m->exec("init", li);
        } else { if (!m) bad_script("no reset"); m->exec(op, l); }
    }; });
}

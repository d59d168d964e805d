// Shared part of the conformance drivers: value encoding, event log, heap guards, crash/hang reporting.
//
// A driver interprets a script (one call of lalib's public API per line) on named registers holding real
// lalib objects, and writes one JSON event per line: the call, its outcome, and the registers that changed.
// Only the public API is used; nothing in /repo is instrumented.
#pragma once
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <unistd.h>
#include <sys/mman.h>
#include <mutex>
#include <atomic>
#include <thread>
#include <memory>
#include "lalib/err/error.hpp"

#ifndef ELEM
#define ELEM double
#endif

// ---------------------------------------------------------------- heap guards
// Every allocation made through operator new gets red zones filled with 0xFF (NaN for float and double, a huge
// index for size_t) and is itself poisoned with 0xFF: reading outside an object or reading storage nobody wrote
// shows up as a value no specification produces, writing outside one is found by guard_intact().
namespace guard {
struct Head { Head* prev; Head* next; size_t size; size_t magic; size_t id; };
// With MEM=1 the blocks that calls of the library acquire and release are recorded (see run_mem).
inline bool recording = false;
inline thread_local bool in_call = false;
inline size_t next_id = 1, ngot = 0, nput = 0;
inline size_t got[1 << 16], gave[1 << 16];
struct InCall { bool was = in_call; InCall() { in_call = true; } ~InCall() { in_call = was; } };
constexpr size_t Z = 256;                 // red zone bytes on each side
inline Head ring{&ring, &ring, 0, 0};
inline std::mutex& mtx() { static std::mutex m; return m; }
constexpr size_t HS = (sizeof(Head) + 63) / 64 * 64;
inline bool zone_ok(const unsigned char* p, size_t n) {
    const uint64_t* q = reinterpret_cast<const uint64_t*>(p);
    size_t w = n / 8;
    for (size_t i = 0; i < w; ++i) if (q[i] != ~uint64_t(0)) return false;
    return true;
}
inline bool block_ok(const Head* h) {
    auto base = reinterpret_cast<const unsigned char*>(h) + HS;
    if (!zone_ok(base, Z)) return false;
    auto tail = base + Z + h->size;
    for (size_t i = 0; i < Z; ++i) if (tail[i] != 0xFF) return false;
    return true;
}
inline bool corrupted = false;
inline void* get(size_t n) {
    void* raw = nullptr;
    if (n > (size_t(1) << 36)) throw std::bad_alloc();
    if (posix_memalign(&raw, 64, HS + Z + n + Z)) throw std::bad_alloc();
    std::memset(static_cast<unsigned char*>(raw) + HS, 0xFF, Z + n + Z);
    auto h = static_cast<Head*>(raw);
    std::lock_guard<std::mutex> l(mtx());
    h->id = recording && in_call ? next_id++ : 0;
    if (h->id && ngot < (1 << 16)) got[ngot++] = h->id;
    h->size = n; h->magic = 0x6c616c6962ull; h->next = ring.next; h->prev = &ring; ring.next->prev = h; ring.next = h;
    return static_cast<unsigned char*>(raw) + HS + Z;
}
inline void put(void* p) {
    if (!p) return;
    auto h = reinterpret_cast<Head*>(static_cast<unsigned char*>(p) - Z - HS);
    if (h->magic != 0x6c616c6962ull) { std::abort(); }       // not ours, or freed twice
    {
        std::lock_guard<std::mutex> l(mtx());
        if (!block_ok(h)) corrupted = true;
        if (h->id && recording && nput < (1 << 16)) gave[nput++] = h->id;
        h->magic = 0; h->prev->next = h->next; h->next->prev = h->prev;
    }
    std::memset(static_cast<unsigned char*>(p), 0xFF, h->size);
    std::free(h);
}
inline bool intact() {
    std::lock_guard<std::mutex> l(mtx());
    for (auto h = ring.next; h != &ring; h = h->next) if (!block_ok(h)) return false;
    return !corrupted;
}
}
#ifndef NO_GUARD                           // the sanitizers bring an allocator of their own
void* operator new(size_t n) { return guard::get(n); }
void* operator new[](size_t n) { return guard::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return guard::get(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return guard::get(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { guard::put(p); }
void operator delete[](void* p) noexcept { guard::put(p); }
void operator delete(void* p, size_t) noexcept { guard::put(p); }
void operator delete[](void* p, size_t) noexcept { guard::put(p); }
#endif

// ---------------------------------------------------------------- scalars
using std::size_t;
template<class T> struct is_cplx : std::false_type { using R = T; };
template<class T> struct is_cplx<std::complex<T>> : std::true_type { using R = T; };
template<class T> constexpr bool cplx = is_cplx<T>::value;
template<class T> using Real = typename is_cplx<T>::R;

// Values no specification ever produces (TLC integers are 32 bit; histories keep |value| < 2^30).
constexpr long V_NAN = 2000000001, V_INF = 2000000002, V_FRAC = 2000000003, V_BIG = 2000000004, V_APERIODIC = 2000000005;

template<class R> long enc_real(R v, int e) {
    if (std::isnan(v)) return V_NAN;
    if (std::isinf(v)) return V_INF;
    R u = std::ldexp(v, -e);
    if (std::isinf(u) || std::fabs(u) > R(1073741824)) return V_BIG;
    if (u != std::floor(u)) return V_FRAC;
    if (v != R(0) && u == R(0)) return V_FRAC;
    return static_cast<long>(u);
}
// nearest integer of v * 2^k
template<class R> long enc_round(R v, int k) {
    if (std::isnan(v)) return V_NAN;
    if (std::isinf(v)) return V_INF;
    R u = std::ldexp(v, k);
    if (std::fabs(u) > R(1073741824)) return V_BIG;
    return std::lround(u);
}
template<class T> std::string enc(const T& v, int e) {
    if constexpr (cplx<T>) return "[" + std::to_string(enc_real(v.real(), e)) + "," + std::to_string(enc_real(v.imag(), e)) + "]";
    else return std::to_string(enc_real(v, e));
}
template<class T> std::string encr(const T& v, int k) {
    if constexpr (cplx<T>) return "[" + std::to_string(enc_round(v.real(), k)) + "," + std::to_string(enc_round(v.imag(), k)) + "]";
    else return std::to_string(enc_round(v, k));
}
template<class T> T mk(long re, long im, int e) {
    using R = Real<T>;
    if constexpr (cplx<T>) return T(std::ldexp(R(re), e), std::ldexp(R(im), e));
    else return std::ldexp(R(re), e);
}
template<class I> requires std::is_integral_v<I> inline I rescale(I v, int e) { if (e) std::abort(); return v; }
inline float rescale(float v, int e) { return std::ldexp(v, e); }
inline double rescale(double v, int e) { return std::ldexp(v, e); }
inline long double rescale(long double v, int e) { return std::ldexp(v, e); }
template<class R> std::complex<R> rescale(std::complex<R> v, int e) { return {std::ldexp(v.real(), e), std::ldexp(v.imag(), e)}; }
template<class T> bool same_bits(const T& a, const T& b) { return std::memcmp(&a, &b, std::min<size_t>(sizeof(T), std::is_same_v<Real<T>, long double> ? 10 : sizeof(T))) == 0; }

// ---------------------------------------------------------------- log
inline thread_local std::string g_out;
inline void flush_out() {
    const char* p = g_out.data(); size_t n = g_out.size();
    while (n) { ssize_t w = ::write(1, p, n); if (w <= 0) break; p += w; n -= size_t(w); }
    g_out.clear();
}
inline thread_local char g_call[4096];                                 // the call being executed, for crash reports
inline void die(const char* what) {
    flush_out();
    char buf[5000];
    int n = std::snprintf(buf, sizeof buf, "{\"op\":\"%s\",\"call\":\"%s\"}\n", what, g_call);
    if (n > 0) { [[maybe_unused]] auto w = ::write(1, buf, size_t(n)); }
    _exit(0);
}
inline void on_signal(int s) { die(s == SIGALRM ? "Hang" : "Crash"); }
inline unsigned g_limit = 60;                              // seconds a single call may take
inline void install_handlers() {
    static stack_t ss{};
    ss.ss_sp = mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 1 << 16;
    sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) {
        struct sigaction a{}; a.sa_handler = on_signal; a.sa_flags = SA_ONSTACK; sigaction(s, &a, nullptr);
    }
    if (const char* l = std::getenv("CALL_LIMIT")) g_limit = unsigned(std::atoi(l));
}

// ---------------------------------------------------------------- script
[[noreturn]] void bad_script(const std::string& why);
struct Line {
    std::vector<std::string> t; size_t k = 0;
    explicit Line(const std::string& s) { std::istringstream in(s); std::string x; while (in >> x) t.push_back(x); }
    bool empty() const { return t.empty(); }
    const std::string& word() { if (k >= t.size()) bad_script("missing token"); return t[k++]; }
    long num() { const auto& w = word(); char* e = nullptr; long v = std::strtol(w.c_str(), &e, 10); if (*e || w.empty()) bad_script("not a number: " + w); return v; }
    bool more() const { return k < t.size(); }
    template<class T> T val(int e) {
        long re = num(), im = 0; if constexpr (cplx<T>) im = num();
        return mk<T>(re, im, e);
    }
};

// Outcome of one call: the class of the exception, most derived first.
template<class F> std::string outcome(F&& f) {
    guard::InCall inside;
    try { f(); return "ok"; }
    catch (const lalib::vec_error::SizeMismatched&) { return "SizeMismatched"; }
    catch (const std::invalid_argument&) { return "invalid_argument"; }
    catch (const std::out_of_range&) { return "out_of_range"; }
    catch (const std::logic_error& e) { if (std::strncmp(e.what(), "script:", 7) == 0) { std::fprintf(stderr, "%s in: %s\n", e.what(), g_call); _exit(3); } return "logic_error"; }
    catch (const std::runtime_error&) { return "runtime_error"; }
    catch (const std::bad_alloc&) { return "bad_alloc"; }
    catch (const std::exception&) { return "exception"; }
    catch (...) { return "unknown"; }
}
[[noreturn]] inline void bad_script(const std::string& why) { flush_out(); std::fprintf(stderr, "bad script: %s in: %s\n", why.c_str(), g_call); _exit(3); }

// leave NaN patterns where the next call will put its locals
[[gnu::noinline]] inline void poison_stack() {
    volatile unsigned char b[1 << 16];
    std::memset(const_cast<unsigned char*>(b), 0xFF, sizeof b);
    asm volatile("" : : "r"(b) : "memory");
}

// With MEM=1 the log tells what every call acquires and releases instead: the whole script is worked through twice, so
// that whatever the library wants to keep for good (if anything) is there when the second, recorded pass begins.
template<class G, class C> int run_mem(G& make_machine, C& call) {
    std::vector<std::vector<std::string>> hist; std::string s, out;
    while (std::getline(std::cin, s)) { if (s.rfind("reset", 0) == 0) hist.emplace_back(); if (!hist.empty() && s.rfind("par ", 0)) hist.back().push_back(s); }
    auto list = [](const size_t* p, size_t n) { std::string r = "["; for (size_t i = 0; i < n; ++i) { if (i) r += ","; r += std::to_string(p[i]); } return r + "]"; };
    auto emit = [&](const char* op, const std::string& c) {
        out += std::string("{\"op\":\"") + op + "\",\"call\":\"" + c + "\",\"new\":" + list(guard::got, guard::ngot) + ",\"del\":" + list(guard::gave, guard::nput) + "}\n";
        guard::ngot = guard::nput = 0;
    };
    for (int pass = 0; pass < 2; ++pass) for (auto& h : hist) {
        auto f = std::make_unique<decltype(make_machine())>(make_machine());
        guard::recording = pass == 1; guard::next_id = 1; guard::ngot = guard::nput = 0;
        for (auto& c : h) {
            call(*f, c, true); g_out.clear();
            if (pass) emit(c.rfind("reset", 0) ? "call" : "begin", c.substr(0, c.find(' ')));
        }
        f.reset();
        if (pass) emit("end", "");
        guard::recording = false;
        if (out.size() > (1 << 20)) { g_out.swap(out); flush_out(); g_out.swap(out); }
    }
    g_out = out; flush_out();
    return 0;
}

// Read the script from stdin and hand every line to a machine made by `make_machine`.
// With CONC=k in the environment, k user threads each work through the whole script on a machine of their own, all at
// the same time and each starting at another history; the k logs are printed in the script's order, behind "#thread"
// lines: they must not differ from what one thread alone does.
template<class G> int run_script(G&& make_machine) {
    install_handlers();
    std::string s;
    std::ios::sync_with_stdio(false);
    auto call = [](auto& f, const std::string& text, bool timed) {
        if (text.empty() || text[0] == '#') return;
        size_t n = std::min(text.size(), sizeof g_call - 1);
        std::memcpy(g_call, text.data(), n); g_call[n] = 0;
        for (size_t i = 0; i < n; ++i) if (g_call[i] == '"' || g_call[i] == '\\') g_call[i] = '\'';
        Line l(text);
        if (l.empty()) return;
        if (timed) alarm(g_limit);
        poison_stack();
        f(l);
        if (timed) alarm(0);
    };
    if (std::getenv("MEM")) return run_mem(make_machine, call);
    const char* cc = std::getenv("CONC");
    if (!cc) {
        auto f = make_machine();
        while (std::getline(std::cin, s)) {
            call(f, s, true);
            if (g_out.size() > (1 << 20)) flush_out();
        }
        flush_out();
        return 0;
    }
    std::vector<std::vector<std::string>> hist;                // one per reset
    while (std::getline(std::cin, s)) { if (s.rfind("reset", 0) == 0) hist.emplace_back(); if (!hist.empty()) hist.back().push_back(s); }
    size_t k = size_t(std::atoi(cc)), n = hist.size();
    std::vector<std::vector<std::string>> logs(k, std::vector<std::string>(n));
    std::vector<std::thread> th;
    std::atomic<size_t> ready{0};
    alarm(g_limit * 4);
    auto user = [&](size_t t) {
        auto f = make_machine();
        ++ready; while (ready < k) std::this_thread::yield();
        for (size_t q = 0; q < n; ++q) {
            size_t h = (q + (t / 2) * n / k) % n;              // two by two, threads also do the same thing at the same time
            for (auto& c : hist[h]) call(f, c, false);
            logs[t][h].swap(g_out); g_out.clear();
        }
    };
    if (std::getenv("CONC_OMP")) {                             // the user's threads are those of an OpenMP parallel region
        #pragma omp parallel for schedule(static, 1) num_threads(int(k))
        for (size_t t = 0; t < k; ++t) user(t);
    }
    else {
        for (size_t t = 0; t < k; ++t) th.emplace_back(user, t);
        for (auto& w : th) w.join();
    }
    alarm(0);
    for (size_t t = 0; t < k; ++t) { g_out += "#thread\n"; for (auto& x : logs[t]) { g_out += x; if (g_out.size() > (1 << 20)) flush_out(); } }
    flush_out();
    return 0;
}

// ---------------------------------------------------------------- events
struct Ev {
    std::string b;
    explicit Ev(const std::string& op) { b = "{\"op\":\"" + op + "\""; }
    Ev& s(const char* k, const std::string& v) { b += ",\"" + std::string(k) + "\":\"" + v + "\""; return *this; }
    Ev& i(const char* k, long v) { b += ",\"" + std::string(k) + "\":" + std::to_string(v); return *this; }
    Ev& raw(const char* k, const std::string& v) { b += ",\"" + std::string(k) + "\":" + v; return *this; }
};
inline std::string join(const std::vector<std::string>& v) {
    std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += v[i]; } return r + "]";
}
template<class I> std::string ints(const std::vector<I>& v) {
    std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += std::to_string(v[i]); } return r + "]";
}
constexpr long V_VIEW = 2000000006;
// clamp an index-like value for the log
inline long idx(size_t v) { return v > 2000000000u ? V_BIG : long(v); }

// A list of values read from the script, kept with its literal spelling for the log.
template<class T> struct Vals {
    std::vector<T> v; std::string lit;
    Vals(Line& l, size_t n, int e) {
        std::vector<std::string> ls;
        for (size_t i = 0; i < n; ++i) {
            long re = l.num(), im = 0; if constexpr (cplx<T>) im = l.num();
            v.push_back(mk<T>(re, im, e));
            ls.push_back(cplx<T> ? "[" + std::to_string(re) + "," + std::to_string(im) + "]" : std::to_string(re));
        }
        lit = join(ls);
    }
};
template<class T> struct Scalar {
    T v; std::string lit;
    Scalar(Line& l, int e) { Vals<T> x(l, 1, e); v = x.v[0]; lit = x.lit.substr(1, x.lit.size() - 2); }
};

// What a vector-like object shows: its length and its elements (the first `per` of them when they repeat with
// period `per` up to the end, as they do in histories on very long vectors).
template<class V> std::string project_vec(V& v, size_t per, int e) {
    const V& c = v;
    size_t n = c.size();
    bool ok = size_t(v.end() - v.begin()) == n && size_t(c.end() - c.begin()) == n && size_t(c.cend() - c.cbegin()) == n && v.data() == c.data();
    size_t m = std::min(n, per);
    bool periodic = true;
    for (size_t i = 0; i < n && ok; ++i) {
        ok = &v[i] == v.data() + i && &c[i] == c.data() + i && &*(v.begin() + long(i)) == v.data() + i
          && &*(c.begin() + long(i)) == c.data() + i && &*(c.cbegin() + long(i)) == c.data() + i;
        if (i >= m && !(c[i] == c[i % per])) periodic = false;
    }
    std::vector<std::string> p;
    using T = std::remove_cvref_t<decltype(v[0])>;
    if (!ok) p.push_back(std::to_string(V_VIEW));
    else if (!periodic) p.push_back(std::to_string(V_APERIODIC));
    else for (size_t i = 0; i < m; ++i) p.push_back(enc<T>(c[i], e));
    return "{\"n\":" + std::to_string(idx(n)) + ",\"p\":" + join(p) + "}";
}
// element i of a periodic description
template<class T> std::vector<T> expand(const std::vector<T>& pat, size_t n) {
    std::vector<T> r; r.reserve(n);
    for (size_t i = 0; i < n; ++i) r.push_back(pat[i % pat.size()]);
    return r;
}
// Registers and what was last logged of them.
struct Shadow {
    std::map<std::string, std::string> last;
    std::string only;                          // if set: the one register to look at
    std::string diff(const std::string& name, const std::string& now, bool& any) {
        if (!only.empty() && name != only) return "";
        auto& l = last[name];
        if (l == now) return "";
        l = now; std::string r = (any ? "," : "") + std::string("\"") + name + "\":" + now; any = true; return r;
    }
};

template<class X> size_t cksum(const X* p, size_t n) {      // of the bits, 30 bits of it
    size_t h = 1469598103934665603ull; constexpr size_t w = std::is_same_v<X, long double> ? 10 : sizeof(X);
    for (size_t i = 0; i < n; ++i) for (size_t b = 0; b < w; ++b) h = (h ^ reinterpret_cast<const unsigned char*>(p + i)[b]) * 1099511628211ull;
    return (h ^ (h >> 31)) & 0x3fffffff;
}

// Calls made by several user threads at once: "par reps call ; call ; ...", every call over and over in a thread of its
// own. The calls write different registers and otherwise only read, so the log shows them one after another.
struct Rec { std::string b, out, ret; bool operator==(const Rec&) const = default; };
inline thread_local Rec* g_par = nullptr;
template<class M> void run_par(M& m, Shadow& sh, Line& l) {
    long reps = l.num();
    std::vector<std::vector<std::string>> calls(1);
    while (l.more()) { auto w = l.word(); if (w == ";") calls.emplace_back(); else calls.back().push_back(w); }
    size_t k = calls.size();
    std::vector<Rec> recs(k);
    std::vector<std::thread> th;
    std::atomic<size_t> ready{0};
    std::string whole = g_call;
    bool seq = std::getenv("SEQ");             // one after another instead: what the others must agree with
    auto work = [&](size_t i) {
        std::strncpy(g_call, whole.c_str(), sizeof g_call - 1);
        if (!seq) { ++ready; while (ready < k) std::this_thread::yield(); }
        size_t seen = 0;                      // bits of the destination: the same every time
        for (long q = 0; q < reps; ++q) {
            Line c(""); c.t = calls[i]; Rec r; g_par = &r;
            m.exec(c.word(), c);
            size_t b = 0;
            if constexpr (requires { m.bits(calls[i][0], calls[i][1]); }) b = m.bits(calls[i][0], calls[i].at(1));
            if (q && (!(r == recs[i]) || b != seen)) { r.out = "Unstable"; recs[i] = r; break; }
            recs[i] = r; seen = b;
        }
        g_par = nullptr;
    };
    if (seq) for (size_t i = 0; i < k; ++i) work(i);
    else for (size_t i = 0; i < k; ++i) th.emplace_back(work, i);
    for (auto& w : th) w.join();
    for (size_t i = 0; i < k; ++i) { sh.only = i + 1 < k ? calls[i].at(1) : ""; m.write(recs[i]); }
}

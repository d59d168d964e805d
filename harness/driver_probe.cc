// Conformance driver for the element-wise operations' schedule (spec/ParFor.tla): the element type records every read
// and write of an element of the operands, with the worker that did it, in the order in which they happened.
//
// Registers: three arrays 0..2, DynVec / SizedVec<16> / DynMat of one length, of element type Probe.
#include "common.hpp"
#include <atomic>
#include <mutex>
#include <random>
#include <omp.h>

namespace probe {
struct Access { int w, write, arr; long i; long v; int par; };
inline std::atomic<bool> on{false};
inline std::mutex mtx;
inline std::vector<Access> log;
struct Range { const char* lo; const char* hi; };
inline Range range[3];
inline size_t width;
inline std::map<std::thread::id, int> worker;
inline unsigned noise = 0;
inline bool where(const void* p, int& a, long& i) {
    auto q = static_cast<const char*>(p);
    for (a = 0; a < 3; ++a) if (q >= range[a].lo && q < range[a].hi) { i = long(size_t(q - range[a].lo) / width); return true; }
    return false;
}
inline void jitter() {
    static thread_local std::minstd_rand r{unsigned(std::hash<std::thread::id>{}(std::this_thread::get_id())) + noise};
    switch (r() % 16) { case 0: std::this_thread::yield(); break; case 1: for (volatile int k = 0; k < 2000; ++k) {} break; case 2: usleep(r() % 60); break; default: break; }
}
template<class F> void access(const void* p, bool write, F&& f) {
    int a; long i;
    if (!on || !where(p, a, i)) { f(); return; }
    if (noise) jitter();
    std::lock_guard<std::mutex> g(mtx);
    int par = omp_in_parallel();
    auto [it, fresh] = worker.try_emplace(std::this_thread::get_id(), int(worker.size()) + 1);
    long v = f();
    log.push_back({it->second, write, a, i, v, par});
}
}

struct Probe {
    long v = 0;
    Probe() = default;
    explicit Probe(long x): v(x) {}
    Probe(const Probe& o) { probe::access(&o, false, [&] { return v = o.v; }); }
    Probe& operator=(const Probe& o) { long x = o.get(); probe::access(this, true, [&] { return v = x; }); return *this; }
    long get() const { long x = 0; probe::access(this, false, [&] { return x = v; }); return x; }
    Probe operator-() const { return Probe(-get()); }
    Probe& operator+=(const Probe& o) { long x = o.get(), y = get(); probe::access(this, true, [&] { return v = y + x; }); return *this; }
    Probe& operator-=(const Probe& o) { long x = o.get(), y = get(); probe::access(this, true, [&] { return v = y - x; }); return *this; }
    Probe& operator*=(const Probe& o) { long x = o.get(), y = get(); probe::access(this, true, [&] { return v = y * x; }); return *this; }
    friend Probe operator+(const Probe& a, const Probe& b) { long x = a.get(); return Probe(x + b.get()); }
    friend Probe operator-(const Probe& a, const Probe& b) { long x = a.get(); return Probe(x - b.get()); }
    friend Probe operator*(const Probe& a, const Probe& b) { long x = a.get(); return Probe(x * b.get()); }
    friend bool operator==(const Probe& a, const Probe& b) { return a.get() == b.get(); }
};

#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
namespace lalib {
template<> struct Zero<Probe> { static Probe value() noexcept { return Probe(0); } };
template<> struct One<Probe> { static Probe value() noexcept { return Probe(1); } };
}
using namespace lalib;

struct Run {
    std::vector<long> mem[3];

    template<class W> void go(std::array<W, 3>& r, const std::string& op, int x, int y, int z, long al, Line&) {
        size_t n = mem[0].size();
        for (int k = 0; k < 3; ++k) for (size_t i = 0; i < n; ++i) r[k].data()[i].v = mem[k][i];
        for (int k = 0; k < 3; ++k) probe::range[k] = {reinterpret_cast<const char*>(r[k].data()), reinterpret_cast<const char*>(r[k].data() + n)};
        probe::width = sizeof(Probe); probe::log.clear(); probe::worker.clear(); probe::on = true;
        const Probe a(al); const W &cx = r[x], &cy = r[y];
        auto out = outcome([&] {
            if (op == "add") add(cx, cy, r[z]); else if (op == "sub") sub(cx, cy, r[z]);
            else if constexpr (requires { neg(cx, r[z]); }) {
                if (op == "neg") neg(cx, r[z]); else if (op == "scale") scale(a, r[z]); else if (op == "axpy") axpy(a, cx, r[z]); else bad_script("op");
            }
            else if (op == "scale") scale(a, r[z]); else bad_script("op");
        });
        probe::on = false;
        for (int k = 0; k < 3; ++k) { mem[k].clear(); for (size_t i = 0; i < n; ++i) mem[k].push_back(r[k].data()[i].v); }
        for (auto& q : probe::log)
            g_out += std::string("{\"op\":\"") + (q.write ? "write" : "read") + "\",\"w\":" + std::to_string(q.w) + ",\"arr\":" + std::to_string(q.arr) + ",\"i\":" + std::to_string(q.i)
                   + ",\"v\":" + std::to_string(q.v) + ",\"par\":" + (q.par ? "true" : "false") + "}\n";
        g_out += "{\"op\":\"end\",\"out\":\"" + (guard::intact() ? out : "corrupt") + "\",\"mem\":[" + ints(mem[0]) + "," + ints(mem[1]) + "," + ints(mem[2]) + "]}\n";
    }
    void exec(const std::string& op, Line& l) {
        if (op == "mem") {                    // mem n <3n values>
            size_t n = size_t(l.num());
            for (auto& m : mem) { m.clear(); for (size_t i = 0; i < n; ++i) m.push_back(l.num()); }
            g_out += "{\"op\":\"mem\",\"n\":" + std::to_string(n) + ",\"mem\":[" + ints(mem[0]) + "," + ints(mem[1]) + "," + ints(mem[2]) + "]}\n";
            return;
        }
        if (op != "call") bad_script("op");   // call kind op x y z al noise : z <- x op y, in arrays x, y, z
        auto kind = l.word(), what = l.word(); int x = int(l.num()), y = int(l.num()), z = int(l.num()); long al = l.num(); probe::noise = unsigned(l.num());
        if (x < 0 || x > 2 || y < 0 || y > 2 || z < 0 || z > 2) bad_script("array");
        g_out += "{\"op\":\"begin\",\"what\":\"" + what + "\",\"x\":" + std::to_string(x) + ",\"y\":" + std::to_string(y) + ",\"z\":" + std::to_string(z) + ",\"al\":" + std::to_string(al) + "}\n";
        size_t n = mem[0].size();
        if (kind == "dyn") { auto v = [&] { return DynVec<Probe>(std::vector<Probe>(n)); }; std::array<DynVec<Probe>, 3> r{v(), v(), v()}; go(r, what, x, y, z, al, l); }
        else if (kind == "sized") { if (n != 24) bad_script("size"); auto v = [&] { return SizedVec<Probe, 24>(std::vector<Probe>(24)); }; std::array<SizedVec<Probe, 24>, 3> r{v(), v(), v()}; go(r, what, x, y, z, al, l); }
        else if (kind == "mat") { if (n % 2) bad_script("size"); auto v = [&] { return DynMat<Probe>(n / 2, 2, std::vector<Probe>(n)); }; std::array<DynMat<Probe>, 3> r{v(), v(), v()}; go(r, what, x, y, z, al, l); }
        else bad_script("kind");
    }
};

int main() {
    return run_script([] { return [m = std::unique_ptr<Run>()](Line& l) mutable {
        auto op = l.word();
        if (op == "reset") { m = std::make_unique<Run>(); g_out += "{\"op\":\"reset\"}\n"; }
        else { if (!m) bad_script("no reset"); m->exec(op, l); }
    }; });
}

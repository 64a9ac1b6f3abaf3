// M05: threaded dense kernels under generated schedules.
#include "pbt.hpp"
#include "dnn/dlmath.hpp"
#include "betterthreads/task_manager.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>
const char* const PBT_RULE = "Generated sizes, values and accumulated gradients; the tasks of the threaded kernels run interleaved (each is a thread that hands over control at generated accesses to the numbers), or whole in a generated order at generated moments, or as real threads under the race detector, "
    "against the sequential kernels. Non-trivial: control changed hands inside a task, tasks ran out of order, or real threads ran.";
using namespace EdgeLearning; using BetterThreads::StubState; using BetterThreads::StubMode; typedef std::vector<double> Vec;
/// Runs tasks one at a time, switching at generated accesses.
struct Baton {
    pbt::Case* c = nullptr; std::mutex mu; std::condition_variable cv; size_t cur = 0, switches = 0; std::vector<char> alive; std::vector<std::thread::id> ids; bool on = false, broken = false; std::exception_ptr err;
    static Baton*& get() { static Baton* b = nullptr; return b; }
    static size_t& me() { static thread_local size_t i = size_t(-1); return i; }
    size_t draw(size_t n) { if (broken) return 0; try { return c->below(n); } catch (...) { err = std::current_exception(); broken = true; return 0; } }
    void wait(std::unique_lock<std::mutex>& l, size_t i) { cv.wait(l, [&] { return cur == i; }); }
    size_t next(bool leave) { std::vector<size_t> v; for (size_t i = 0; i < alive.size(); ++i) if (alive[i] && (leave ? true : i != me())) v.push_back(i); if (v.empty()) return alive.size(); return v[draw(v.size())]; }
    void yield() { size_t i = me(); if (!on || i == size_t(-1)) return; std::unique_lock<std::mutex> l(mu); if (draw(4) != 3) return; size_t n = next(false); if (n == alive.size()) return; ++switches; cur = n; cv.notify_all(); wait(l, i); }
    void run(std::vector<std::function<void()>> fs) {
        size_t n = fs.size(); alive.assign(n, 1); cur = n + 1; on = true; std::vector<std::thread> ts;
        for (size_t i = 0; i < n; ++i) ts.emplace_back([this, i, &fs] { me() = i; { std::unique_lock<std::mutex> l(mu); wait(l, i); } fs[i](); std::unique_lock<std::mutex> l(mu); alive[i] = 0; cur = next(true); cv.notify_all(); });
        { std::unique_lock<std::mutex> l(mu); cur = next(true); cv.notify_all(); } for (auto& t : ts) t.join(); on = false; if (err) std::rethrow_exception(err);
    }
};
/// A number whose every access is a possible point of preemption.
struct Y {
    double v = 0; static void y() { if (Baton::get()) Baton::get()->yield(); }
    Y() = default; Y(double d) : v(d) {} Y(int d) : v(d) {} Y(const Y& o) : v(o.v) { y(); }
    Y& operator=(const Y& o) { double t = o.v; y(); v = t; return *this; } Y& operator=(double d) { y(); v = d; return *this; } Y& operator=(int d) { y(); v = d; return *this; }
    Y& operator+=(const Y& o) { double t = v; y(); v = t + o.v; return *this; } Y& operator-=(const Y& o) { double t = v; y(); v = t - o.v; return *this; } Y& operator*=(const Y& o) { double t = v; y(); v = t * o.v; return *this; } Y& operator/=(const Y& o) { double t = v; y(); v = t / o.v; return *this; }
    friend Y operator+(const Y& a, const Y& b) { return Y(a.v + b.v); } friend Y operator-(const Y& a, const Y& b) { return Y(a.v - b.v); } friend Y operator*(const Y& a, const Y& b) { return Y(a.v * b.v); } friend Y operator/(const Y& a, const Y& b) { return Y(a.v / b.v); } Y operator-() const { return Y(-v); }
    friend bool operator==(const Y& a, const Y& b) { return a.v == b.v; } friend bool operator!=(const Y& a, const Y& b) { return a.v != b.v; } friend bool operator<(const Y& a, const Y& b) { return a.v < b.v; } friend bool operator>(const Y& a, const Y& b) { return a.v > b.v; } explicit operator double() const { return v; }
};
static bool same_bits(const Vec& a, const Vec& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false; return true; }
#define CHECK_SAME(c, a, b, ...) CHECK(c, same_bits(a, b), ##__VA_ARGS__)
static double val(double d) { return d; }
static double val(const Y& y) { return y.v; }
template <class T> static void run(pbt::Case& c, bool backward, size_t in, size_t out) {
    Vec src = c.nums(in, 2), w = c.nums(in * out, 2), b = c.nums(out, 2), g = c.nums(out, 2), wg = c.nums(in * out, 2), bg = c.nums(out, 2), ig = c.nums(in, 2), dst = c.nums(out, 2); c.note(backward ? "backward " : "forward ", in, "->", out, " input ", pbt::show(src), " weights ", pbt::show(w), " bias ", pbt::show(b));
    if (c.chance(1, 6)) { for (size_t k = c.small(1, 3); k-- > 0;) { Vec& v = *c.pick(std::vector<Vec*>{&src, &w, &b, &g}); v[c.below(v.size())] = c.pick(Vec{INFINITY, -INFINITY, NAN, 0.0, 0.0}); } c.label("non_finite"); }
    if (backward) c.note("gradients ", pbt::show(g), " accumulated ", pbt::show(wg), " ", pbt::show(bg));
    auto conv = [](const Vec& v) { return std::vector<T>(v.begin(), v.end()); }; auto back = [](const std::vector<T>& v) { Vec r; for (auto& x : v) r.push_back(val(x)); return r; };
    auto T_src = conv(src), T_w = conv(w), T_b = conv(b), T_g = conv(g), T_wg = conv(wg), T_bg = conv(bg), T_ig = conv(ig), T_dst = conv(dst);
    // Definition, with the sum of magnitudes as the scale of the tolerance.
    auto same = [&](const char* what, const Vec& got, const Vec& want, const Vec& scale) { for (size_t i = 0; i < want.size(); ++i) CHECK(c, !std::isfinite(want[i]) ? (std::isnan(want[i]) ? std::isnan(got[i]) : got[i] == want[i]) : std::fabs(got[i] - want[i]) <= 1e-12 * (scale[i] + 1), what, i, "is", got[i], "and sequentially", want[i]); };
    for (int rep = 0; rep < (backward ? 2 : 1); ++rep) {
        if (!backward) {
            Vec want(out), sc(out); DLMath::dense<double>(want.data(), src.data(), w.data(), b.data(), in, out); for (size_t i = 0; i < out; ++i) { sc[i] = std::fabs(b[i]); for (size_t j = 0; j < in; ++j) sc[i] += std::fabs(w[i * in + j] * src[j]); }
            T* r = DLMath::dense_thread_opt<T>(T_dst.data(), T_src.data(), T_w.data(), T_b.data(), in, out); CHECK(c, r == T_dst.data()); same("output", back(T_dst), want, sc);
        } else {
            Vec wi(in), ww = wg, wb = bg, si(in, 0.0), sw(in * out), sb(out); DLMath::dense_1<double>(wi.data(), ww.data(), wb.data(), g.data(), src.data(), w.data(), in, out);
            for (size_t i = 0; i < out; ++i) { sb[i] = std::fabs(bg[i]) + std::fabs(g[i]); for (size_t j = 0; j < in; ++j) { si[j] += std::fabs(g[i] * w[i * in + j]); sw[i * in + j] = std::fabs(wg[i * in + j]) + std::fabs(g[i] * src[j]); } }
            T* r = DLMath::dense_1_thread_opt<T>(T_ig.data(), T_wg.data(), T_bg.data(), T_g.data(), T_src.data(), T_w.data(), in, out); CHECK(c, r == T_ig.data());
            same("input gradient", back(T_ig), wi, si); same("weight gradient", back(T_wg), ww, sw); same("bias gradient", back(T_bg), wb, sb); wg = ww; bg = wb;
        }
        CHECK_SAME(c, back(T_src), src, "the input changed"); CHECK_SAME(c, back(T_w), w, "the weights changed"); CHECK_SAME(c, back(T_b), b); CHECK_SAME(c, back(T_g), g);
    }
    CHECK(c, StubState::get().pending.empty(), "the kernel returned before its tasks had run");
}
void property(pbt::Case& c) {
    auto& s = StubState::get(); s = StubState(); s.concurrency = c.chance(1, 8) ? c.small(9, 64) : c.small(1, 8); bool backward = c.chance(2, 3); size_t wide = c.chance(1, 10) ? 80 : 7, in = c.small(1, wide), out = c.small(1, wide), mode = c.weighted({4, 2, 2, 1}); c.label(backward ? "backward" : "forward"); c.label_if(in == 1, "one_input"); c.label_if(out == 1, "one_output"); c.label_if(mode != 0 && in > 32 && out > 32, "large");
    struct Reset { ~Reset() { Baton::get() = nullptr; StubState::get() = StubState(); } } reset;
    if (mode == 0) { bool many = c.chance(1, 25); in = std::min<size_t>(in, 4); out = many ? c.usize(60, 72) : std::min<size_t>(out, 4); if (many) { in = 1; c.label("many_tasks"); } Baton b; b.c = &c; Baton::get() = &b; s.mode = StubMode::Chosen; s.run_all = [&](std::vector<std::function<void()>> fs) { b.run(std::move(fs)); }; c.note("interleaved"); run<Y>(c, backward, in, out); c.label("interleaved"); c.label_if(b.switches > 0, "switched"); c.nontrivial(b.switches > 0); }
    else if (mode == 1) { s.mode = StubMode::Chosen; s.choose = [&](size_t n) { return c.below(n); }; c.note("whole tasks in a generated order"); run<double>(c, backward, in, out); c.label("chosen"); c.nontrivial(s.out_of_order > 0); }
    else if (mode == 2) { s.mode = StubMode::Threads; c.note("threads"); run<double>(c, backward, in, out); c.label("threads"); c.nontrivial(); }
    else { s.mode = StubMode::Eager; c.note("at once"); run<double>(c, backward, in, out); c.label("eager"); }
}

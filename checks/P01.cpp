// P01: a profile times exactly its calls, and its statistics and files are those of the times it took.
#include "pbt.hpp"
#include "../profile/profile.hpp"
#include <filesystem>
#include <fstream>
#include <iostream>
#include <thread>
namespace fs = std::filesystem;
const char* const PBT_RULE = "Histories of a stopwatch (waits, clicks, restarts, resets, dumps to new and existing files) at several resolutions, and of profiles run over generated functions, some of which fail, in new and existing directories; each time is bracketed by readings of the clock outside. "
    "Non-trivial: at least two recorded times.";
using Vec = std::vector<double>;
struct Capture { std::ostringstream os; std::streambuf* b; Capture() : b(std::cout.rdbuf(os.rdbuf())) {} ~Capture() { std::cout.rdbuf(b); } };
static std::vector<std::string> lines(const fs::path& p) { std::ifstream f(p); std::vector<std::string> r; std::string s; while (std::getline(f, s)) r.push_back(s); return r; }
static void write(const fs::path& p, const std::string& s) { std::ofstream(p) << s; }
static void pause(pbt::Case& c) {
    size_t kind = c.small(0, 5); auto t = std::chrono::steady_clock::now();
    if (kind == 0) return;
    auto d = kind == 5 ? std::chrono::microseconds(1000 + c.small(0, 700)) : std::chrono::microseconds(kind < 4 ? c.small(1, 9) : 150);
    c.label_if(kind == 5, "over_a_millisecond"); while (std::chrono::steady_clock::now() - t < d) {}
}
static double mean(const Vec& v) { long double s = 0; for (double x : v) s += x; return double(s / v.size()); }
static double deviation(const Vec& v) { long double m = mean(v), s = 0; for (double x : v) s += (x - m) * (x - m); return double(std::sqrt(s / v.size())); }
/// The middle of the sorted values, the lower one of the two if their number is even.
static double median(Vec v) { std::sort(v.begin(), v.end()); return v[(v.size() - 1) / 2]; }
template <class D> static void stopwatch(pbt::Case& c) {
    using W = Stopwatch<D>; using Clock = typename W::ResolutionType; using Steady = std::chrono::steady_clock;
    auto count = [](typename Clock::duration d) { return double(std::chrono::duration_cast<D>(d).count()); };
    auto since = Steady::now(); auto a0 = Clock::now(); W w; auto a1 = Clock::now(); Vec v; std::map<fs::path, std::vector<std::string>> files; size_t clicks = 0;
    CHECK_EQ(c, w.duration(), -1.0, "duration without a click");
    for (size_t n = c.small(2, 14); n; --n) switch (c.small(0, 7)) {
        case 0: case 1: case 2: case 3: { pause(c); auto b0 = Clock::now(); CHECK(c, &w.click() == &w, "click returns the stopwatch"); auto b1 = Clock::now(); v.push_back(w.duration()); ++clicks;
            // The clock may be set while this runs: then the bracket says nothing.
            auto drift = std::chrono::duration_cast<std::chrono::nanoseconds>((b1 - a0) - (Steady::now() - since)).count(); if (drift > 0 || drift < -500000000) { c.label("drift"); break; }
            CHECK(c, v.back() >= count(b0 - a1) && v.back() <= count(b1 - a0), "click after", count(b0 - a1), "to", count(b1 - a0), "gives", v.back()); break; }
        case 4: { since = Steady::now(); a0 = Clock::now(); CHECK(c, &w.restart() == &w, "restart returns the stopwatch"); a1 = Clock::now(); CHECK_EQ(c, w.duration(), v.empty() ? -1.0 : v.back(), "duration after a restart"); c.label("restarted"); break; }
        case 5: { since = Steady::now(); a0 = Clock::now(); w.reset(); a1 = Clock::now(); c.label_if(!v.empty(), "reset"); v.clear(); CHECK_EQ(c, w.duration(), -1.0, "duration after a reset"); break; }
        case 6: { fs::path p = fs::path(pbt::scratch()) / ("w" + std::to_string(c.small(0, 1))); bool fresh = !files.count(p); auto& f = files[p];
            if (fresh) { fs::remove(p); if (c.flip()) { write(p, "other\n3\n"); f = {"other", "3"}; fresh = false; c.label("existing_file"); } }
            std::string header = c.flip() ? "data" : "time [ns]"; if (fresh) f.push_back(header);
            if (header == "data") w.dump(p); else w.dump(p, header);
            for (double x : v) { std::ostringstream o; o << std::setprecision(17) << x; f.push_back(o.str()); }
            auto got = lines(p); CHECK_EQ(c, got.size(), f.size(), "lines of the dump"); for (size_t i = 0; i < got.size(); ++i) { bool number = i && f[i].find_first_not_of("0123456789.e+-") == std::string::npos; if (number) CHECK_EQ(c, std::stod(got[i]), std::stod(f[i]), "line", i, got[i]); else CHECK_EQ(c, got[i], f[i], "line", i); }
            c.label_if(v.size() > 1, "dumped"); break; }
        default: { bool t = false; try { w.dump(fs::path(pbt::scratch()) / "missing" / "f"); } catch (const std::runtime_error&) { t = true; } CHECK(c, t, "dump to a missing directory"); c.label("bad_path"); }
    }
    if (v.empty()) return;
    c.nontrivial(v.size() > 1); c.label_if(v.size() > 2 && v.size() % 2 == 0, "even"); c.label_if(v.size() > 2 && v.size() % 2, "odd");
    CHECK(c, pbt::near(w.mean(), mean(v), 1e-12, 1e-9), "mean of", pbt::show(v), "is", mean(v), "not", w.mean());
    CHECK(c, pbt::near(w.std(), deviation(v), 1e-9, 1e-6 * (1 + mean(v)) * 1e-6), "standard deviation of", pbt::show(v), "is", deviation(v), "not", w.std());
    CHECK_EQ(c, w.median(), median(v), "median of", pbt::show(v)); CHECK_EQ(c, w.duration(), v.back(), "last duration");
}
static double unit(const std::string& u) { return u == "ns" ? 1 : u == "us" ? 1e3 : u == "ms" ? 1e6 : u == "sec" ? 1e9 : u == "min" ? 6e10 : NAN; }
static void profile(pbt::Case& c) {
    fs::path root = fs::path(pbt::scratch()) / "p"; fs::remove_all(root); fs::create_directories(root); write(root / "file", "x");
    bool t = false; try { Profile bad(1, (root / "file").string()); } catch (const std::runtime_error&) { t = true; } CHECK(c, t, "a profile in a regular file");
    size_t tries = c.small(1, 7); fs::path dir = root / (c.flip() ? "a" : "a/b"); if (c.flip()) fs::create_directories(dir); else c.label("new_directory");
    Profile p(tries, dir.string()); CHECK(c, fs::is_directory(dir), "directory of the profile"); CHECK_EQ(c, p.num_tries(), tries);
    std::map<std::string, std::vector<std::string>> files;
    for (size_t n = c.small(1, 4); n; --n) {
        std::string name = c.flip() ? "one" : "two"; bool given = c.flip(); size_t runs = given ? c.small(1, 9) : tries; size_t fail = c.chance(1, 4) ? c.below(runs) : runs;
        using Clock = Stopwatch<Nanoseconds>::ResolutionType; using Steady = std::chrono::steady_clock; auto ns = [](auto d) { return double(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()); };
        std::vector<size_t> calls; std::vector<Clock::time_point> in, out; std::string text; bool threw = false;
        auto f = [&](size_t i) { calls.push_back(i); in.push_back(Clock::now()); pause(c); if (calls.size() > fail) throw std::logic_error("failed"); out.push_back(Clock::now()); };
        auto s0 = Steady::now(); auto tbegin = Clock::now(); auto s1 = Steady::now();
        { Capture k; try { if (given) p.profile("the message", f, runs, name); else p.profile("the message", f, name); } catch (const std::logic_error&) { threw = true; } text = k.os.str(); }
        auto s2 = Steady::now(); auto tend = Clock::now(); auto s3 = Steady::now();
        // The clock may be set while this runs: then its times say nothing.
        double passed = ns(tend - tbegin), slack = 1000 + 1e-3 * ns(s3 - s0); bool drifted = passed < ns(s2 - s1) - slack || passed > ns(s3 - s0) + slack;
        std::vector<size_t> want; for (size_t i = 0; i < std::min(runs, fail + 1); ++i) want.push_back(i);
        CHECK_EQ(c, calls, want, "calls of the function"); CHECK_EQ(c, threw, fail < runs, "the failure of the function"); auto got = lines(dir / (name + ".csv")); auto& old = files[name];
        if (threw) { CHECK_EQ(c, got, old, "file after a failure"); c.label("failed"); continue; }
        c.label_if(!old.empty(), "appended"); size_t before = old.empty() ? 1 : old.size(); CHECK_EQ(c, got.size(), before + runs, "lines of the file"); CHECK_EQ(c, got[0], std::string("time"), "heading"); for (size_t i = 0; i < old.size(); ++i) CHECK_EQ(c, got[i], old[i], "line", i, "after another run");
        old = got; Vec v; for (size_t i = before; i < got.size(); ++i) v.push_back(std::stod(got[i])); c.nontrivial(v.size() > 1);
        // Each time lies between what passed inside its call and what passed from the end of the call before to the start of the next one, on the same clock.
        if (drifted) c.label("drift"); else for (size_t i = 0; i < v.size(); ++i) {
            double least = ns(out[i] - in[i]), most = ns((i + 1 < v.size() ? in[i + 1] : tend) - (i ? out[i - 1] : tbegin));
            CHECK(c, v[i] >= least && v[i] <= most, "time", i, "is", v[i], "for a call of at least", least, "and at most", most);
        }
        CHECK(c, text.compare(0, 12, "the message\n") == 0, "text", text); std::string s = text.substr(12), w1, w2, w3, u1, u2, u3, done; double m, d, sd; std::istringstream is(s);
        CHECK(c, bool(is >> done >> w1 >> m >> u1 >> w2 >> d >> u2 >> w3 >> sd >> u3) && w1 == "mean:" && w2 == "median:" && w3 == "std:", "text", text);
        // Printed with six digits of the whole number of nanoseconds.
        auto as = [&](double shown, const std::string& u, double value) { return pbt::near(shown * unit(u), std::floor(value), 1e-5, 1.0); };
        CHECK(c, as(m, u1, mean(v)), "mean", m, u1, "of", pbt::show(v)); CHECK(c, as(d, u2, median(v)), "median", d, u2, "of", pbt::show(v)); CHECK(c, as(sd, u3, deviation(v)), "deviation", sd, u3, "of", pbt::show(v)); c.label(u1.c_str());
    }
    double lo = c.num(10), hi = lo + std::fabs(c.num(10)); for (int k = 0; k < 4; ++k) { double r = p.rnd().get(lo, hi); CHECK(c, r >= lo - 1e-9 && r <= hi + 1e-9, "random value", r, "for", lo, "to", hi); }
    fs::remove_all(root);
}
void property(pbt::Case& c) {
    switch (c.small(0, 4)) {
        case 0: stopwatch<Nanoseconds>(c); c.label("nanoseconds"); break;
        case 1: stopwatch<Microseconds>(c); c.label("microseconds"); break;
        case 2: stopwatch<Milliseconds>(c); c.label("milliseconds"); break;
        default: profile(c); c.label("profile");
    }
}

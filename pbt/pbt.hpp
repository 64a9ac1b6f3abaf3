/* Small property-based testing engine for the checks in /verif.
 *
 * A property is a function `void property(pbt::Case&)`.  Everything random is
 * drawn from the Case and recorded as a sequence of bounded choices, so a case
 * is a list of integers: it can be replayed, shrunk (structurally, by deleting
 * and lowering choices) and decoded from fuzzer bytes.  Cases run in forked
 * workers, so crashes, sanitizer reports, endless loops and runaway memory are
 * ordinary, shrinkable failures.
 */
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

enum class Mode { Generate, Replay, Bytes };

struct Span { uint32_t b, e; };

class Case {
public:
    Mode mode = Mode::Generate;
    uint64_t rng = 0;
    std::vector<uint64_t> in;          // Replay
    const uint8_t* bytes = nullptr;    // Bytes
    size_t nbytes = 0;
    size_t pos = 0;
    std::vector<uint64_t> out;         // choices made
    std::vector<Span> spans;
    bool is_nontrivial = false;
    std::vector<std::string> labels;
    std::string text;                  // human-readable description
    std::vector<std::pair<std::string, std::string>> known_hits;
    int tier = 0;                      // 0 quick, 1 thorough

    // hooks into the runner (live mirror of choices, known findings)
    uint64_t* live = nullptr;
    uint64_t* live_n = nullptr;
    size_t live_cap = 0;
    const std::set<std::string>* known = nullptr;

    static uint64_t mix(uint64_t& s) {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }

    /// Uniform in [0, n); n == 0 means the full 64-bit range. Shrinks to 0.
    uint64_t below(uint64_t n) {
        if (n == 1) return 0;
        uint64_t v = 0;
        switch (mode) {
            case Mode::Generate:
                v = mix(rng);
                if (n) v = static_cast<uint64_t>(
                    (static_cast<unsigned __int128>(v) * n) >> 64);
                break;
            case Mode::Replay:
                v = pos < in.size() ? in[pos] : 0;
                if (n && v >= n) v = n - 1;
                ++pos;
                break;
            case Mode::Bytes: {
                int w = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2
                      : n <= (1ULL << 32) ? 4 : 8;
                for (int i = 0; i < w; ++i)
                    v = (v << 8) | (pos < nbytes ? bytes[pos++] : 0);
                if (n) v %= n;
                break;
            }
        }
        out.push_back(v);
        if (live && *live_n < live_cap) live[(*live_n)++] = v;
        if (out.size() > 400000) throw Discard{};
        return v;
    }
    /// Integer in [lo, hi], shrinking towards lo.
    int64_t range(int64_t lo, int64_t hi) {
        return lo + static_cast<int64_t>(
            below(static_cast<uint64_t>(hi - lo) + 1));
    }
    size_t usize(size_t lo, size_t hi) { return lo + below(hi - lo + 1); }
    /// Size in [lo, hi] biased to small values.
    size_t small(size_t lo, size_t hi) {
        size_t d = hi - lo;
        switch (below(4)) {
            case 0: return lo + below(std::min<size_t>(d, 2) + 1);
            case 1: return lo + below(std::min<size_t>(d, 4) + 1);
            case 2: return lo + below(std::min<size_t>(d, 9) + 1);
            default: return lo + below(d + 1);
        }
    }
    bool flip() { return below(2) == 1; }
    bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    size_t weighted(std::initializer_list<unsigned> w) {
        uint64_t tot = 0; for (auto x : w) tot += x;
        uint64_t r = below(tot); size_t i = 0;
        for (auto x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
    template <class F> void span(F f) {
        uint32_t b = static_cast<uint32_t>(out.size()); f();
        spans.push_back({b, static_cast<uint32_t>(out.size())});
    }
    /// Calls f between lo and hi times; each element is one deletable span.
    template <class F> size_t repeat(size_t lo, size_t hi, F f) {
        size_t avg = 2 + small(0, hi > lo ? hi - lo : 0);
        size_t n = 0;
        while (n < hi) {
            uint32_t b = static_cast<uint32_t>(out.size());
            if (n >= lo && below(avg) == 0) break;   // shrinks towards stopping
            f();
            spans.push_back({b, static_cast<uint32_t>(out.size())});
            ++n;
        }
        return n;
    }

    // ---- generators
    /// "Ordinary" finite number: small integers, dyadics, uniform.
    double num(double mag = 2.0) {
        switch (weighted({3, 3, 5, 1})) {
            case 0: return static_cast<double>(range(0, 6)) - 3.0;
            case 1: return static_cast<double>(range(0, 64) - 32) / 8.0;
            case 2: {
                double u = static_cast<double>(below(1ULL << 40)) / static_cast<double>(1ULL << 40);
                return (2 * u - 1) * mag;
            }
            default: return 0.0;
        }
    }
    double uniform(double lo, double hi) {
        double u = static_cast<double>(below(1ULL << 40)) / static_cast<double>(1ULL << 40);
        return lo + (hi - lo) * u;
    }
    /// Any finite double, all exponents.
    double finite() {
        switch (weighted({4, 2, 2, 2})) {
            case 0: return num(1000);
            case 1: { // random mantissa, chosen exponent
                double m = 1.0 + static_cast<double>(below(1ULL << 52)) / static_cast<double>(1ULL << 52);
                int e = static_cast<int>(range(0, 80)) - 40;
                return (flip() ? -1 : 1) * std::ldexp(m, e);
            }
            case 2: {
                double m = 1.0 + static_cast<double>(below(1ULL << 52)) / static_cast<double>(1ULL << 52);
                int e = static_cast<int>(range(0, 2040)) - 1020;
                return (flip() ? -1 : 1) * std::ldexp(m, e);
            }
            default: {
                static const double sp[] = {0.0, 1.0, -1.0, 1e-7, -1e-7, 5e-324,
                    std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(),
                    std::numeric_limits<double>::min(), std::numeric_limits<double>::epsilon(),
                    0.1, 1.0 / 3.0, 123456789.123456789, 1e15, 1e16, 1e22, -0.0};
                return sp[below(sizeof sp / sizeof *sp)];
            }
        }
    }
    std::vector<double> nums(size_t n, double mag = 2.0) {
        std::vector<double> v(n); for (auto& x : v) x = num(mag); return v;
    }

    // ---- evidence
    void nontrivial(bool b = true) { if (b) is_nontrivial = true; }
    void label(const std::string& s) { labels.push_back(s); }
    void label_if(bool b, const std::string& s) { if (b) labels.push_back(s); }
    template <class... A> void note(const A&... a) {
        if (text.size() > 6000) return;
        std::ostringstream ss; ss.precision(17); (void)std::initializer_list<int>{((void)(ss << a), 0)...};
        text += ss.str(); text += '\n';
    }
    [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
    /// Report behaviour recorded as a known finding: tolerated only while `id`
    /// is listed in /verif/known_findings.json, otherwise a failure.
    void known_finding(const std::string& id, const std::string& what) {
        if (known && known->count(id)) { known_hits.emplace_back(id, what); return; }
        throw Failure{"[" + id + "] " + what};
    }
};

template <class T> std::string show(const T& v) {
    std::ostringstream ss; ss.precision(17); ss << v; return ss.str();
}
inline std::string show(const std::string& s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += static_cast<char>(ch); }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
        else r += static_cast<char>(ch);
        if (r.size() > 400) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
    }
    return r + "\"";
}
template <class T> std::string show(const std::vector<T>& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) {
        if (i) r += ", ";
        if (r.size() > 1500) { r += "...(" + std::to_string(v.size()) + ")"; break; }
        r += show(v[i]);
    }
    return r + "]";
}
inline std::string show(const std::vector<bool>& v) {
    std::string r = "["; for (bool b : v) r += b ? '1' : '0'; return r + "]";
}
template <class T> std::string show(const std::set<T>& v) {
    return show(std::vector<T>(v.begin(), v.end()));
}

inline bool same_double(double a, double b) {
    return a == b || (std::isnan(a) && std::isnan(b));
}
inline bool near(double a, double b, double rel = 1e-9, double abs_ = 1e-9) {
    if (a == b) return true;
    if (!std::isfinite(a) || !std::isfinite(b)) return same_double(a, b);
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK(c, cond, ...)                                                   \
    do { if (!(cond)) { std::ostringstream _ss; _ss.precision(17);           \
        _ss << "expected " #cond; pbt_msg(_ss, ##__VA_ARGS__);               \
        (c).fail(_ss.str()); } } while (0)
#define CHECK_EQ(c, a, b, ...)                                                \
    do { const auto _va = (a); const auto _vb = (b);                          \
        if (!(_va == _vb)) { std::ostringstream _ss; _ss.precision(17);      \
        _ss << #a " == " #b ": got " << pbt::show(_va) << ", expected "       \
            << pbt::show(_vb); pbt_msg(_ss, ##__VA_ARGS__);                   \
        (c).fail(_ss.str()); } } while (0)

template <class... A> void pbt_msg_(std::ostringstream& ss, const A&... a) {
    (void)std::initializer_list<int>{((void)(ss << " " << a), 0)...};
}

}  // namespace pbt

template <class... A> void pbt_msg(std::ostringstream& ss, const A&... a) {
    if (sizeof...(a)) ss << " --";
    pbt::pbt_msg_(ss, a...);
}

/// Scratch directory private to this worker (exists, removed by the driver).
namespace pbt { const std::string& scratch(); }

/// Supplied by each check.
void property(pbt::Case& c);
extern const char* const PBT_RULE;

#endif

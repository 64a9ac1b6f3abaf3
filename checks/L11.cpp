// L11: random draws, orders and initialisation distributions.
#include "pbt.hpp"
#include "dnn/dlmath.hpp"
#include <algorithm>
const char* const PBT_RULE = "Generated distribution kinds, centres, widths, bounds, orders and generator states (fresh, advanced, used by other draws in between); each sample against the stated distribution function by its largest distance, lag correlation and range, and against a second run from an equal generator. "
    "Non-trivial: a distribution of positive width, or an order of at least two numbers.";
using namespace EdgeLearning; typedef std::vector<double> Vec; typedef DLMath::ProbabilityDensityFunction PDF; typedef DLMath::InitializationFunction INIT;
static RneType gen(pbt::Case& c) { RneType g(c.flip() ? c.below(1000) : c.below(0)); if (c.chance(1, 3)) g.discard(c.below(700)); return g; }
/// Largest distance of the sample's distribution function from `F`; beyond 6/sqrt(n) by chance about once in 10^31.
template <class F> static void follows(pbt::Case& c, const char* what, Vec v, F f) {
    double n = double(v.size()), far = 0, m = 0, s = 0, lag = 0; for (double x : v) m += x / n; for (double x : v) s += (x - m) * (x - m) / n; for (size_t i = 0; i + 1 < v.size(); ++i) lag += (v[i] - m) * (v[i + 1] - m) / n;
    CHECK(c, !(s > 0) || std::fabs(lag / s) <= 8 / std::sqrt(n), what, "successive draws depend on each other: correlation", lag / s);
    std::sort(v.begin(), v.end()); for (size_t i = 0; i < v.size(); ++i) { double p = f(v[i]); far = std::max(far, std::max(std::fabs(p - double(i) / n), std::fabs(p - double(i + 1) / n))); }
    CHECK(c, far <= 6 / std::sqrt(n) + 1e-6, what, "the sample is", far, "away from the stated distribution,", v.size(), "draws, mean", m, "deviation", std::sqrt(s));
}
static void orders(pbt::Case& c) {
    size_t from = c.chance(1, 4) ? c.below(1000000) : c.small(0, 20), n = c.chance(1, 200) ? c.usize(3000, 300000) : c.chance(1, 10) ? c.small(20, 3000) : c.small(0, 12); c.label_if(n > 65536, "huge_order"); RneType g = gen(c), g2(g), g3(g); c.note("an order of ", n, " numbers from ", from);
    auto v = DLMath::unique_rand_sequence(from, from + n, g); { RneType other(g3); other.discard(3); DLMath::unique_rand_sequence(0, 5, other); } auto w = DLMath::unique_rand_sequence(from, from + n, g2);
    CHECK_EQ(c, std::vector<size_t>(v.begin(), v.end()), std::vector<size_t>(w.begin(), w.end()), "two orders from equal generators"); CHECK(c, g == g2); c.label_if(n > 100, "long_order");
    auto s = v; std::sort(s.begin(), s.end()); CHECK_EQ(c, s.size(), n); for (size_t i = 0; i < n; ++i) CHECK_EQ(c, size_t(s[i]), from + i, "number", i, "of the order, sorted"); c.label("order"); c.label_if(n == 0, "empty_order");
    if (n >= 30) { CHECK(c, !std::is_sorted(v.begin(), v.end()), "an order of", n, "numbers is the trivial one"); }
    if (n >= 400) { // Fixed numbers are about one, and every twentieth of the order has numbers from all over the range.
        size_t fixed = 0; for (size_t i = 0; i < n; ++i) fixed += size_t(v[i]) == from + i; CHECK(c, fixed <= 30, fixed, "of", n, "numbers are at their own position");
        size_t m = n / 20; for (size_t b = 0; b < 20; ++b) { double mean = 0, near = 0; for (size_t i = b * m; i < (b + 1) * m; ++i) { mean += double(v[i] - from) / double(m); near += size_t(v[i]) - from >= b * m && size_t(v[i]) - from < (b + 1) * m; }
            CHECK(c, std::fabs(mean - double(n - 1) / 2) <= 8 * double(n) / std::sqrt(12 * double(m)), "part", b, "of an order of", n, "numbers has the average", mean); CHECK(c, near <= double(m) / 20 + 8 * std::sqrt(double(m) / 20) + 8, near, "of the", m, "numbers of part", b, "come from that part of the range"); } }
    if (n >= 2 && n <= 6 && c.chance(1, 4)) {
        size_t N = 1500; std::vector<Vec> at(n, Vec(n, 0.0)); for (size_t t = 0; t < N; ++t) { auto o = DLMath::unique_rand_sequence(from, from + n, g); for (size_t i = 0; i < n; ++i) ++at[i][o[i] - from]; }
        double p = 1.0 / double(n), sd = std::sqrt(double(N) * p * (1 - p)); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) CHECK(c, std::fabs(at[i][k] - double(N) * p) <= 8 * sd + 10, "number", k, "came at position", i, at[i][k], "times in", N); c.label("positions");
    }
    c.nontrivial(n >= 2);
}
static void draws(pbt::Case& c) {
    double a = c.chance(1, 6) ? 0 : c.num(c.chance(1, 4) ? 1e4 : 3), w = c.chance(1, 20) ? 0 : std::fabs(c.num(c.chance(1, 4) ? 1e3 : 2)); size_t n = c.chance(1, 20) ? 4000 : 200 + c.below(600); int what = int(c.below(4)); bool normal = false; size_t in = 0;
    std::function<std::function<double(RneType&)>()> make;
    switch (what) {
        case 0: c.note("uniform around ", a, " width ", w); make = [&] { return c.flip() ? DLMath::uniform_pdf<double>(a, w) : DLMath::pdf<double>(a, w, PDF::UNIFORM); }; c.label("uniform"); break;
        case 1: normal = true; c.note("normal around ", a, " deviation ", w); if (w <= 0) w = 1; make = [&] { return c.flip() ? DLMath::normal_pdf<double>(a, w) : DLMath::pdf<double>(a, w, PDF::NORMAL); }; c.label("normal"); break;
        case 2: { double lo = a, hi = a + w; c.note("between ", lo, " and ", hi); make = [lo, hi] { return std::function<double(RneType&)>([lo, hi](RneType& g) { return DLMath::rand<double>(lo, hi, g); }); }; a = lo + (hi - lo) / 2; w = hi - lo; c.label("between"); break; }
        default: { normal = c.flip(); INIT i = c.flip() ? INIT::XAVIER : INIT::KAIMING; in = c.small(1, c.chance(1, 5) ? 5000 : 40); c.note("initialisation for ", in, " inputs ", i == INIT::XAVIER ? "xavier" : "kaiming", normal ? " normal" : " uniform"); a = 0; w = std::sqrt((i == INIT::XAVIER ? 1.0 : 2.0) / double(in));
            auto t = DLMath::initialization<double>(i, in); CHECK_EQ(c, std::get<0>(t), 0.0); CHECK(c, pbt::near(std::get<1>(t), w, 1e-12, 0), "scale of the initialisation", std::get<1>(t), "expected", w);
            auto ft = DLMath::initialization<float>(i, in); CHECK(c, std::fabs(double(std::get<1>(ft)) - w) <= 1e-6 * w && std::get<0>(ft) == 0);
            make = [i, in, normal] { return DLMath::initialization_pdf<double>(i, normal ? PDF::NORMAL : PDF::UNIFORM, in); }; c.label("initialisation"); break; }
    }
    RneType g = gen(c), g2(g); auto d = make(), d2 = make(); Vec v, u; for (size_t i = 0; i < n; ++i) v.push_back(d(g)); RneType o(g2); bool noise = c.flip();
    for (size_t i = 0; i < n; ++i) { if (noise && i % 7 == 0) { auto e = make(); e(o); } u.push_back(d2(g2)); }
    CHECK_EQ(c, v, u, "two samples from equal generators differ"); CHECK(c, g == g2, "equal draws left different generators"); c.label_if(noise, "other_draws");
    if (!normal) { double slack = 1e-12 * (std::fabs(a) + w); for (double x : v) CHECK(c, x >= a - w / 2 - slack && x <= a + w / 2 + slack, "the draw", x, "is outside", a - w / 2, a + w / 2); }
    if (w > 1e-9 * (std::fabs(a) + 1e-300)) { c.nontrivial(); if (normal) follows(c, "normal:", v, [&](double x) { return 0.5 * std::erfc(-(x - a) / w / std::sqrt(2.0)); }); else follows(c, "uniform:", v, [&](double x) { return std::min(1.0, std::max(0.0, (x - a) / w + 0.5)); }); }
    else c.label("no_width");
}
void property(pbt::Case& c) {
    switch (c.weighted({3, 4, 1})) { case 0: orders(c); break; case 1: draws(c); break;
        default: { bool t = false; int k = 2 + int(c.small(0, 90)); size_t n = 1 + c.below(9); try { if (c.flip()) DLMath::pdf<double>(0, 1, PDF(k)); else DLMath::initialization<double>(INIT(k), n); } catch (const std::exception&) { t = true; } CHECK(c, t, "the unknown kind", k, "was accepted"); c.label("unknown_kind"); break; } }
}

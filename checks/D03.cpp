// D03: sub-ranges and splits.
#include "data_gen.hpp"
const char* const PBT_RULE = "Generated data sets; ranges (inside, reversed, beyond the end), fractions (below 0, above 1, exact, tiny) for prefixes and splits. Non-trivial: the result is a proper non-empty part.";

// A fraction at, just below or just above a whole number of entries, or one as people write it.
static double sharp(pbt::Case& c, size_t n) {
    if (c.chance(1, 4)) return double(c.below(101)) / 100;
    double k = double(n ? c.below(n + 1) : 1) / double(n ? n : 2); c.label("sharp");
    switch (c.below(4)) { case 0: return k; case 1: return std::nextafter(k, c.flip() ? 2.0 : -1.0); default: return k * (1 + (c.flip() ? 1 : -1) * std::pow(10.0, -double(c.usize(8, 14)))); }
}
static void check_part(pbt::Case& c, const Dataset<double>& p, const Rows& r, size_t a, size_t b, const char* what) {
    Rows q; q.width = r.width; q.seq = r.seq; q.labels = r.labels; q.e.assign(r.e.begin() + long(a), r.e.begin() + long(b));
    q.cut(); check_rows(c, p, q, what);
    if (q.size()) { CHECK_EQ(c, idx(p.label_idx()), r.cols(true)); CHECK_EQ(c, idx(p.input_idx()), r.cols(false)); }
    for (size_t i = 0; i < q.size(); ++i) { CHECK_EQ(c, p.entry(i), q.e[i], what, i); CHECK_EQ(c, p.label(i), q.part(i, true), what, i); }
    CHECK(c, p.entry(q.size()).empty());
}
void property(pbt::Case& c) {
    Rows r; auto d = gen_data(c, r, 0, 60); size_t n = r.size();
    c.note("entries ", n, " width ", r.width, " sequence ", r.seq, " labels ", pbt::show(r.labels));
    auto before = d.data();
    size_t rounds = 1 + c.below(4);
    for (size_t k = 0; k < rounds; ++k) switch (c.below(4)) {
        case 0: {
            size_t a = c.below(n + 3), b = c.chance(1, 10) ? 1000000 + c.below(1000) : c.below(n + 4);
            c.note("subdata(", a, ", ", b, ")");
            bool threw = false; Dataset<double> p;
            try { p = d.subdata(a, b); } catch (const std::exception&) { threw = true; }
            if (a > b) { CHECK(c, threw, "a reversed range was accepted"); c.label("reversed"); break; }
            if (a > n) { if (!threw) CHECK(c, p.empty()); c.label("beyond"); break; }
            CHECK(c, !threw, "a valid range was rejected");
            check_part(c, p, r, a, std::min(b, n), "subdata"); c.nontrivial(a > 0 && b > a); c.label("range");
            break; }
        case 1: {   // prefix by fraction: the share of the entries, rounded down
            double f = c.chance(1, 6) ? c.num(3) : c.flip() ? sharp(c, n) : c.uniform(0, 1); c.note("subdata(", f, ")");
            auto p = d.subdata(f); double g = std::min(1.0, std::max(0.0, f)); size_t m = size_t(g * double(n));
            Rows q = r; q.e.resize(m); q.cut();
            check_part(c, p, r, 0, m, "prefix"); c.nontrivial(q.size() && q.size() < n); c.label("prefix");
            break; }
        default: {
            double f; switch (c.weighted({4, 3, 1, 1, 4})) { case 4: f = sharp(c, n); break; case 0: f = c.uniform(0, 1); break; case 1: f = n ? double(c.below(n + 1)) / double(n) : 0.5; break; case 2: f = c.num(5); break; default: f = c.flip() ? 0 : 1; }
            c.note("split(", f, ")");
            auto s = d.split(f); double g = std::min(1.0, std::max(0.0, f));
            size_t m = s.training_set.size(), t = s.testing_set.size();
            // Cut at a sequence boundary, at most the fraction, less than one sequence below.
            CHECK_EQ(c, m + t, n, "nothing lost"); 
            if (r.seq) CHECK_EQ(c, m % r.seq, size_t(0), "cut inside a sequence");
            double want = g * double(n), eps = 1e-9 * double(n + 1);
            CHECK(c, double(m) <= want + eps, "training share", m, "of", n, "above", f);
            CHECK(c, double(m) > want - double(r.seq) - eps || n == 0, "training share", m, "of", n, "too small for", f);
            check_part(c, s.training_set, r, 0, m, "training"); check_part(c, s.testing_set, r, m, n, "testing");
            c.nontrivial(m && t); c.label("split"); c.label_if(n == 0, "empty"); c.label_if(m && t && r.seq > 1, "split_sequences"); c.label_if(f < 0 || f > 1, "fraction_out_of_range");
        }
    }
    CHECK_EQ(c, d.data(), before, "the original data set changed");
    check_rows(c, d, r, "original");
}

// D06: min-max normalisation.
#include "data_gen.hpp"
const char* const PBT_RULE = "Generated data sets (constant columns, single entries, wide magnitudes); explicit bounds on all or chosen columns, equal bounds, and automatic bounds. Non-trivial: at least two different values in some column.";

void property(pbt::Case& c) {
    Rows r; auto d = gen_data(c, r, 0, 25); int style = static_cast<int>(c.below(4));
    std::vector<bool> cst(r.width);
    for (size_t k = 0; k < r.width; ++k) {
        cst[k] = c.chance(1, 5); double v0 = c.num(50), off = style == 1 ? c.num(1e6) : 0; 
        for (auto& e : r.e) e[k] = cst[k] ? v0 : style == 0 ? c.num(10) : style == 1 ? off + c.num(1) : style == 2 ? std::ldexp(c.num(1), static_cast<int>(c.range(-300, 300))) : e[k];
    }
    if (r.size()) d.data() = r.flat();
    auto& data = d.data(); Rows q = r;
    c.note("entries ", r.size(), " width ", r.width, " values ", pbt::show(r.flat()));
    if (c.below(2)) {
        double a = c.num(20), b = c.chance(1, 8) ? a : a + c.num(30); bool close = c.chance(1, 6);
        if (close) { a = c.flip() ? 0 : a; b = c.chance(1, 3) ? std::nextafter(a, c.flip() ? 100.0 : -100.0) : a + std::ldexp(c.num(1), -int(c.range(10, 60))); c.label_if(a != b, "close_bounds"); }
        else if (c.chance(1, 8)) { a = c.num(1e6); b = a + std::ldexp(c.num(1), int(c.range(0, 200))); c.label_if(a != b, "far_bounds"); }
        std::vector<SizeType> cols; 
        if (r.width && c.flip()) { std::set<size_t> s; size_t n = 1 + c.below(r.width); for (size_t i = 0; i < n; ++i) s.insert(c.below(r.width)); cols = {s.begin(), s.end()}; if (c.flip()) std::reverse(cols.begin(), cols.end()); c.label("some_columns"); }
        c.note("bounds ", a, " ", b, " columns ", pbt::show(cols));
        bool threw = false; try { d.min_max_normalization(a, b, cols); } catch (const std::exception&) { threw = true; }
        CHECK_EQ(c, threw, a == b, "equal bounds must be rejected, others accepted");
        if (threw) { CHECK_EQ(c, d.data(), r.flat(), "changed although rejected"); c.label("equal_bounds"); return; }
        for (size_t i = 0; i < r.size(); ++i) for (size_t k = 0; k < r.width; ++k) {
            bool in = cols.empty() || std::count(cols.begin(), cols.end(), k); double x = r.e[i][k], y = data[i * r.width + k];
            if (!in) CHECK_EQ(c, y, x, "column not chosen", k);
            else { double w = (x - a) / (b - a); CHECK(c, pbt::near(y, w, 1e-12, 1e-12 * std::max({1.0, std::fabs(a), std::fabs(x)}) / std::fabs(b - a)), "value", x, "became", y, "expected", w); }
        }
        c.label("explicit"); c.nontrivial(r.size() > 0);
    } else {
        d.min_max_normalization();
        for (size_t k = 0; k < r.width && r.size(); ++k) {
            double lo = r.e[0][k], hi = lo; for (auto& e : r.e) { lo = std::min(lo, e[k]); hi = std::max(hi, e[k]); }
            if (!std::isfinite(hi - lo)) continue;
            std::vector<size_t> by(r.size()); for (size_t i = 0; i < by.size(); ++i) by[i] = i;
            std::sort(by.begin(), by.end(), [&](size_t i, size_t j) { return r.e[i][k] < r.e[j][k]; });
            for (size_t i = 1; i < by.size(); ++i) { double x = r.e[by[i - 1]][k], x2 = r.e[by[i]][k], y = data[by[i - 1] * r.width + k], y2 = data[by[i] * r.width + k]; CHECK(c, x < x2 ? y <= y2 : y == y2, "order of", x, x2); }
            for (size_t i = 0; i < r.size(); ++i) {
                double x = r.e[i][k], y = data[i * r.width + k];
                CHECK(c, y >= 0 && y <= 1 + 1e-12, "value", x, "became", y);
                if (lo == hi) { c.label("constant_column"); continue; }
                if (x == lo) CHECK_EQ(c, y, 0.0, "the minimum"); if (x == hi) CHECK(c, pbt::near(y, 1.0, 1e-12, 0), "the maximum became", y);
                double w = (x - lo) / (hi - lo); CHECK(c, pbt::near(y, w, 1e-9, 1e-12), "value", x, "became", y, "expected", w);
                c.nontrivial();
            }
        }
        c.label("automatic"); c.label_if(r.size() == 1, "single_entry");
    }
    c.label_if(r.size() == 0, "empty");
    CHECK_EQ(c, size_t(d.size()), r.size()); CHECK_EQ(c, d.data().size(), r.flat().size()); CHECK_EQ(c, idx(d.label_idx()), r.cols(true));
}

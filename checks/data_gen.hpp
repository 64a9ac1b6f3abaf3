// Generated data sets with the rows they must hold (the reference).
#ifndef VERIF_DATA_GEN_HPP
#define VERIF_DATA_GEN_HPP
#include "pbt.hpp"
#include "data/dataset.hpp"
using namespace EdgeLearning;

struct Rows {                       // reference: whole entries, sequence length, labels
    std::vector<std::vector<double>> e;
    size_t width = 0, seq = 1;
    std::set<size_t> labels;
    size_t size() const { return e.size(); }
    void cut() {                    // longest prefix of whole sequences
        seq = std::min(seq, e.size());
        e.resize(seq ? e.size() / seq * seq : 0);
        std::set<size_t> l; for (auto x : labels) if (x < width) l.insert(x); labels = l;
    }
    std::vector<double> flat() const { std::vector<double> v; for (auto& r : e) v.insert(v.end(), r.begin(), r.end()); return v; }
    std::vector<double> row(size_t i) const { return i < e.size() ? e[i] : std::vector<double>(); }
    std::vector<double> part(size_t i, bool label) const {
        std::vector<double> v; if (i >= e.size()) return v;
        for (size_t k = 0; k < width; ++k) if ((labels.count(k) > 0) == label) v.push_back(e[i][k]);
        return v;
    }
    std::vector<size_t> cols(bool label) const { std::vector<size_t> v; for (size_t k = 0; k < width; ++k) if ((labels.count(k) > 0) == label) v.push_back(k); return v; }
};

inline std::vector<size_t> idx(const std::vector<SizeType>& v) { return {v.begin(), v.end()}; }

/// Values are distinct-ish so that misplacement shows.
inline double cell(pbt::Case& c, size_t k) { return c.chance(1, 6) ? c.num(100) : static_cast<double>(k) + 0.25; }

inline std::set<SizeType> gen_labels(pbt::Case& c, size_t width) {
    std::set<SizeType> l;
    switch (c.weighted({2, 2, 2, 2, 1})) {
        case 0: break;
        case 1: if (width) l.insert(width - 1); break;
        case 2: if (width) l.insert(c.below(width)); break;
        case 3: for (size_t k = 0; k < width; ++k) if (c.flip()) l.insert(k); break;
        default: for (size_t k = 0; k < width; ++k) l.insert(k); break;
    }
    if (c.chance(1, 5)) l.insert(width + c.below(5));
    return l;
}

/// A well-formed data set (width >= 1) of at most max entries.
inline Dataset<double> gen_fresh(pbt::Case& c, Rows& r, size_t lo, size_t max, bool with_labels, size_t maxw) {
    r.width = maxw > 100 ? c.usize(60, maxw) : c.small(1, maxw); size_t n = c.small(lo, max), k = 0;
    r.e.assign(n, {}); for (auto& v : r.e) for (size_t i = 0; i < r.width; ++i) v.push_back(cell(c, k++));
    r.seq = c.chance(1, 2) ? 1 : c.small(1, 6);
    auto l = with_labels ? gen_labels(c, r.width) : std::set<SizeType>();
    r.labels = {l.begin(), l.end()};
    size_t s = r.seq; auto f = r.flat();
    r.cut(); if (n == 0) { r.width = 0; r.seq = 0; r.labels.clear(); }
    if (n == 0) return Dataset<double>(std::vector<double>(), c.small(1, 4), s, l);
    if (c.flip()) return Dataset<double>(f, f.size() / n, s, l);
    std::vector<std::vector<double>> m; for (size_t i = 0; i < n; ++i) m.emplace_back(f.begin() + long(i * (f.size() / n)), f.begin() + long((i + 1) * (f.size() / n)));
    return Dataset<double>(m, s, l);
}

/// A data set with a past: re-sequenced, re-labelled, cut, joined with itself, copied, written to.
inline Dataset<double> gen_data(pbt::Case& c, Rows& r, size_t lo = 0, size_t max = 40, bool with_labels = true, size_t maxw = 6) {
    if (c.chance(1, 12)) { if (c.flip()) { max = std::max<size_t>(max, c.flip() ? 100 : 400); c.label("many_entries"); lo = max / 2; } else { maxw = 60; c.label("many_columns"); if (c.chance(1, 3)) { maxw = 300; max = std::max(lo, std::min<size_t>(max, 10)); c.label("hundreds_of_columns"); } } }
    auto d = gen_fresh(c, r, lo, max, with_labels, maxw);
    if (max > 25 && r.size() && r.width <= 6 && c.chance(1, 2500)) {   // more entries than sixteen bits count
        size_t n = 65530 + c.below(3000), k = r.size(); for (size_t i = k; i < n; ++i) { r.e.push_back(r.e[i % k]); r.e.back()[0] += double(i / k); }
        size_t s = r.seq; auto l = r.labels; r.cut(); d = Dataset<double>(r.flat(), r.width, s, {l.begin(), l.end()}); c.note("past: tiled to ", n, " entries"); c.label("huge");
    }
    size_t steps = c.chance(1, 2) ? 0 : c.below(4);
    for (size_t s = 0; s < steps && r.size(); ++s) {
        switch (c.below(with_labels ? 7 : 6)) {
            case 0: { size_t q = c.small(1, 6); d.sequence_size(q); r.seq = q; r.cut(); c.note("past: sequence length ", q); break; }
            case 1: { size_t a = c.below(r.size()), b = a + 1 + c.below(r.size() - a); if (b - a < lo) break; d = d.subdata(a, b); r.e = {r.e.begin() + long(a), r.e.begin() + long(b)}; r.cut(); c.note("past: entries ", a, " to ", b); break; }
            case 2: { if (r.size() > max / 2) break; d = Dataset<double>::concatenate(d, d, 0); auto e = r.e; r.e.insert(r.e.end(), e.begin(), e.end()); c.note("past: joined with itself"); break; }
            case 3: { Dataset<double> o(d); d = Dataset<double>(); d = o; o.sequence_size(1); for (auto& x : o.data()) x = -1; c.note("past: copied"); break; }
            case 4: { size_t i = c.below(r.size()), j = c.below(r.width); double v = c.num(50); d.data()[i * r.width + j] = v; r.e[i][j] = v; c.note("past: wrote ", v, " at ", i, ",", j); break; }
            case 5: { size_t m = c.below(r.size() + 1); auto sp = d.split(double(m) / double(r.size())); if (!sp.training_set.size() || sp.training_set.size() < lo) break; d = sp.training_set; r.e.resize(d.size()); r.cut(); c.note("past: training share ", m); break; }
            default: { auto l = gen_labels(c, r.width); d.label_idx(l); r.labels.clear(); for (auto x : l) if (x < r.width) r.labels.insert(x); c.note("past: labels ", pbt::show(r.labels)); break; }
        }
        c.label("with_past");
    }
    return d;
}

/// Everything observable of a data set against the reference (width >= 1 or empty).
template <class T> void check_rows(pbt::Case& c, const Dataset<T>& d, const Rows& r, const char* what) {
    CHECK_EQ(c, size_t(d.size()), r.size(), what);
    CHECK_EQ(c, d.empty(), r.size() == 0, what);
    if (r.size()) { CHECK_EQ(c, size_t(d.feature_size()), r.width, what); CHECK_EQ(c, size_t(d.sequence_size()), r.seq, what); }
    auto v = d.data(); CHECK_EQ(c, std::vector<double>(v.begin(), v.end()), r.flat(), what);
}
#endif

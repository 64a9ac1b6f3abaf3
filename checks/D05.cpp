// D05: concatenation of data sets along each axis.
#include "data_gen.hpp"
const char* const PBT_RULE = "Pairs of generated data sets with shapes (sequences, steps, features) equal except possibly along one axis, concatenated along every axis (also out of range), with equal or different labels and empty operands; "
    "each element of the result is compared with its source. Non-trivial: both operands hold data and the shapes fit.";

void property(pbt::Case& c) {
    size_t sh[2][3]; size_t axis = c.chance(1, 12) ? 3 + c.below(3) : c.below(3);
    for (int i = 0; i < 3; ++i) { sh[0][i] = c.small(1, 5); sh[1][i] = size_t(i) == axis ? c.small(1, 5) : sh[0][i]; }
    if (c.chance(1, 10)) { size_t a = c.below(3), m = 20 + c.below(60); sh[0][a] = m; sh[1][a] = a == axis ? c.small(1, 80) : m; c.label("large"); }
    bool bad = c.chance(1, 6); size_t bi = c.below(3); if (bad) sh[1][bi] = sh[0][bi] + 1 + c.below(3);
    std::vector<double> v[2]; double k = 0; Dataset<double> d[2]; bool empty[2] = {c.chance(1, 12), c.chance(1, 12)};
    auto l = gen_labels(c, std::min(sh[0][2], sh[1][2])); std::set<size_t> kept[2];
    bool other = c.chance(1, 5);
    for (int o = 0; o < 2; ++o) {
        if (empty[o]) continue;
        v[o].resize(sh[o][0] * sh[o][1] * sh[o][2]); for (auto& x : v[o]) x = k += 1;
        auto q = l; if (o && other) q = gen_labels(c, sh[o][2]);
        switch (c.below(5)) {    // the same content, reached in different ways
            case 0: d[o] = Dataset<double>(v[o], sh[o][2], 1 + c.below(sh[o][0] * sh[o][1]), q); if (d[o].data() == v[o]) { d[o].sequence_size(sh[o][1]); c.label("re_sequenced"); } else d[o] = Dataset<double>(v[o], sh[o][2], sh[o][1], q); break;
            case 1: { auto x = v[o]; size_t more = 1 + c.below(3); x.resize((sh[o][0] + more) * sh[o][1] * sh[o][2], -5); d[o] = Dataset<double>(x, sh[o][2], sh[o][1], q).subdata(0, sh[o][0] * sh[o][1]); c.label("cut_from_larger"); break; }
            case 2: d[o] = Dataset<double>(v[o], sh[o][2], sh[o][1], gen_labels(c, sh[o][2])); d[o].label_idx(q); c.label("labelled_later"); break;
            default: d[o] = Dataset<double>(v[o], sh[o][2], sh[o][1], q);
        }
        if (c.chance(1, 6)) { double f = 0; for (auto& x : d[o].data()) x = f -= 1; v[o] = d[o].data(); }
        for (auto x : d[o].label_idx()) kept[o].insert(x);
    }
    c.note("axis ", axis, " shapes ", sh[0][0], "x", sh[0][1], "x", sh[0][2], (empty[0] ? " (empty)" : ""), " and ", sh[1][0], "x", sh[1][1], "x", sh[1][2], (empty[1] ? " (empty)" : ""), " labels ", pbt::show(kept[0]), " ", pbt::show(kept[1]));
    Dataset<double> r; bool threw = false;
    try { r = Dataset<double>::concatenate(d[0], d[1], axis); } catch (const std::exception&) { threw = true; }
    if (empty[0] || empty[1]) {
        if (axis > 2) { c.label("empty_bad_axis"); return; }
        CHECK(c, !threw, "an empty operand was rejected"); auto& w = empty[0] ? d[1] : d[0];
        CHECK_EQ(c, r.data(), w.data()); CHECK_EQ(c, size_t(r.size()), size_t(w.size())); CHECK_EQ(c, size_t(r.feature_size()), size_t(w.feature_size())); CHECK_EQ(c, size_t(r.sequence_size()), size_t(w.sequence_size()));
        CHECK_EQ(c, idx(r.label_idx()), idx(w.label_idx())); c.label("empty"); return;
    }
    bool fits = axis <= 2; for (size_t i = 0; i < 3 && axis <= 2; ++i) if (i != axis && sh[0][i] != sh[1][i]) fits = false;
    if (axis != 2 && kept[0] != kept[1]) { fits = false; c.label("other_labels"); }
    if (!fits) { CHECK(c, threw, "incompatible operands were accepted"); c.label(axis > 2 ? "bad_axis" : "rejected"); return; }
    CHECK(c, !threw, "compatible operands were rejected");
    size_t rs[3] = {sh[0][0], sh[0][1], sh[0][2]}; rs[axis] += sh[1][axis];
    CHECK_EQ(c, size_t(r.size()), rs[0] * rs[1]); CHECK_EQ(c, size_t(r.feature_size()), rs[2]); CHECK_EQ(c, size_t(r.sequence_size()), rs[1]);
    std::vector<double> want;
    for (size_t a = 0; a < rs[0]; ++a) for (size_t b = 0; b < rs[1]; ++b) for (size_t e = 0; e < rs[2]; ++e) {
        size_t p[3] = {a, b, e}; int o = p[axis] >= sh[0][axis]; if (o) p[axis] -= sh[0][axis];
        want.push_back(v[o][(p[0] * sh[o][1] + p[1]) * sh[o][2] + p[2]]);
    }
    CHECK_EQ(c, r.data(), want);
    for (size_t i = 0; i < rs[0]; ++i) CHECK_EQ(c, r.entry_seq(i), std::vector<double>(want.begin() + long(i * rs[1] * rs[2]), want.begin() + long((i + 1) * rs[1] * rs[2])), "sequence", i);
    if (axis != 2) { CHECK_EQ(c, idx(r.label_idx()), std::vector<size_t>(kept[0].begin(), kept[0].end())); c.label_if(!kept[0].empty(), "labels_kept"); }
    else { CHECK(c, r.label_idx().empty(), "joined features have labels"); c.label_if(!kept[0].empty(), "labels_dropped"); }
    CHECK_EQ(c, d[0].data(), v[0]); CHECK_EQ(c, d[1].data(), v[1]);
    c.nontrivial(); c.label("axis" + std::to_string(axis));
}

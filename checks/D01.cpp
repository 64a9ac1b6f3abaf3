// D01: a data set keeps the longest prefix of whole sequences and nothing else.
#include "data_gen.hpp"
const char* const PBT_RULE = "Data sets from flat values, tables (ragged too) and stacks of tables, with all sequence lengths (longer than the data, not dividing it), then re-sequenced several times; every entry and sequence index, and indexes beyond, "
    "are read and compared with the kept entries. Non-trivial: something had to be cut, or the data set was re-sequenced.";

template <class T> static void run(pbt::Case& c) {
    Rows r; bool cut = false; size_t s = c.weighted({1, 6, 3, 1}); s = s == 0 ? 0 : s == 1 ? c.small(1, 6) : s == 2 ? 1 : c.small(1, 1000);
    auto l = gen_labels(c, 4); Dataset<T> d; size_t k = 0;
    auto val = [&] { return static_cast<double>(static_cast<T>(cell(c, k++))); };
    int kind = static_cast<int>(c.below(3));
    if (kind == 0) {
        std::vector<double> v(c.small(0, c.chance(1, 15) ? 2000 : 60)); for (auto& x : v) x = val();
        size_t w = c.chance(1, 8) ? c.small(0, 100) : c.small(1, 6);
        d = Dataset<T>(std::vector<T>(v.begin(), v.end()), w, s, l);
        r.width = std::min(w, v.size()); r.seq = s;
        for (size_t i = 0; r.width && i + r.width <= v.size(); i += r.width) r.e.emplace_back(v.begin() + long(i), v.begin() + long(i + r.width));
        cut = v.size() % std::max<size_t>(r.width, 1); c.label("flat");
    } else if (kind == 1) {
        std::vector<std::vector<T>> m(c.small(0, c.chance(1, 15) ? 300 : 20)); size_t w = c.small(c.chance(1, 10) ? 0 : 1, c.chance(1, 15) ? 50 : 6);
        r.width = m.empty() ? 0 : 1000;
        bool ragged = c.chance(1, 2);
        for (auto& q : m) { size_t n = ragged ? w + c.below(4) : w; for (size_t i = 0; i < n; ++i) q.push_back(static_cast<T>(val())); r.width = std::min(r.width, n); cut |= n != w; }
        d = Dataset<T>(m, s, l); r.seq = s;
        for (auto& q : m) if (r.width) r.e.emplace_back(q.begin(), q.begin() + long(r.width));
        c.label(ragged ? "ragged_table" : "table");
    } else {
        std::vector<std::vector<std::vector<T>>> q(c.small(0, 8)); size_t h = c.small(1, 5), w = c.small(1, 5); bool ragged = c.chance(1, 2); size_t hm = 1000;
        r.width = q.empty() ? 0 : 1000;
        for (auto& m : q) { m.resize(ragged ? h + c.below(3) : h); hm = std::min(hm, m.size()); for (auto& v : m) { size_t n = ragged ? w + c.below(3) : w; for (size_t i = 0; i < n; ++i) v.push_back(static_cast<T>(val())); r.width = std::min(r.width, n); cut |= n != w; } }
        d = Dataset<T>(q, l); r.seq = hm;
        for (auto& m : q) for (size_t i = 0; i < hm; ++i) r.e.emplace_back(m[i].begin(), m[i].begin() + long(r.width));
        c.label(ragged ? "ragged_stack" : "stack");
    }
    r.labels = {l.begin(), l.end()};
    c.note("kind ", kind, " sequence length ", s, " entries given ", r.e.size(), " width ", r.width, " labels ", pbt::show(r.labels));
    bool resized = false;
    for (int round = 0;; ++round) {
        size_t before = r.e.size(); r.cut(); cut |= r.e.size() != before;
        if (r.width == 0) {      // no columns: only that nothing is held
            CHECK(c, d.empty()); for (size_t i = 0; i < 4; ++i) { CHECK(c, d.entry(i).empty()); CHECK(c, d.entry_seq(i).empty()); }
            c.label("no_columns");
        } else {
            check_rows(c, d, r, "content");
            if (r.size()) CHECK_EQ(c, size_t(d.feature_size()), r.width);
            for (size_t i = 0; i < r.size() + 4; ++i) { auto e = d.entry(i); CHECK_EQ(c, std::vector<double>(e.begin(), e.end()), r.row(i), "entry", i); }
            size_t ns = r.seq ? r.size() / r.seq : 0;
            for (size_t i = 0; i < ns + 4; ++i) {
                std::vector<double> w; if (i < ns) for (size_t t = 0; t < r.seq; ++t) w.insert(w.end(), r.e[i * r.seq + t].begin(), r.e[i * r.seq + t].end());
                auto e = d.entry_seq(i); CHECK_EQ(c, std::vector<double>(e.begin(), e.end()), w, "sequence", i);
            }
            static const std::vector<size_t> far = {1000000, size_t(1) << 31, size_t(1) << 32, size_t(1) << 61, size_t(1) << 62, size_t(1) << 63, (size_t(1) << 63) + 1, SIZE_MAX / 2, SIZE_MAX - 1, SIZE_MAX};
            for (auto i : far) { CHECK(c, d.entry(i).empty(), "entry", i); CHECK(c, d.entry_seq(i).empty(), "sequence", i); }
            for (size_t q : {r.width, r.seq, r.width * r.seq}) if (q) for (size_t i : {SIZE_MAX / q + 1, SIZE_MAX / q + 2}) if (i > r.size()) { CHECK(c, d.entry(i).empty(), "entry", i); CHECK(c, d.entry_seq(i).empty(), "sequence", i); }
            CHECK_EQ(c, idx(d.label_idx()), r.cols(true)); CHECK_EQ(c, idx(d.input_idx()), r.cols(false));
            c.label_if(r.size() == 0, "empty"); c.label_if(ns > 1 && r.seq > 1, "sequences");
        }
        if (round == 4 || c.below(3) == 0) break;
        size_t n = c.small(0, 8); { Dataset<T> o(d); d.sequence_size(n); CHECK_EQ(c, o.data().size(), r.flat().size(), "a copy followed the re-sequencing"); }
        r.seq = n; resized = true; c.note("re-sequenced to ", n);
        c.label("resequenced");
    }
    c.label_if(cut, "cut");
    c.nontrivial(cut || resized);
}
void property(pbt::Case& c) { if (c.below(5) == 0) run<float>(c); else run<double>(c); }

// D04: shuffling permutes whole entries, reproducibly; every arrangement is reachable.
#include "data_gen.hpp"
#include <map>
const char* const PBT_RULE = "Generated data sets with entries tagged by a unique number, shuffled (repeatedly) with generated generator states; small sizes are shuffled with many states to see every arrangement. "
    "Non-trivial: at least two entries.";

void property(pbt::Case& c) {
    if (c.chance(1, 40)) {   // reachability: n! arrangements with many generator states
        size_t n = 2 + c.below(3), fact = n == 2 ? 2 : n == 3 ? 6 : 24; std::map<std::vector<double>, size_t> seen; uint64_t base = c.below(0);
        size_t tries = fact * 60;
        for (size_t t = 0; t < tries; ++t) {
            std::vector<double> v(n); for (size_t i = 0; i < n; ++i) v[i] = double(i); Dataset<double> d(v, 1);
            d.shuffle(RneType(base + t)); ++seen[d.data()];
        }
        c.note(n, " entries shuffled with ", tries, " generator states gave ", seen.size(), " arrangements");
        CHECK_EQ(c, seen.size(), fact, "arrangements reached"); // chance of missing one: below 24*exp(-60)
        c.label("reachability"); c.nontrivial(); return;
    }
    if (c.chance(1, 400)) {   // many entries: a permutation that mixes all parts
        size_t n = c.flip() ? c.usize(200, 5000) : c.usize(60000, 140000), w = 1 + c.below(2); std::vector<double> v(n * w); for (size_t i = 0; i < n * w; ++i) v[i] = double(i / w);
        Dataset<double> d(v, w); uint64_t seed = c.below(0); c.note(n, " entries of width ", w, " shuffled with ", seed); d.shuffle(RneType(seed)); const auto& q = d.data(); CHECK_EQ(c, q.size(), n * w);
        std::vector<bool> seen(n); size_t fixed = 0, crossed = 0;
        for (size_t i = 0; i < n; ++i) { size_t from = size_t(q[i * w]); CHECK(c, from < n && !seen[from], "entry", from, "lost or doubled"); seen[from] = true; CHECK(c, w == 1 || q[i * w + 1] == q[i * w], "entry torn apart"); fixed += from == i; crossed += (i < n / 2) && from >= n / 2; }
        // Poisson(1) fixed points; hypergeometric crossings, standard deviation sqrt(n)/4.
        CHECK(c, fixed < 60, fixed, "entries stayed in their place"); CHECK(c, std::fabs(double(crossed) - double(n) / 4) < 10 * std::sqrt(double(n)) / 4 + 2, crossed, "of", n, "entries crossed the middle");
        c.label("large"); c.nontrivial(); return;
    }
    Rows r; auto d = gen_data(c, r, 0, 40); size_t n = r.size();
    for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < r.width; ++k) { r.e[i][k] = double(i * 100 + k); }
    if (n) d.data() = r.flat();
    c.note("entries ", n, " width ", r.width, " sequence ", r.seq, " labels ", pbt::show(r.labels));
    size_t rounds = 1 + c.below(3);
    for (size_t k = 0; k < rounds; ++k) {
        uint64_t seed = c.flip() ? c.below(100) : c.below(0); RneType g(seed); if (c.chance(1, 4)) g.discard(c.below(700));
        Dataset<double> o(d), u(d), before(d); RneType g2(g);
        if (c.flip()) o.shuffle(RneType(seed + 1));       // unrelated activity in between
        d.shuffle(g); u.shuffle(g2);
        CHECK_EQ(c, d.data(), u.data(), "the same generator state gave two arrangements, seed", seed);
        CHECK_EQ(c, size_t(d.size()), n); CHECK_EQ(c, idx(d.label_idx()), r.cols(true)); CHECK_EQ(c, idx(d.input_idx()), r.cols(false));
        if (n) { CHECK_EQ(c, size_t(d.feature_size()), r.width); CHECK_EQ(c, size_t(d.sequence_size()), r.seq); }
        CHECK_EQ(c, d.data().size(), n * r.width);
        std::vector<bool> seen(n);
        for (size_t i = 0; i < n; ++i) {
            auto e = d.entry(i); CHECK_EQ(c, e.size(), r.width); size_t from = size_t(e[0]) / 100;
            CHECK(c, from < n && !seen[from], "entry", from, "lost or doubled"); seen[from] = true;
            CHECK_EQ(c, e, r.e[from], "entry torn apart"); CHECK_EQ(c, d.label(i), r.part(from, true));
        }
        if (n >= 12) c.label_if(d.data() != before.data(), "moved");
    }
    c.nontrivial(n >= 2); c.label_if(n == 0, "empty"); c.label_if(n == 1, "single"); c.label_if(n >= 2, "permuted");
}

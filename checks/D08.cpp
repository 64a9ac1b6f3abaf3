// D08: whole histories over several data sets.
#include "data_gen.hpp"
const char* const PBT_RULE = "Histories over up to five data sets: constructions, copies, assignments (to itself too), moves, swaps, re-sequencing, re-labelling, writes, sub-ranges, splits, shuffles, normalisations, joins along every axis, input and label views kept as data sets; "
    "after every operation every data set is compared, through every accessor, with ordinary tables. Non-trivial: at least three different kinds of operations on data that is not empty.";
struct DS { Dataset<double> d; Rows r; };
static void full(pbt::Case& c, const DS& x, size_t i, const std::string& op) {
    const auto& d = x.d; const auto& r = x.r; check_rows(c, d, r, op.c_str()); if (!r.size()) { CHECK(c, d.entry(0).empty() && d.entry_seq(0).empty() && d.input(0).empty() && d.label(0).empty() && d.inputs_seq(0).empty() && d.labels_seq(0).empty(), "set", i, "after", op); return; }
    CHECK_EQ(c, idx(d.label_idx()), r.cols(true), "set", i, "after", op); CHECK_EQ(c, idx(d.input_idx()), r.cols(false), "set", i, "after", op);
    for (size_t k = 0; k < r.size() + 2; ++k) { CHECK_EQ(c, d.entry(k), r.row(k), "entry", k, "of set", i, "after", op); CHECK_EQ(c, d.input(k), r.part(k, false), "input", k, "of set", i, "after", op); CHECK_EQ(c, d.label(k), r.part(k, true), "label", k, "of set", i, "after", op); }
    size_t ns = r.size() / r.seq; for (size_t k = 0; k < ns + 2; ++k) { std::vector<double> e, a, b; for (size_t t = 0; k < ns && t < r.seq; ++t) { auto w = r.row(k * r.seq + t), p = r.part(k * r.seq + t, false), q = r.part(k * r.seq + t, true); e.insert(e.end(), w.begin(), w.end()); a.insert(a.end(), p.begin(), p.end()); b.insert(b.end(), q.begin(), q.end()); }
        CHECK_EQ(c, d.entry_seq(k), e, "sequence", k, "of set", i, "after", op); CHECK_EQ(c, d.inputs_seq(k), a, "sequence", k, "of set", i, "after", op); CHECK_EQ(c, d.labels_seq(k), b, "sequence", k, "of set", i, "after", op); }
}
void property(pbt::Case& c) {
    std::vector<DS> s; std::set<int> kinds; size_t serial = 0; bool big = c.chance(1, 25); size_t max = big ? 120 : 14; c.label_if(big, "many_entries");
    auto fresh = [&](DS& x) { x.d = gen_fresh(c, x.r, 0, max, true, big && c.flip() ? 30 : 5); for (auto& e : x.r.e) for (auto& v : e) v = double(++serial); if (x.r.size()) x.d.data() = x.r.flat(); };
    auto put = [&](DS x) { if (s.size() < 5) s.push_back(std::move(x)); else s[c.below(s.size())] = std::move(x); };
    s.emplace_back(); fresh(s[0]);
    bool lng = c.chance(1, 25); c.label_if(lng, "long_history");
    c.repeat(1, lng ? 120 : c.tier ? 30 : 16, [&] {
        size_t i = c.below(s.size()); DS& x = s[i]; std::string op; int k = int(c.weighted({3, 3, 2, 1, 3, 3, 3, 3, 2, 3, 3, 4, 3, 2})); bool filled = x.r.size() > 0;
        switch (k) {
            case 0: { op = "a new set"; c.note(op); DS n; fresh(n); put(n); break; }
            case 1: { op = "copy " + std::to_string(i); c.note(op); DS n{Dataset<double>(x.d), x.r}; put(n); c.label("copied"); break; }
            case 2: { size_t j = c.below(s.size()); op = "assign " + std::to_string(i) + " to " + std::to_string(j); c.note(op); s[j].d = x.d; Rows r = x.r; s[j].r = r; c.label(i == j ? "self_assigned" : "assigned"); break; }
            case 3: { size_t j = c.below(s.size()); if (i == j) return; op = "swap " + std::to_string(i) + " and " + std::to_string(j); c.note(op); std::swap(s[i].d, s[j].d); std::swap(s[i].r, s[j].r); c.label("swapped"); break; }
            case 4: { if (!filled) return; size_t q = c.chance(1, 12) ? c.below(max * 2) + 1 : c.small(1, 5); op = "sequence length " + std::to_string(q) + " for " + std::to_string(i); c.note(op); x.d.sequence_size(q); x.r.seq = q; x.r.cut(); c.label("re_sequenced"); break; }
            case 5: { if (!filled) return; auto l = gen_labels(c, x.r.width); x.r.labels.clear(); for (auto v : l) if (v < x.r.width) x.r.labels.insert(v); op = "labels " + pbt::show(x.r.labels) + " for " + std::to_string(i); c.note(op); x.d.label_idx(l); c.label("relabelled"); break; }
            case 6: { if (!filled) return; size_t a = c.below(x.r.size()), b = c.below(x.r.width); double v = double(++serial); op = "write " + std::to_string(a) + "," + std::to_string(b) + " of " + std::to_string(i); c.note(op); x.d.data()[a * x.r.width + b] = v; x.r.e[a][b] = v; c.label("written"); break; }
            case 7: { if (!filled) return; size_t n = x.r.size(), a = c.below(n + 1), b = a + c.below(n - a + 3); op = "entries " + std::to_string(a) + " to " + std::to_string(b) + " of " + std::to_string(i); c.note(op); DS n2{x.d.subdata(a, b), x.r}; b = std::min(b, n); n2.r.e.assign(x.r.e.begin() + long(a), x.r.e.begin() + long(b)); n2.r.cut(); if (c.flip()) x = n2; else put(n2); c.label("range"); break; }
            case 8: { if (!filled) return; double f = c.uniform(-0.1, 1.1); op = "split " + std::to_string(i); c.note(op, " at ", f); auto sp = x.d.split(f); size_t n = x.r.size(), m = sp.training_set.size(); double g = std::min(1.0, std::max(0.0, f)) * double(n), eps = 1e-9 * double(n + 1);
                CHECK(c, m % x.r.seq == 0 && double(m) <= g + eps && double(m) > g - double(x.r.seq) - eps, "the training part has", m, "of", n, "entries"); DS a{sp.training_set, x.r}, b{sp.testing_set, x.r}; a.r.e.resize(m); b.r.e.assign(x.r.e.begin() + long(m), x.r.e.end()); a.r.cut(); b.r.cut(); if (c.flip()) { put(a); put(b); } else { put(b); put(a); } c.label("split"); break; }
            case 9: { if (!filled) return; uint64_t seed = c.below(100000); op = "shuffle " + std::to_string(i); c.note(op, " with ", seed); Dataset<double> u(x.d); auto& ret = x.d.shuffle(RneType(seed)); CHECK(c, &ret == &x.d); u.shuffle(RneType(seed)); CHECK_EQ(c, x.d.data(), u.data(), "two shuffles from one seed");
                size_t w = x.r.width; CHECK_EQ(c, x.d.data().size(), x.r.size() * w); auto v = x.d.data(); std::vector<std::vector<double>> e; for (size_t q = 0; q < x.r.size(); ++q) e.emplace_back(v.begin() + long(q * w), v.begin() + long((q + 1) * w)); auto p = e, q = x.r.e; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); CHECK(c, p == q, "the shuffled entries are not a rearrangement"); x.r.e = e; c.label("shuffled"); break; }
            case 10: { if (!filled) return; double a = double(c.range(-5, 5)), b = a + std::ldexp(1.0, int(c.below(6))) * (c.flip() ? 1 : -1); std::vector<SizeType> cols; if (c.flip()) for (size_t q = 0; q < x.r.width; ++q) if (c.flip()) cols.push_back(q); op = "normalise " + std::to_string(i); c.note(op, " ", a, " ", b, " columns ", pbt::show(cols)); bool all = cols.empty(); x.d.min_max_normalization(a, b, cols);
                for (auto& e : x.r.e) for (size_t q = 0; q < x.r.width; ++q) if (all || std::count(cols.begin(), cols.end(), q)) e[q] = (e[q] - a) / (b - a);   // b - a is a power of two
                auto v = x.d.data(); size_t at = 0; CHECK_EQ(c, v.size(), x.r.size() * x.r.width); for (auto& e : x.r.e) for (auto& y : e) { CHECK(c, pbt::near(v[at], y, 1e-12, 1e-12), "normalised value", v[at], "expected", y); y = v[at++]; } c.label("normalised"); break; }
            case 11: { size_t j = c.below(s.size()), axis = c.weighted({3, 1, 1}); Rows& p = x.r; Rows q = s[j].r; if (p.size() + q.size() > 400 || p.width + q.width > 80) return; op = "join " + std::to_string(i) + " and " + std::to_string(j) + " along " + std::to_string(axis); c.note(op); bool threw = false; DS n;
                try { n.d = Dataset<double>::concatenate(x.d, s[j].d, axis); } catch (const std::exception&) { threw = true; }
                if (!p.size() || !q.size()) { CHECK(c, !threw, "an empty operand was rejected"); n.r = p.size() ? p : q; c.label("joined_empty"); }
                else { size_t a[3] = {p.size() / p.seq, p.seq, p.width}, b[3] = {q.size() / q.seq, q.seq, q.width}; bool fits = axis == 2 || p.labels == q.labels; for (size_t t = 0; t < 3; ++t) if (t != axis && a[t] != b[t]) fits = false; CHECK_EQ(c, threw, !fits, "joining", op); if (threw) { c.label("join_rejected"); break; }
                    n.r.width = a[2]; n.r.seq = a[1]; if (axis == 0) { n.r.e = p.e; n.r.e.insert(n.r.e.end(), q.e.begin(), q.e.end()); n.r.labels = p.labels; }
                    else if (axis == 1) { n.r.seq += b[1]; n.r.labels = p.labels; for (size_t t = 0; t < a[0]; ++t) { n.r.e.insert(n.r.e.end(), p.e.begin() + long(t * a[1]), p.e.begin() + long((t + 1) * a[1])); n.r.e.insert(n.r.e.end(), q.e.begin() + long(t * b[1]), q.e.begin() + long((t + 1) * b[1])); } }
                    else { n.r.width += b[2]; for (size_t t = 0; t < p.size(); ++t) { auto e = p.e[t]; e.insert(e.end(), q.e[t].begin(), q.e[t].end()); n.r.e.push_back(e); }
                        if (n.d.size()) for (auto l : n.d.label_idx()) n.r.labels.insert(l); }   // labels along the feature axis are not claimed
                    c.label("joined" + std::to_string(axis)); }
                if (c.flip()) x = n; else put(n); break; }
            case 12: { if (!filled) return; bool lab = c.flip(); auto cols = x.r.cols(lab); if (cols.empty()) return; op = std::string(lab ? "labels" : "inputs") + " of " + std::to_string(i); c.note(op); DS n; n.d = lab ? x.d.labels() : x.d.inputs(); n.r.width = cols.size(); n.r.seq = x.r.seq; for (size_t t = 0; t < x.r.size(); ++t) n.r.e.push_back(x.r.part(t, lab)); put(n); c.label("view"); break; }
            default: { if (!filled) return; op = "automatic normalisation of " + std::to_string(i); c.note(op); std::vector<std::pair<double, double>> mm(x.r.width); for (size_t q = 0; q < x.r.width; ++q) { double lo = x.r.e[0][q], hi = lo; for (auto& e : x.r.e) { lo = std::min(lo, e[q]); hi = std::max(hi, e[q]); } mm[q] = {lo, hi}; }
                x.d.min_max_normalization(); auto v = x.d.data(); size_t at = 0; CHECK_EQ(c, v.size(), x.r.size() * x.r.width); for (auto& e : x.r.e) for (size_t q = 0; q < x.r.width; ++q) { double w = mm[q].first == mm[q].second ? v[at] : (e[q] - mm[q].first) / (mm[q].second - mm[q].first); double tol = 1e-9 + (mm[q].first == mm[q].second ? 0 : 1e-14 * std::max(std::fabs(mm[q].first), std::fabs(mm[q].second)) / (mm[q].second - mm[q].first)); CHECK(c, v[at] >= -tol && v[at] <= 1 + tol && std::fabs(v[at] - w) <= tol, "normalised value", v[at], "expected", w); e[q] = v[at++]; } c.label("automatic"); break; }
        }
        if (filled) kinds.insert(k);
        for (size_t q = 0; q < s.size(); ++q) full(c, s[q], q, op);
    });
    c.nontrivial(kinds.size() >= 3);
}

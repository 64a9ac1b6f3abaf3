// D02: inputs and labels partition every entry.
#include "data_gen.hpp"
const char* const PBT_RULE = "Generated data sets with label sets (none, first, last, several, all, out of range), re-labelled and re-sequenced in histories; all per-entry, per-sequence and whole-set views are compared with the selected positions. "
    "Non-trivial: some positions are labels and some are not, or the data was re-labelled.";

void property(pbt::Case& c) {
    Rows r; auto d = gen_data(c, r, 0, 30);
    c.note("entries ", r.size(), " width ", r.width, " sequence ", r.seq, " labels ", pbt::show(r.labels));
    bool relabelled = false;
    for (int round = 0;; ++round) {
        check_rows(c, d, r, "data untouched");
        auto in = r.cols(false), la = r.cols(true);
        CHECK_EQ(c, idx(d.input_idx()), in); CHECK_EQ(c, idx(d.label_idx()), la);
        for (size_t i : {size_t(1) << 32, size_t(1) << 62, size_t(1) << 63, SIZE_MAX}) { CHECK(c, d.input(i).empty() && d.label(i).empty(), "entry", i); CHECK(c, d.inputs_seq(i).empty() && d.labels_seq(i).empty(), "sequence", i); }
        for (size_t i = 0; i < r.size() + 3; ++i) { CHECK_EQ(c, d.input(i), r.part(i, false), "input", i); CHECK_EQ(c, d.label(i), r.part(i, true), "label", i); }
        size_t ns = r.seq ? r.size() / r.seq : 0;
        for (size_t i = 0; i < ns + 2; ++i) {
            std::vector<double> a, b;
            for (size_t t = 0; i < ns && t < r.seq; ++t) { auto p = r.part(i * r.seq + t, false), q = r.part(i * r.seq + t, true); a.insert(a.end(), p.begin(), p.end()); b.insert(b.end(), q.begin(), q.end()); }
            CHECK_EQ(c, d.inputs_seq(i), a, "sequence", i); CHECK_EQ(c, d.labels_seq(i), b, "sequence", i);
        }
        for (int which = 0; which < 2; ++which) {
            Rows q; auto& cols = which ? la : in; q.width = cols.size(); q.seq = r.seq;
            for (size_t i = 0; i < r.size(); ++i) q.e.push_back(r.part(i, which));
            auto v = which ? d.labels() : d.inputs();
            if (cols.empty()) { CHECK(c, v.empty()); c.label(which ? "no_labels" : "all_labels"); continue; }
            check_rows(c, v, q, which ? "labels()" : "inputs()");
            for (size_t i = 0; i < q.size(); ++i) CHECK_EQ(c, v.entry(i), q.e[i]);
            CHECK(c, v.label_idx().empty());
        }
        c.nontrivial(r.size() && !in.empty() && !la.empty());
        c.label_if(!la.empty() && la[0] == 0 && !in.empty(), "leading_label"); c.label_if(r.seq > 1, "sequences"); c.label_if(r.size() == 0, "empty");
        if (round == 4 || c.below(3) == 0) break;
        if (c.chance(3, 4) || !r.size()) { auto l = gen_labels(c, r.width); if (c.chance(1, 3) && r.width) { l = {r.labels.begin(), r.labels.end()}; size_t x = c.below(r.width), y = c.below(r.width); if (!l.erase(x)) l.insert(x); if (c.flip() && !l.erase(y)) l.insert(y); } d.label_idx(l); r.labels.clear(); for (auto x : l) if (x < r.width) r.labels.insert(x); relabelled = true; c.label("relabelled"); c.label_if(!l.empty() && *l.rbegin() >= r.width, "label_out_of_range"); c.note("labels ", pbt::show(r.labels)); }
        else { size_t s = c.small(1, 5); d.sequence_size(s); r.seq = s; r.cut(); }
    }
    c.nontrivial(relabelled && r.size());
}

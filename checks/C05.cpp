// C05: label encodings against a direct construction from the table.
#include "pbt.hpp"
#include "parser/parser.hpp"
using namespace EdgeLearning;
const char* const PBT_RULE = "A table of 0-10 entries and 1-7 columns with repeated values, any subset of label columns, both encodings. "
    "Non-trivial: at least 2 entries and at least one label column before the last input column or at least two label columns.";

struct Table : DatasetParser {
    std::vector<std::vector<NumType>> t; size_t w = 0; std::set<SizeType> l;
    std::vector<NumType> entry(SizeType i) override { return t.at(i); }
    SizeType entries_amount() const override { return t.size(); }
    SizeType feature_size() const override { return w; }
    std::set<SizeType> labels_idx() const override { return l; }
};

void property(pbt::Case& c) {
    Table t; t.w = c.chance(1, 60) ? c.usize(8, 90) : c.small(1, 7); c.label_if(t.w > 32, "many_columns");
    for (size_t j = 0; j < t.w; ++j) if (c.chance(2, 5)) t.l.insert(j);
    // Columns may hold values that differ in their last bits only, of any magnitude, or many values.
    std::vector<double> base(t.w, 0.0); for (auto& b : base) if (c.chance(1, 4)) { b = c.pick(std::vector<double>{1e-9, 0.1, 1, 16777216, 9007199254740000.0, 1e17, -1e300, 1e-300, 2e-310}); c.label("close_values"); }
    auto close = [](double b, size_t k) { while (k--) b = std::nextafter(b, 1e308); return b; };
    if (c.chance(1, 60)) { size_t many = c.chance(1, 4) ? c.usize(300, 900) : c.usize(20, 300); c.label_if(many > 300, "hundreds_of_entries"); c.label("many_entries"); for (size_t i = 0; i < many; ++i) { std::vector<NumType> r(t.w); for (size_t j = 0; j < t.w; ++j) r[j] = base[j] ? close(base[j], c.below(20)) : c.flip() ? double(i) : double(c.below(40)); t.t.push_back(r); } }
    else c.repeat(0, 10, [&] { std::vector<NumType> r(t.w); for (size_t j = 0; j < t.w; ++j) r[j] = base[j] ? close(base[j], c.below(4)) : c.flip() ? static_cast<double>(c.range(0, 5)) - 2 : static_cast<double>(c.range(0, 16)) / 4 - 2; t.t.push_back(r); });
    for (auto& r : t.t) c.note(pbt::show(r)); c.note("labels ", pbt::show(t.l));
    size_t n = t.t.size();
    // reference
    std::vector<std::set<NumType>> uniq(t.w);
    for (auto& r : t.t) for (size_t j = 0; j < t.w; ++j) uniq[j].insert(r[j]);
    size_t inputs = t.w - t.l.size(), size = inputs; for (auto j : t.l) size += uniq[j].size();
    std::vector<NumType> onehot, plain;
    for (auto& r : t.t) {
        plain.insert(plain.end(), r.begin(), r.end());
        for (size_t j = 0; j < t.w; ++j) if (!t.l.count(j)) onehot.push_back(r[j]);
        for (auto j : t.l) for (auto v : uniq[j]) onehot.push_back(v == r[j] ? 1.0 : 0.0);
    }
    std::set<SizeType> pos; for (size_t k = inputs; k < size; ++k) pos.insert(k);
    using E = DatasetParser::LabelEncoding;
    auto all = [&] {
        for (size_t j = 0; j < t.w; ++j) {
            CHECK_EQ(c, t.unique(j), uniq[j], "column", j);
            auto m = t.unique_map(j); CHECK_EQ(c, m.size(), uniq[j].size()); size_t k = 0; for (auto v : uniq[j]) CHECK_EQ(c, m.at(v), k++, "column", j);
        }
        CHECK_EQ(c, t.encoding_feature_size(E::ONE_HOT_ENCODING), size);
        CHECK_EQ(c, t.encoding_feature_size(E::DEFAULT_ENCODING), t.w); CHECK_EQ(c, t.encoding_feature_size(), t.w);
        CHECK_EQ(c, t.encoding_labels_idx(E::ONE_HOT_ENCODING), pos);
        CHECK_EQ(c, t.encoding_labels_idx(E::DEFAULT_ENCODING), t.l); CHECK_EQ(c, t.encoding_labels_idx(), t.l);
        CHECK_EQ(c, t.data_to_encoding(E::ONE_HOT_ENCODING), onehot);
        CHECK_EQ(c, t.data_to_encoding(E::DEFAULT_ENCODING), plain); CHECK_EQ(c, t.data_to_encoding(), plain);
    };
    all(); if (c.flip()) all();
    bool lead = !t.l.empty() && inputs && *t.l.begin() < inputs;
    c.label_if(lead, "leading_label"); c.label_if(t.l.empty(), "no_label"); c.label_if(inputs == 0, "all_labels"); c.label_if(n == 0, "no_entries"); c.label_if(t.l.size() > 1, "several_labels");
    c.nontrivial(n >= 2 && (lead || t.l.size() > 1));
}

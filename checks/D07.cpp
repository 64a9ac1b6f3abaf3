// D07: data sets parsed from files.
#include "csv_gen.hpp"
#include "idx_gen.hpp"
#include "data_gen.hpp"
const char* const PBT_RULE = "Generated CSV and MNIST files (and now and then a whole 10000-record CIFAR batch) parsed into data sets with either encoding, any label columns and sequence lengths; every entry, input and label compared with the file. "
    "Non-trivial: at least two records.";
using E = DatasetParser::LabelEncoding;

static void compare(pbt::Case& c, DatasetParser& p, const std::vector<std::vector<double>>& recs, size_t w, const std::set<size_t>& labels) {
    bool hot = c.flip(); size_t seq = c.chance(1, 2) ? 1 : c.small(1, 5);
    Rows r; r.seq = seq;
    if (!hot) { r.width = w; r.labels = labels; r.e = recs; }
    else {
        std::vector<std::set<double>> u(w); for (auto& x : recs) for (size_t j = 0; j < w; ++j) u[j].insert(x[j]);
        r.width = w - labels.size(); for (auto j : labels) for (size_t k = 0; k < u[j].size(); ++k) r.labels.insert(r.width++);
        for (auto& x : recs) { std::vector<double> v; for (size_t j = 0; j < w; ++j) if (!labels.count(j)) v.push_back(x[j]); for (auto j : labels) for (auto q : u[j]) v.push_back(q == x[j]); r.e.push_back(v); }
    }
    auto d = Dataset<double>::parse(p, hot ? E::ONE_HOT_ENCODING : E::DEFAULT_ENCODING, seq);
    c.note(hot ? "one-hot" : "plain", " encoding, sequence length ", seq, ", ", recs.size(), " records, labels ", pbt::show(labels));
    r.cut();
    if (recs.empty()) { CHECK(c, d.empty()); CHECK_EQ(c, size_t(d.size()), size_t(0)); c.label("no_records"); return; }
    check_rows(c, d, r, "parsed");
    CHECK_EQ(c, idx(d.label_idx()), r.cols(true)); CHECK_EQ(c, idx(d.input_idx()), r.cols(false));
    for (size_t i = 0; i < r.size(); ++i) { CHECK_EQ(c, d.input(i), r.part(i, false), "input", i); CHECK_EQ(c, d.label(i), r.part(i, true), "label", i); }
    c.label(hot ? "one_hot" : "plain"); c.label_if(r.seq > 1, "sequences"); c.label_if(hot && labels.size() > 1, "several_labels");
    c.label_if(!labels.empty() && *labels.begin() + labels.size() < w, "inner_label");
    c.nontrivial(recs.size() >= 2);
}
void property(pbt::Case& c) {
    if (c.chance(1, 500)) {
        bool hundred = false; CifarFile f; f.hundred = hundred; f.order = c.flip() ? CifarShapeOrder::ROW_COL_CHN : CifarShapeOrder::CHN_ROW_COL;
        size_t n = 10000; uint64_t s = c.below(1 << 16); f.coarse.resize(n); for (auto& x : f.coarse) x = static_cast<uint8_t>(pbt::Case::mix(s) % 10);
        std::string q = pbt::scratch() + "/c" + std::to_string(getpid()); std::string bytes; bytes.reserve(n * 3073);
        for (size_t i = 0; i < n; ++i) { bytes += char(f.coarse[i]); for (size_t k = 0; k < 3072; ++k) bytes += char(uint8_t(i * 31 + k * 7 + k / 256 + s)); }
        std::ofstream(q + "b", std::ios::binary | std::ios::trunc) << bytes; std::ofstream(q + "n", std::ios::trunc) << "a\nb\n";
        Cifar m(q + "b", q + "n", f.order);
        size_t seq = 1 + c.below(3); auto d = Dataset<double>::parse(m, E::DEFAULT_ENCODING, seq);
        CHECK_EQ(c, size_t(d.size()), n / seq * seq); CHECK_EQ(c, size_t(d.feature_size()), size_t(3073)); CHECK_EQ(c, idx(d.label_idx()), std::vector<size_t>{3072});
        for (size_t i = 0; i < d.size(); ++i) {
            const double* e = d.data().data() + i * 3073; CHECK_EQ(c, e[3072], double(f.coarse[i]), "label", i);
            for (size_t k = 0; k < 3072; k += 1 + (i * 13) % 29) { size_t o = f.order == CifarShapeOrder::CHN_ROW_COL ? k : (k % 3) * 1024 + k / 3; CHECK_EQ(c, e[k], double(uint8_t(bytes[i * 3073 + 1 + o])), "record", i, "value", k); }
        }
        std::remove((q + "b").c_str()); std::remove((q + "n").c_str());
        c.label("cifar"); c.nontrivial(); return;
    }
    if (c.chance(1, 12)) {
        MnistFiles f = gen_mnist(c, 1, 6); f.write(); Mnist m(f.ipath, f.lpath);
        std::vector<std::vector<double>> recs; for (size_t i = 0; i < f.images.size(); ++i) { recs.emplace_back(f.images[i].begin(), f.images[i].end()); recs.back().push_back(f.labels[i]); }
        compare(c, m, recs, 785, {784}); c.label("mnist"); return;
    }
    CsvOpt o; o.max_rows = 12; o.numeric = c.flip(); CsvFile f = gen_csv(c, o); size_t w = f.cols();
    std::set<SizeType> labels; for (size_t j = 0; j < w; ++j) if (c.chance(1, 3)) labels.insert(j);
    CSV csv(f.path, {TypeChecker::Type::AUTO}, f.sep, labels);
    std::vector<std::vector<double>> recs;
    for (size_t k = 1; k < f.rows.size(); ++k) { std::vector<double> v; for (size_t j = 0; j < w; ++j) v.push_back(j < f.rows[k].size() ? f.rows[k][j].num : 0.0); recs.push_back(v); }
    if (c.chance(1, 3)) (void) csv[c.below(f.rows.size())];
    compare(c, csv, recs, w, {labels.begin(), labels.end()}); c.label("csv");
}

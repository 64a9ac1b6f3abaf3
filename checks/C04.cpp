// C04: every bulk or typed view of a CSV file against the cells kept in memory.
#include "csv_gen.hpp"
using namespace EdgeLearning;
const char* const PBT_RULE = "A generated CSV file with integer, decimal, exponent, boolean, empty and word cells, read through a random "
    "sequence of views (lines, rows, flat and table conversions to double/float/int/bool/text, data set entries). Non-trivial: at least 2 data rows and 2 columns.";

static std::string strip(const std::string& s) { size_t a = s.find_first_not_of(" \t\r"); return a == std::string::npos ? "" : s.substr(a, s.find_last_not_of(" \t\r") - a + 1); }
static double as_int(const Cell& x) { std::string t, text = strip(x.text); for (size_t i = 0; i < text.size(); ++i) { char ch = text[i]; if ((i == 0 && (ch == '-' || ch == '+')) || dig(ch)) t += ch; else break; }
    bool d = false; for (char ch : t) d |= dig(ch); if (!d) return 0; double v = std::strtod(t.c_str(), nullptr); return std::max(-2147483648.0, std::min(2147483647.0, v)); }
static bool as_bool(const Cell& x) { return x.text == "true" || x.text == "1"; }

void property(pbt::Case& c) {
    CsvFile f = gen_csv(c);
    size_t n = f.lines.size(), w = f.cols();
    std::set<SizeType> labels; for (size_t j = 0; j < w; ++j) if (c.chance(1, 4)) labels.insert(j);
    CSV csv(f.path, {TypeChecker::Type::AUTO}, f.sep, labels);
    auto has = [&](size_t i, size_t j) { return j < f.rows[i].size(); };
    c.repeat(1, 8, [&] {
        size_t i = c.below(n);
        switch (c.below(12)) {
            case 0: { auto v = std::vector<std::string>(csv); CHECK_EQ(c, v, f.lines); break; }
            case 1: { auto v = std::vector<CSVRow>(csv); CHECK_EQ(c, v.size(), n);
                for (size_t k = 0; k < n; ++k) { CHECK_EQ(c, v[k].line(), f.lines[k]); CHECK_EQ(c, v[k].idx(), k); CHECK_EQ(c, v[k].size(), w); CHECK(c, v[k].types() == csv.types()); }
                break; }
            case 2: { auto m = csv.to_mat<double>(); CHECK_EQ(c, m.size(), n);
                for (size_t k = 0; k < n; ++k) { CHECK_EQ(c, m[k].size(), w); for (size_t j = 0; j < w; ++j) CHECK_EQ(c, m[k][j], has(k, j) ? f.rows[k][j].num : 0.0, "cell", k, j); } break; }
            case 3: { auto v = csv.to_vec<double>(); CHECK_EQ(c, v.size(), n * w);
                for (size_t k = 0; k < n; ++k) for (size_t j = 0; j < w; ++j) CHECK_EQ(c, v[k * w + j], has(k, j) ? f.rows[k][j].num : 0.0, "cell", k, j); break; }
            case 4: { auto m = csv.to_mat<int>(); CHECK_EQ(c, m.size(), n);
                for (size_t k = 0; k < n; ++k) for (size_t j = 0; j < w; ++j) CHECK_EQ(c, static_cast<double>(m[k][j]), has(k, j) ? as_int(f.rows[k][j]) : 0.0, "cell", k, j, "as int"); break; }
            case 5: { auto m = csv.to_mat<std::string>(); CHECK_EQ(c, m.size(), n);
                for (size_t k = 0; k < n; ++k) for (size_t j = 0; j < w; ++j) CHECK_EQ(c, m[k][j], has(k, j) ? f.rows[k][j].text : std::string(), "cell", k, j); break; }
            case 6: { auto m = csv.to_mat<bool>(); for (size_t k = 0; k < n; ++k) for (size_t j = 0; j < w; ++j) CHECK_EQ(c, bool(m[k][j]), has(k, j) && as_bool(f.rows[k][j]), "cell", k, j); break; }
            case 7: { auto r = csv[i]; auto s = std::vector<std::string>(r); auto d = r.to_vec<double>(); auto fl = std::vector<float>(r); auto fs = std::vector<CSVField>(r);
                CHECK_EQ(c, s.size(), w); CHECK_EQ(c, d.size(), w); CHECK_EQ(c, fs.size(), w);
                for (size_t j = 0; j < w; ++j) {
                    CHECK_EQ(c, s[j], has(i, j) ? f.rows[i][j].text : std::string()); double e = has(i, j) ? f.rows[i][j].num : 0.0;
                    CHECK_EQ(c, d[j], e); CHECK(c, std::fabs(static_cast<double>(fl[j]) - e) <= 1e-6 * std::fabs(e) + 1e-30, "float cell", i, j);
                    CHECK_EQ(c, fs[j].as<std::string>(), s[j]); CHECK_EQ(c, fs[j].as<double>(), e); CHECK_EQ(c, fs[j].idx(), j); CHECK(c, fs[j].type() == csv.types()[j]); }
                break; }
            case 8: { for (size_t j = 0; j < w && has(i, j); ++j) { auto x = csv[i][j]; double d = 7.25; x.as(d); CHECK_EQ(c, x.as<double>(), f.rows[i][j].num, "cell", i, j);
                    if (f.rows[i][j].text.find_first_not_of(" \t\r") != std::string::npos) CHECK_EQ(c, d, f.rows[i][j].num, "as(ref) of cell", i, j);
                    CHECK_EQ(c, static_cast<double>(x.as<int>()), as_int(f.rows[i][j])); CHECK_EQ(c, x.as<bool>(), as_bool(f.rows[i][j])); CHECK_EQ(c, x.as<std::string>(), f.rows[i][j].text); } break; }
            case 9: { CHECK_EQ(c, csv.entries_amount(), n - 1); CHECK_EQ(c, csv.feature_size(), w); CHECK_EQ(c, csv.labels_idx(), labels);
                if (n > 1) { size_t e = c.below(n - 1); auto v = csv.entry(e); CHECK_EQ(c, v.size(), w);
                    for (size_t j = 0; j < w; ++j) CHECK_EQ(c, v[j], has(e + 1, j) ? f.rows[e + 1][j].num : 0.0, "entry", e, j); } break; }
            case 10: { DatasetParser& p = csv; auto v = p.data_to_encoding(); CHECK_EQ(c, v.size(), (n - 1) * w);
                for (size_t k = 1; k < n; ++k) for (size_t j = 0; j < w; ++j) CHECK_EQ(c, v[(k - 1) * w + j], has(k, j) ? f.rows[k][j].num : 0.0); break; }
            default: (void) csv[c.below(2 * n)]; break;
        }
    });
    c.label_if(!labels.empty(), "labels");
    c.nontrivial(n >= 3 && w >= 2);
}

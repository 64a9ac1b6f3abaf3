// C06: any bytes are a readable table: cells by the splitting rule, all views agreeing, nothing but ordinary errors.
#include "csv_gen.hpp"
#include <sys/stat.h>
#include <cfloat>
#include <cstring>
using namespace EdgeLearning;
using T = TypeChecker::Type;
const char* const PBT_RULE = "Files of raw bytes, token soup, edited generated files, or no content, split by any byte but the newline, read through every view in a random order. Non-trivial: at least two lines and a separator.";

namespace {
std::vector<std::string> split(const std::string& l, char sep) { std::vector<std::string> r; std::string t; for (char ch : l) if (ch == sep) { r.push_back(t); t.clear(); } else t += ch; r.push_back(t); return r; }
bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
// Plain spellings whose value is certain.
bool plain(const std::string& s) { T t = ref_type(s); return (t == T::INT || t == T::FLOAT) && s.size() < 300; }
}

void property(pbt::Case& c) {
    std::string s; char sep = ',';
    switch (c.weighted({10, 3, 3, 1, 2})) { case 0: break; case 1: sep = ";\t| :\0\r"[c.below(7)]; break; case 2: sep = static_cast<char>(c.below(256)); break; case 3: sep = '\0'; break; default: sep = "0.-e\"tx"[c.below(7)]; break; }
    if (sep == '\n') sep = ',';
    static const std::vector<std::string> tok = {"\n", "\r\n", "\n\n", "1", "-2.5", "true", "false", "\"a,b\"", "\"", "\"\"", " ", "\t", "x", "0", "00", "+", "-", ".", "e", "1e400", "-1e-400", "nan", "inf", "-inf", "0x1p3", "1_000", "1;2",
        "99999999999999999999999", "-2147483649", "2147483648", std::string(1, '\0'), "\xff", "\xef\xbb\xbf", "\x1a", "\v", "\f", "\xc2\xa0", "1 2", "--1", "1e", "1e+", ".5", "5."};
    switch (c.weighted({40, 32, 20, 3, 4})) {
        case 0: { size_t k = c.below(6); c.repeat(0, 40, [&] { if (c.below(6) < k) s += sep; else s += c.pick(tok); }); c.label("soup"); break; }
        case 1: { CsvFile f = gen_csv(c); s = f.content; if (c.chance(5, 6)) sep = f.sep; c.label("edited");
            c.repeat(1, 4, [&] { size_t p = c.below(s.size() + 1); switch (c.below(4)) { case 0: s.insert(p, c.pick(tok)); break; case 1: if (p < s.size()) s.erase(p, 1 + c.below(3)); break;
                case 2: s.insert(p, 1, sep); break; default: if (p < s.size()) s[p] = static_cast<char>(c.below(256)); break; } }); break; }
        case 2: c.repeat(0, 40, [&] { s += static_cast<char>(c.below(256)); }); c.label("raw"); break;
        case 3: break;
        default: { std::string u = c.pick(tok); size_t n = c.small(1, 3000); char end = c.flip() ? sep : '\n'; for (size_t i = 0; i < n && s.size() < 12000; ++i) { s += u; if (c.chance(9, 10)) s += end; } c.label("run"); break; }
    }
    if (sep == '\n') sep = ',';
    if (c.chance(1, 60)) { // what is no file at all
        std::string d = pbt::scratch() + "/d" + std::to_string(getpid()); bool dir = c.flip(), threw = false; if (dir) ::mkdir(d.c_str(), 0700);
        try { CSV x(d); } catch (const std::exception&) { threw = true; }
        if (dir) ::rmdir(d.c_str());
        CHECK(c, threw, dir ? "a directory was read as a table" : "a missing file was read as a table"); c.label(dir ? "directory" : "missing");
    }
    std::string path = pbt::scratch() + "/t" + std::to_string(getpid()) + ".csv";
    { std::ofstream os(path, std::ios::binary | std::ios::trunc); os << s; }
    c.note("separator ", static_cast<int>(static_cast<unsigned char>(sep)), ", content ", pbt::show(s), " (", s.size(), " bytes)");
    std::vector<std::string> lines; { std::string t; bool open = false; for (char ch : s) if (ch == '\n') { lines.push_back(t); t.clear(); open = false; } else { t += ch; open = true; } if (open) lines.push_back(t); }
    size_t n = lines.size(); std::string head = n ? lines[0] : std::string();
    std::vector<std::vector<std::string>> cells; for (auto& l : lines) cells.push_back(split(l, sep));
    size_t w = split(head, sep).size();
    std::set<SizeType> labels; if (c.flip()) for (size_t j = 0; j < w && j < 8; ++j) if (c.chance(1, 3)) labels.insert(j);
    CSV csv(path, {T::AUTO}, sep, labels);
    std::vector<T> types; for (size_t j = 0; j < w; ++j) types.push_back(n > 1 && j < cells[1].size() ? ref_type(cells[1][j]) : T::NONE);
    auto text = [&](size_t i, size_t j) { return j < cells[i].size() ? cells[i][j] : std::string(); };
    // The numbers as read one by one.
    std::vector<std::vector<double>> num(n);
    TypeChecker tc;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < w; ++j) { double d = 0; std::string t = text(i, j); tc(t, d); if (plain(t)) CHECK(c, same(d, std::max(-DBL_MAX, std::min(DBL_MAX, std::strtod(t.c_str(), nullptr)))), "number of", pbt::show(t), "is", d); num[i].push_back(d); }
    auto check_row = [&](CSVRow r, size_t i) {
        CHECK_EQ(c, r.line(), lines[i], "row", i); CHECK_EQ(c, r.idx(), i); CHECK_EQ(c, r.size(), w); CHECK(c, r.types() == types, "types of row", i);
        auto st = std::vector<std::string>(r); auto d = r.to_vec<double>(); CHECK_EQ(c, st.size(), w); CHECK_EQ(c, d.size(), w);
        for (size_t j = 0; j < w; ++j) { CHECK_EQ(c, st[j], text(i, j), "cell", i, j); CHECK(c, same(d[j], num[i][j]), "number of cell", i, j, d[j], num[i][j]); }
        for (size_t k = 0; k < std::min<size_t>(w + 2, 12); ++k) { size_t j = k < 6 || w < 12 ? k : w + 1 - (k - 6); bool threw = false;
            try { auto x = r[j]; CHECK_EQ(c, x.as<std::string>(), text(i, j), "cell", i, j); CHECK_EQ(c, x.idx(), j); CHECK(c, x.type() == types[j]); CHECK(c, same(x.as<double>(), num[i][j])); (void) x.as<int>(); (void) x.as<bool>(); (void) x.as<float>(); }
            catch (const std::exception&) { threw = true; }
            CHECK_EQ(c, threw, j >= w || j >= cells[i].size(), "access to cell", i, j); c.label_if(j < w && j >= cells[i].size(), "missing_cell"); }
    };
    c.repeat(1, 7, [&] {
        CHECK_EQ(c, csv.rows_size(), n); CHECK_EQ(c, csv.cols_size(), w); CHECK(c, csv.types() == types, "types of the columns"); CHECK_EQ(c, csv.header().line(), head); CHECK_EQ(c, csv.entries_amount(), n ? n - 1 : 0); CHECK_EQ(c, csv.feature_size(), w);
        switch (c.below(9)) {
            case 0: { if (n) { size_t i = c.below(3 * n); check_row(csv[i], i % n); } else { bool threw = false; try { (void) csv[c.below(3)]; } catch (const std::exception&) { threw = true; } CHECK(c, threw, "a row of an empty file"); c.label("empty_file"); } break; }
            case 1: { auto v = std::vector<std::string>(csv); CHECK_EQ(c, v, lines); break; }
            case 2: { auto v = std::vector<CSVRow>(csv); CHECK_EQ(c, v.size(), n); if (n) { size_t i = c.below(n); check_row(v[i], i); } break; }
            case 3: { auto m = csv.to_mat<std::string>(); CHECK_EQ(c, m.size(), n); for (size_t i = 0; i < n; ++i) { CHECK_EQ(c, m[i].size(), w); for (size_t j = 0; j < w; ++j) CHECK_EQ(c, m[i][j], text(i, j), "cell", i, j); } break; }
            case 4: { auto m = csv.to_mat<double>(); auto v = csv.to_vec<double>(); CHECK_EQ(c, m.size(), n); CHECK_EQ(c, v.size(), n * w);
                for (size_t i = 0; i < n; ++i) { CHECK_EQ(c, m[i].size(), w); for (size_t j = 0; j < w; ++j) { CHECK(c, same(m[i][j], num[i][j]), "number", i, j); CHECK(c, same(v[i * w + j], num[i][j]), "flat number", i, j); } } break; }
            case 5: { auto m = csv.to_mat<int>(); auto b = csv.to_mat<bool>(); auto f = csv.to_mat<float>(); CHECK_EQ(c, m.size(), n); CHECK_EQ(c, b.size(), n); CHECK_EQ(c, f.size(), n); break; }
            case 6: { size_t i = 1; for (auto it = csv.begin(); it != csv.end(); ++it, ++i) { CHECK(c, i < n, "iterated beyond the file"); CHECK_EQ(c, (*it).line(), lines[i], "iterated row", i); CHECK_EQ(c, it->idx(), i); } CHECK_EQ(c, i, std::max<size_t>(n, 1)); break; }
            case 7: { for (size_t k = 0; k < 3 && n > 1; ++k) { size_t e = c.below(n - 1); auto v = csv.entry(e); CHECK_EQ(c, v.size(), w); for (size_t j = 0; j < w; ++j) CHECK(c, same(v[j], num[e + 1][j]), "entry", e, j); } break; }
            default: {
                size_t rows = n ? n - 1 : 0; bool nan = false; for (size_t i = 1; i < n; ++i) for (auto l : labels) nan |= std::isnan(num[i][l]);
                auto v = static_cast<DatasetParser&>(csv).data_to_encoding(); CHECK_EQ(c, v.size(), rows * w); for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < w; ++j) CHECK(c, same(v[i * w + j], num[i + 1][j]), "encoded", i, j);
                if (nan || rows > 40 || w > 40) break;
                size_t fs = w; for (auto l : labels) { std::set<double> d; for (size_t i = 1; i < n; ++i) d.insert(num[i][l]); fs += d.size() - 1; }
                if (!rows) break;
                auto o = static_cast<DatasetParser&>(csv).data_to_encoding(DatasetParser::LabelEncoding::ONE_HOT_ENCODING); CHECK_EQ(c, o.size(), rows * fs, "one-hot values"); c.label_if(!labels.empty(), "one_hot");
                for (size_t i = 0; i < rows; ++i) { double hot = 0; size_t k = 0; for (size_t j = 0; j < w; ++j) if (!labels.count(j)) { CHECK(c, same(o[i * fs + k], num[i + 1][j]), "input", i, j); ++k; } for (; k < fs; ++k) hot += o[i * fs + k]; CHECK_EQ(c, hot, static_cast<double>(labels.size()), "ones of entry", i); }
                break; }
        }
    });
    c.label_if(s.find('\0') != std::string::npos, "nul"); c.label_if(s.find('\r') != std::string::npos, "carriage_return"); c.label_if(sep != ',' && !std::strchr(";\t| :", sep), "odd_separator");
    c.nontrivial(n >= 2 && s.find(sep) != std::string::npos);
}

// Generator of CSV files with a known content (shared by C02, C03, C04, D07).
#ifndef VERIF_CSV_GEN_HPP
#define VERIF_CSV_GEN_HPP
#include "pbt.hpp"
#include "ref_type.hpp"
#include "parser/csv.hpp"
#include <fstream>
#include <unistd.h>

struct Cell { std::string text; double num = 0; };

struct CsvFile {
    std::string path, content;
    char sep = ',';
    std::vector<std::vector<Cell>> rows;   // row 0 is the header
    std::vector<std::string> lines;
    bool final_newline = true;
    size_t cols() const { return rows.empty() ? 1 : rows[0].size(); }
};

inline Cell gen_cell(pbt::Case& c, char sep, bool plain_numeric_only = false) {
    Cell r; char b[64];
    static const char* words[] = {"a", "abc", "x y", "true1", "TRUE", "\"q\"", "-", ".", "n/a", "_", "edge_learning", "\r", "'"};
    switch (plain_numeric_only ? c.weighted({3, 3, 0, 0, 0}) : c.weighted({4, 4, 2, 2, 2})) {
        case 0: { long v = static_cast<long>(c.range(0, 40)) - 20; if (c.chance(1, 6)) v *= 1000003; r.text = std::to_string(v); r.num = static_cast<double>(v); break; }
        case 1: { double v = c.num(100); const char* f[] = {"%.1f", "%.3f", "%.17g", "%.4e", "%+.2f"};
            std::snprintf(b, sizeof b, f[c.below(5)], v); r.text = b; r.num = std::strtod(b, nullptr); break; }
        case 2: r.text = c.flip() ? "true" : "false"; break;
        case 3: break;
        default: r.text = words[c.below(sizeof words / sizeof *words)]; break;
    }
    if (!plain_numeric_only && c.chance(1, 12)) { const char* blank[] = {" ", "  ", "\t", "\r"}; if (c.chance(2, 3)) r.text = blank[c.below(3)] + r.text; if (c.flip()) r.text += blank[c.below(4)]; c.label("blanks"); }
    std::string t; for (char ch : r.text) if (ch != sep && ch != '\n') t += ch;
    if (t != r.text) { r.text = ""; r.num = 0; }
    return r;
}

struct CsvOpt { size_t max_rows = 9, max_cols = 6; bool ragged = true, numeric = false; size_t min_rows = 1; bool huge = false; };

inline CsvFile gen_csv(pbt::Case& c, const CsvOpt& o = CsvOpt()) {
    CsvFile f;
    f.sep = c.flip() ? ',' : ";\t| :"[c.below(5)];
    size_t big = c.chance(1, 40) ? 1 + c.below(3) : 0; size_t cols = big == 1 ? c.usize(1, 80) : c.small(1, o.max_cols);
    std::vector<Cell> h;
    for (size_t j = 0; j < cols; ++j) { Cell x; x.text = std::string(1, static_cast<char>('A' + j % 26)); if (c.chance(1, 8)) x.text = ""; h.push_back(x); }
    f.rows.push_back(h);
    bool rag = o.ragged && c.chance(1, 4);
    auto add_row = [&] {
        std::vector<Cell> r; size_t n = cols;
        if (rag && c.chance(1, 3)) n = c.usize(1, cols + 2);
        for (size_t j = 0; j < n; ++j) r.push_back(gen_cell(c, f.sep, o.numeric));
        f.rows.push_back(r);
    };
    if (big == 2) { cols = std::min<size_t>(cols, 3); f.rows[0].resize(cols); for (size_t k = c.usize(20, 400); k; --k) add_row(); c.label("many_rows"); } else c.repeat(o.min_rows - 1, o.max_rows, add_row);
    if (big == 1) c.label("many_columns");
    if (big == 3) for (size_t k = c.small(1, 3); k; --k) { auto& r = f.rows[c.below(f.rows.size())]; auto& x = r[c.below(r.size())]; if (x.text.find_first_not_of("0123456789") != std::string::npos) { x.text = ""; x.num = 0; } x.text = std::string(c.usize(200, 70000), 'w') + x.text; x.num = 0; c.label("long_line"); }
    if (!big && o.huge && cols <= 3 && f.rows.size() > 1 && c.chance(1, 300)) {   // more rows than sixteen bits count
        size_t k = f.rows.size() - 1, n = 65530 + c.below(12); f.rows.reserve(n + 1);
        for (size_t i = k; i < n; ++i) { auto r = f.rows[1 + i % k]; r[0].text = std::to_string(i); r[0].num = double(i); f.rows.push_back(r); }
        c.label("huge_file");
    }
    f.final_newline = c.chance(2, 3);
    for (auto& r : f.rows) {
        std::string l; for (size_t j = 0; j < r.size(); ++j) { if (j) l += f.sep; l += r[j].text; }
        f.lines.push_back(l);
    }
    // An unterminated empty last line is no line at all.
    if (f.lines.back().empty()) f.final_newline = true;
    for (size_t i = 0; i < f.lines.size(); ++i) { f.content += f.lines[i]; if (i + 1 < f.lines.size() || f.final_newline) f.content += '\n'; }
    if (c.chance(1, 30)) {   // some line ends at, before or behind a multiple of a buffer size
        size_t block = size_t(1) << c.pick(std::vector<size_t>{6, 8, 9, 10, 12, 13, 15, 16, 16}), line = c.below(f.lines.size()), end = 0;
        for (size_t i = 0; i <= line; ++i) end += f.lines[i].size() + 1;
        size_t want = block * c.usize(1, 2) + c.below(3) - 1; while (want < end) want += block;
        std::string pad(want - end, 'H'); f.rows[0][0].text += pad; f.content.insert(f.rows[0][0].text.size() - pad.size(), pad); f.lines[0].insert(f.rows[0][0].text.size() - pad.size(), pad); c.label("aligned_line");
    }
    f.path = pbt::scratch() + "/f" + std::to_string(getpid()) + ".csv";
    std::ofstream os(f.path, std::ios::binary | std::ios::trunc); os << f.content; os.close();
    c.note("file (sep '", std::string(1, f.sep), "'): ", f.content.size() < 20000 ? pbt::show(f.content) : pbt::show(f.content.substr(0, 300)) + "...");
    c.label_if(f.lines.size() == 1, "header_only"); c.label_if(!f.final_newline, "no_final_newline");
    c.label_if(rag, "ragged"); c.label_if(cols == 1, "one_column");
    return f;
}

inline std::vector<EdgeLearning::TypeChecker::Type> ref_types(const CsvFile& f) {
    std::vector<EdgeLearning::TypeChecker::Type> t;
    for (size_t j = 0; j < f.cols(); ++j)
        t.push_back(f.rows.size() > 1 && j < f.rows[1].size() ? ref_type(f.rows[1][j].text) : EdgeLearning::TypeChecker::Type::NONE);
    return t;
}
#endif

// C02: random access to CSV rows and cells against the file kept in memory.
#include "csv_gen.hpp"
using namespace EdgeLearning;
using T = TypeChecker::Type;
const char* const PBT_RULE = "A generated CSV file (1-6 columns, 0-9 data rows, ragged rows, 6 separators, with or without final newline) and a history of "
    "row/cell reads on a CSV object and its copies. Non-trivial: at least 3 rows in the file and 3 reads in the history.";

void property(pbt::Case& c) {
    CsvFile f = gen_csv(c, [] { CsvOpt o; o.huge = true; return o; }());
    auto types = ref_types(f);
    std::vector<T> given = {T::AUTO};
    switch (c.below(4)) {
        case 0: break;
        case 1: given = {}; break;
        case 2: given.assign(f.cols(), T::FLOAT); for (auto& t : given) t = static_cast<T>(1 + c.below(4)); types = given; c.label("explicit_types"); break;
        default: given.assign(f.cols() + 1, T::INT); break;
    }
    if (given.size() == f.cols() && given.size() == 1 && given[0] == T::AUTO) types = ref_types(f);
    auto csv = std::make_unique<CSV>(f.path, given, f.sep);
    size_t n = f.lines.size(), reads = 0;
    auto check_row = [&](const CSVRow& r, size_t i) {
        CHECK_EQ(c, r.line(), f.lines[i], "row", i);
        CHECK_EQ(c, std::string(r), f.lines[i]);
        std::ostringstream os; os << r; CHECK_EQ(c, os.str(), f.lines[i]);
        CHECK_EQ(c, r.idx(), i);
        CHECK_EQ(c, r.size(), f.cols());
        CHECK_EQ(c, r.empty(), false);
        CHECK(c, r.types() == types, "types of row", i);
        for (size_t j = 0; j < f.cols() + 2; ++j) {
            if (j < f.cols() && j < f.rows[i].size()) {
                CSVField fd = r[j];
                CHECK_EQ(c, fd.as<std::string>(), f.rows[i][j].text, "cell", i, j);
                CHECK_EQ(c, fd.idx(), j);
                CHECK(c, fd.type() == types[j], "type of cell", i, j);
                c.label_if(f.rows[i][j].text.empty() && j + 1 == f.rows[i].size(), "empty_last_cell");
            } else {
                bool threw = false;
                try { (void) r[j]; } catch (const std::exception&) { threw = true; }
                CHECK(c, threw, "missing cell", i, j);
                c.label_if(j < f.cols(), "missing_cell");
            }
        }
    };
    auto check_meta = [&] {
        CHECK_EQ(c, csv->rows_size(), n);
        CHECK_EQ(c, csv->cols_size(), f.cols());
        CHECK(c, csv->types() == types, "types of the file");
        check_row(csv->header(), 0);
    };
    check_meta();
    // Another table, whose rows and cells may be put into the same variables.
    std::string second = pbt::scratch() + "/second.csv"; std::vector<std::string> other_lines; std::vector<T> other_types;
    { size_t w = c.small(1, 3); static const std::vector<std::pair<std::string, T>> cells = {{"1", T::INT}, {"0.5", T::FLOAT}, {"true", T::BOOL}, {"word", T::STRING}, {"", T::NONE}};
      for (size_t i = 0; i < 3; ++i) { std::string l; for (size_t j = 0; j < w; ++j) { auto& p = c.pick(cells); l += (j ? ";" : "") + p.first; if (i == 1) other_types.push_back(p.second); } other_lines.push_back(l); }
      std::ofstream o(second); for (auto& l : other_lines) o << l << "\n"; }
    CSV other(second, {T::AUTO}, ';');
    auto check_other = [&](const CSVRow& r, size_t i) { CHECK_EQ(c, r.line(), other_lines[i], "row of the other table"); CHECK_EQ(c, r.idx(), i); CHECK(c, r.types() == other_types, "types of a row of the other table"); CHECK_EQ(c, r.size(), other_types.size()); };
    std::vector<std::pair<size_t, CSVRow>> kept;
    c.repeat(0, 14, [&] {
        switch (c.weighted({8, 2, 1, 1, 1, 2})) {
            case 0: case 1: {
                size_t i = c.below(3) ? c.below(n) : c.below(3 * n + 2); if (c.chance(1, 6)) { i = c.pick(std::vector<size_t>{size_t(1) << 16, size_t(1) << 31, size_t(1) << 32, size_t(1) << 33, size_t(1) << 48, size_t(1) << 63, size_t(0) - 8}) + c.below(8) + (c.flip() ? 0 : n); c.label("huge_index"); }
                ++reads; c.label_if(i >= n, "wrapped");
                CSVRow r = (*csv)[i]; c.note("read row ", i);
                check_row(r, i % n);
                if (kept.size() < 3) kept.emplace_back(i % n, r);
                break; }
            case 2: check_meta(); break;
            case 3: { for (auto& k : kept) check_row(k.second, k.first);
                for (auto& a : kept) for (auto& b : kept) { CHECK_EQ(c, a.second == b.second, f.lines[a.first] == f.lines[b.first]); CHECK_EQ(c, a.second != b.second, f.lines[a.first] != f.lines[b.first]); }
                break; }
            case 5: { // variables that held something else
                size_t i = c.below(n), j = c.below(n), k = c.below(3); c.note("assign rows ", i, " ", j, " and ", k, " of the other table"); c.label("assigned"); CSVRow r = (*csv)[i], q = other[k];
                switch (c.below(4)) {
                    case 0: r = (*csv)[j]; check_row(r, j); check_other(q, k); break;
                    case 1: r = q; check_other(r, k); r = (*csv)[j]; check_row(r, j); check_other(q, k); break;
                    case 2: q = r; check_row(q, i); check_row(r, i); break;
                    default: { CSVRow u = (*csv)[j]; size_t x = c.below(f.rows[i].size()), y = c.below(f.rows[j].size()); if (x >= f.cols() || y >= f.cols()) break; CSVField a = r[x], b = u[y], d = other[1][0]; bool far = c.flip();
                        a = far ? d : b; CHECK_EQ(c, a.as<std::string>(), far ? d.as<std::string>() : f.rows[j][y].text, "assigned cell"); CHECK(c, a.type() == (far ? other_types[0] : types[y]), "type of an assigned cell"); CHECK_EQ(c, a.idx(), far ? 0 : y, "column of an assigned cell");
                        CHECK(c, b.type() == types[y] && d.type() == other_types[0], "types of the cells assigned from"); CSVField e(a); a = b; CHECK_EQ(c, e.as<std::string>(), far ? d.as<std::string>() : f.rows[j][y].text, "copied cell"); CHECK(c, e.type() == (far ? other_types[0] : types[y]), "type of a copied cell"); }
                }
                check_row((*csv)[i], i); check_other(other[k], k); CHECK(c, other.types() == other_types, "types of the other table"); check_meta(); break; }
            default: { // replaced by a copy, the original is gone
                kept.clear(); c.note("copy"); c.label("copied");
                if (c.flip()) csv = std::make_unique<CSV>(*csv);
                else { auto d = std::make_unique<CSV>(f.path); *d = *csv; csv = std::move(d); }
                check_meta(); break; }
        }
    });
    check_meta();
    // A cell built by hand has the type of its text if it is asked to find it.
    { std::string t = c.pick(f.rows[c.below(n)]).text; T a = c.flip() ? T::AUTO : T::FLOAT, want = a == T::AUTO ? ref_type(t) : a; size_t k = c.below(9); CSVField x(t, a, k); CHECK(c, x.type() == want && a == want, "type of a cell built by hand", pbt::show(t)); CHECK_EQ(c, x.as<std::string>(), t); CHECK_EQ(c, x.idx(), k); }
    // A row built by hand splits like a row of the file.
    size_t i = c.below(n);
    std::vector<T> tt; CSVRow r(f.lines[i], i, tt, f.sep);
    CHECK_EQ(c, r.size(), f.rows[i].size());
    for (size_t j = 0; j < f.rows[i].size(); ++j) { CHECK_EQ(c, r[j].as<std::string>(), f.rows[i][j].text); CHECK(c, r[j].type() == ref_type(f.rows[i][j].text)); }
    c.nontrivial(n >= 3 && reads >= 3);
}

// C03: CSV iterators against indexes into the file kept in memory.
#include "csv_gen.hpp"
#include <list>
using namespace EdgeLearning;
const char* const PBT_RULE = "A generated CSV file, full walks, and histories of moves, copies, comparisons and reads on up to four live iterators. "
    "Non-trivial: at least 3 rows and at least one backward move or copy followed by a read.";

void property(pbt::Case& c) {
    CsvOpt o; o.max_rows = 12;
    o.huge = true; CsvFile f = gen_csv(c, o);
    CSV csv(f.path, {TypeChecker::Type::AUTO}, f.sep);
    size_t n = f.lines.size();
    auto walk = [&] {
        size_t i = 1;
        for (auto& row : csv) {
            CHECK(c, i < n, "walk goes on after the last row", i);
            CHECK_EQ(c, row.line(), f.lines[i], "row", i); CHECK_EQ(c, row.idx(), i); ++i;
        }
        CHECK_EQ(c, i, n, "walk stopped early");
        // the same walk without reading the rows
        size_t k = 0; for (auto it = csv.begin(); it != csv.end(); ++it) { ++k; CHECK(c, k < n + 2, "endless walk"); }
        CHECK_EQ(c, k, n - 1);
    };
    walk();
    struct It { CSVIterator it; size_t idx; };
    std::list<It> its;
    its.push_back({csv.begin(), 1});
    bool back = false, interesting = false;
    c.repeat(0, 40, [&] {
        auto k = its.begin(); std::advance(k, static_cast<long>(c.below(its.size())));
        switch (c.weighted({5, 3, 4, 2, 6, 2, 2, 1, 1, 1})) {
            case 0: if (k->idx < n) { ++k->it; ++k->idx; } break;
            case 1: if (k->idx > 0) { --k->it; --k->idx; back = true; } break;
            case 2: if (k->idx < n) { CSVIterator old = k->it++; if (k->idx < n) { CHECK_EQ(c, old->line(), f.lines[k->idx], "value of it++"); CHECK_EQ(c, old->idx(), k->idx); } ++k->idx; } break;
            case 3: if (k->idx > 0) { CSVIterator old = k->it--; if (k->idx < n) { CHECK_EQ(c, (*old).line(), f.lines[k->idx], "value of it--"); } --k->idx; back = true; } break;
            case 4:
                if (k->idx < n) {
                    c.note("read at ", k->idx);
                    const CSVRow& r = *k->it;
                    CHECK_EQ(c, r.line(), f.lines[k->idx], "iterator at", k->idx); CHECK_EQ(c, r.idx(), k->idx); CHECK_EQ(c, r.size(), f.cols());
                    CHECK_EQ(c, k->it->line(), csv[k->idx].line());
                    if (f.rows[k->idx].size()) CHECK_EQ(c, r[0].as<std::string>(), f.rows[k->idx][0].text);
                    if (back) interesting = true;
                } else if (c.chance(1, 3)) { (void) *k->it; c.label("read_at_end"); }
                break;
            case 5: if (its.size() < 4) { its.push_back({CSVIterator(k->it), k->idx}); back = true; c.label("copied"); } break;
            case 6: for (auto& a : its) for (auto& b : its) { CHECK_EQ(c, a.it == b.it, a.idx == b.idx); CHECK_EQ(c, a.it != b.it, a.idx != b.idx); } break;
            case 7: if (its.size() < 4) its.push_back({csv.end(), n}); break;
            case 8: if (its.size() > 1) its.erase(k); break;
            default: { size_t i = c.below(n); CHECK_EQ(c, csv[i].line(), f.lines[i]); break; }
        }
    });
    for (auto& k : its) if (k.idx < n) CHECK_EQ(c, k.it->line(), f.lines[k.idx], "iterator at", k.idx);
    for (auto& k : its) CHECK_EQ(c, k.it == csv.end(), k.idx == n);
    walk();
    c.label_if(interesting, "moved_back");
    c.nontrivial(n >= 3 && interesting);
}

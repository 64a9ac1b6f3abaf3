// C01: type inference of a text cell against an independent recogniser.
#include "pbt.hpp"
#include "ref_type.hpp"
using namespace EdgeLearning;
using T = TypeChecker::Type;
const char* const PBT_RULE =
    "Texts drawn from: numeric-shaped pieces glued together, mutations of valid spellings, quoted texts, keywords with "
    "edits, raw bytes, long runs. Non-trivial: the text is non-empty and contains a digit, a sign, a quote, or is one edit "
    "away from a keyword.";

static std::string gen(pbt::Case& c, bool allow_long) {
    std::string s;
    static const std::vector<std::string> pieces = {"0","1","9","7","00","12","-","+",".","e","E","e-","E+","e5",".5","\"","true","false",
        "True","nan","inf","x","0x1f"," ","\n",",","t","f","rue","\t","\r","_","''", "\xc3\xa9", std::string(1, '\0')};
    switch (c.weighted({6, 4, 4, 3, 3, 3, 1, 1})) {
        case 0: c.repeat(0, 8, [&] { s += c.pick(pieces); }); break;
        case 1: { // valid integer
            if (c.flip()) s += c.flip() ? '-' : '+';
            c.repeat(1, 24, [&] { s += static_cast<char>('0' + c.below(10)); });
            break; }
        case 2: { // valid float
            if (c.flip()) s += c.flip() ? '-' : '+';
            c.repeat(0, 10, [&] { s += static_cast<char>('0' + c.below(10)); });
            if (c.flip()) s += '.';
            c.repeat(1, 10, [&] { s += static_cast<char>('0' + c.below(10)); });
            if (c.flip()) { s += c.flip() ? 'e' : 'E'; if (c.flip()) s += c.flip() ? '-' : '+';
                c.repeat(1, 4, [&] { s += static_cast<char>('0' + c.below(10)); }); }
            break; }
        case 3: { // quoted
            s += '"'; c.repeat(0, 8, [&] { s += c.pick(pieces); }); s += '"'; break; }
        case 4: s = c.flip() ? "true" : "false"; break;
        case 5: c.repeat(0, 12, [&] { s += static_cast<char>(c.below(256)); }); break;
        case 6: break;
        default: if (allow_long) {
            size_t n = c.small(100, 60000);
            char f = "19.a-0\""[c.below(7)];
            s.assign(n, f);
            if (c.flip()) s = "\"" + s + "\"";
            if (c.flip()) s = "-1." + s; } break;
    }
    if (c.chance(1, 3)) // mutate one place
        c.span([&] {
            size_t p = c.below(s.size() + 1);
            switch (c.below(3)) {
                case 0: s.insert(p, 1, "0159.eE+-\"tT \n"[c.below(14)]); break;
                case 1: if (p < s.size()) s.erase(p, 1); break;
                default: if (p < s.size()) s[p] = "0159.eE+-\"tT \n"[c.below(14)]; break;
            }
        });
    return s;
}

void property(pbt::Case& c) {
    std::vector<std::string> cells; std::vector<T> want;
    c.repeat(1, 6, [&] { // a cell is fresh, or a neighbour of an earlier one: the same, or with one character changed
        if (cells.empty() || c.chance(2, 3)) { cells.push_back(gen(c, true)); return; }
        std::string s = c.flip() ? cells.back() : c.pick(cells); c.label("neighbour");
        if (!s.empty() && c.chance(3, 4)) { size_t p = c.flip() ? s.size() - 1 - c.below(std::min<size_t>(s.size(), 3)) : c.below(s.size()); s[p] = "0159.eE+-\"tT x\n"[c.below(15)]; }
        cells.push_back(s); });
    TypeChecker tc;
    for (auto& s : cells) {
        T w = ref_type(s); want.push_back(w);
        c.note("text ", pbt::show(s), " -> ", static_cast<int>(w));
        T g = TypeChecker::parse(s);
        CHECK(c, g == w, "inferred", static_cast<int>(g), "reference", static_cast<int>(w), "text", pbt::show(s));
        CHECK(c, tc(s) == w);
        CHECK_EQ(c, TypeChecker::is_float(s), w == T::FLOAT);
        CHECK_EQ(c, TypeChecker::is_int(s), w == T::INT);
        CHECK_EQ(c, TypeChecker::is_bool(s), w == T::BOOL);
        CHECK_EQ(c, TypeChecker::is_string(s), w == T::STRING);
        CHECK(c, TypeChecker::parse(s) == w, "second inference differs");
        bool num = s.find_first_of("0123456789+-\"") != std::string::npos;
        c.nontrivial(num || s.find("rue") != std::string::npos || s.find("als") != std::string::npos);
        c.label(w == T::NONE ? "none" : w == T::INT ? "int" : w == T::FLOAT ? "float" : w == T::BOOL ? "bool" : "string");
        c.label_if(s.size() > 20000, "long");
        c.label_if(w == T::STRING && num, "near-miss string");
        c.label_if(s.size() > 1 && s[0] == '"' && s.back() == '"', "quoted");
    }
    std::vector<T> all = TypeChecker::parse(cells), all2 = tc(cells);
    CHECK_EQ(c, all.size(), cells.size());
    for (size_t i = 0; i < cells.size(); ++i)
        CHECK(c, all[i] == want[i] && all2[i] == want[i], "list inference differs at", i, pbt::show(cells[i]));
}

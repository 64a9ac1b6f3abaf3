// D09: data sets of every element type behave like the ones of doubles.
#include "data_gen.hpp"
#include "parser/csv.hpp"
#include <fstream>
#include <unistd.h>
const char* const PBT_RULE = "Histories (constructions from rows, flat values and cubes, re-sequencing, re-labelling, writes, sub-ranges, splits, shuffles, joins, views, normalisations, parsing) run side by side on a data set of doubles and one of another element type, "
    "over values both can hold; every accessor is compared after every step. Non-trivial: at least three steps on data that is not empty.";
static bool coded = false;   // the values stand for ones only the wider type can hold
template <class T> static T code(double x) { if (!coded) return static_cast<T>(x); return std::is_integral<T>::value ? static_cast<T>(static_cast<T>(x) * static_cast<T>(1ll << (sizeof(T) == 8 ? 40 : 0)) + 1) : static_cast<T>(x) + static_cast<T>(std::ldexp(1.0, -44)); }
template <class T> static bool same(const std::vector<T>& a, const std::vector<double>& b, bool exact) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) { if (coded) { if (a[i] != code<T>(b[i])) return false; continue; } double x = double(a[i]); if (exact ? x != b[i] : !(std::fabs(x - b[i]) <= 2e-4 * (1 + std::fabs(b[i])))) return false; }
    return true;
}
template <class T> static std::vector<T> as(const std::vector<double>& v) { std::vector<T> r; for (double x : v) r.push_back(code<T>(x)); return r; }
template <class T> static void compare(pbt::Case& c, const Dataset<T>& a, const Dataset<double>& b, bool exact, const std::string& op) {
    CHECK_EQ(c, a.size(), b.size(), op); CHECK_EQ(c, a.empty(), b.empty(), op); CHECK_EQ(c, a.feature_size(), b.feature_size(), op); CHECK_EQ(c, a.sequence_size(), b.sequence_size(), op);
    CHECK_EQ(c, idx(a.label_idx()), idx(b.label_idx()), op); CHECK_EQ(c, idx(a.input_idx()), idx(b.input_idx()), op); CHECK(c, same(a.data(), b.data(), exact), "values after", op, pbt::show(b.data()));
    for (size_t k = 0; k < b.size() + 1; ++k) CHECK(c, same(a.entry(k), b.entry(k), exact) && same(a.input(k), b.input(k), exact) && same(a.label(k), b.label(k), exact), "entry", k, "after", op);
    for (size_t k = 0; b.sequence_size() && k < b.size() / b.sequence_size() + 1; ++k) CHECK(c, same(a.entry_seq(k), b.entry_seq(k), exact) && same(a.inputs_seq(k), b.inputs_seq(k), exact) && same(a.labels_seq(k), b.labels_seq(k), exact), "sequence", k, "after", op);
}
template <class T> static void history(pbt::Case& c) {
    const bool whole = std::is_integral<T>::value, byte = sizeof(T) == 1; bool exact = true;
    // Whole numbers every one of the types can hold.
    auto value = [&] { return byte ? double(c.below(200)) : std::is_signed<T>::value ? double(c.range(-30000, 30000)) : double(c.below(60000)); };
    auto fresh = [&](Dataset<T>& a, Dataset<double>& b) {
        size_t w = c.small(1, 5), n = c.small(1, 12), q = c.flip() ? 1 : c.small(1, 4); std::vector<double> v; for (size_t i = 0; i < n * w; ++i) v.push_back(value()); auto l = gen_labels(c, w);
        switch (c.below(coded ? 4 : 5)) {
            case 0: case 1: a = Dataset<T>(as<T>(v), w, q, l); b = Dataset<double>(v, w, q, l); break;
            case 2: { std::vector<std::vector<double>> m; std::vector<std::vector<T>> t; for (size_t i = 0; i < n; ++i) { m.emplace_back(v.begin() + long(i * w), v.begin() + long((i + 1) * w)); t.push_back(as<T>(m.back())); } a = Dataset<T>(t, q, l); b = Dataset<double>(m, q, l); break; }
            case 3: { std::vector<std::vector<std::vector<double>>> m; std::vector<std::vector<std::vector<T>>> t; for (size_t i = 0; i < n; ++i) { if (i % q == 0) { m.emplace_back(); t.emplace_back(); } m.back().emplace_back(v.begin() + long(i * w), v.begin() + long((i + 1) * w)); t.back().push_back(as<T>(m.back().back())); } a = Dataset<T>(t, l); b = Dataset<double>(m, l); c.label("cube"); break; }
            default: { std::string p = pbt::scratch() + "/e" + std::to_string(getpid()) + ".csv"; { std::ofstream os(p); for (size_t j = 0; j < w; ++j) os << (j ? ",h" : "h"); for (size_t i = 0; i < n * w; ++i) os << (i % w ? "," : "\n") << long(v[i]); os << "\n"; }
                std::set<SizeType> in; for (auto x : l) if (x < w) in.insert(x);
                auto e = c.flip() ? DatasetParser::LabelEncoding::ONE_HOT_ENCODING : DatasetParser::LabelEncoding::DEFAULT_ENCODING; CSV f(p, {TypeChecker::Type::AUTO}, ',', in); a = Dataset<T>::parse(f, e, q); b = Dataset<double>::parse(f, e, q); c.label("parsed"); break; }
        }
        c.note("fresh: ", n, " entries of ", w, " in sequences of ", q, " labels ", pbt::show(l));
    };
    Dataset<T> a; Dataset<double> b; fresh(a, b); compare(c, a, b, exact, "construction"); size_t steps = 0;
    c.repeat(1, 10, [&] {
        std::string op; if (b.empty()) { fresh(a, b); exact = true; } else ++steps;
        switch (c.below(10)) {
            case 0: { op = "sequence length"; size_t q = c.small(1, 4); a.sequence_size(q); b.sequence_size(q); break; }
            case 1: { op = "labels"; auto l = gen_labels(c, b.feature_size()); a.label_idx(l); b.label_idx(l); break; }
            case 2: { if (b.data().empty()) return; op = "write"; size_t i = c.below(b.data().size()); double v = value(); a.data()[i] = code<T>(v); b.data()[i] = v; break; }
            case 3: { op = "sub-range"; size_t x = c.below(b.size() + 1), y = x + c.below(b.size() - x + 2); a = a.subdata(x, y); b = b.subdata(x, y); break; }
            case 4: { op = "fraction"; double f = c.uniform(0.3, 1.1); a = a.subdata(f); b = b.subdata(f); break; }
            case 5: { op = "split"; double f = c.uniform(0, 1); auto s = a.split(f); auto t = b.split(f); bool first = c.flip(); compare(c, s.training_set, t.training_set, exact, "training part"); compare(c, s.testing_set, t.testing_set, exact, "testing part"); a = first ? s.training_set : s.testing_set; b = first ? t.training_set : t.testing_set; break; }
            case 6: { op = "shuffle"; uint64_t s = c.below(0); a.shuffle(RneType(s)); b.shuffle(RneType(s)); break; }
            case 7: { op = "join"; if (b.data().size() > 2000) return; size_t axis = c.below(3); Dataset<T> x = a; Dataset<double> y = b; if (c.chance(1, 3)) { x = Dataset<T>(); y = Dataset<double>(); if (!exact || c.flip()) {} else fresh(x, y); } bool s = false, t = false;
                Dataset<T> u; Dataset<double> v; try { u = Dataset<T>::concatenate(a, x, axis); } catch (const std::exception&) { s = true; } try { v = Dataset<double>::concatenate(b, y, axis); } catch (const std::exception&) { t = true; }
                CHECK_EQ(c, s, t, "join along", axis, "refused"); if (!s) { a = u; b = v; c.label("joined"); } break; }
            case 8: { op = "view"; bool l = c.flip(); if (l) { if (b.label_idx().empty()) return; a = a.labels(); b = b.labels(); } else { if (b.input_idx().empty()) return; a = a.inputs(); b = b.inputs(); } break; }
            default: { if (whole || coded) return; exact = false; op = "normalisation"; if (c.flip()) { a.min_max_normalization(); b.min_max_normalization(); /* then computed from equal values again */ b.data() = std::vector<double>(a.data().begin(), a.data().end()); for (double x : b.data()) CHECK(c, x >= 0 && x <= 1, "normalised value", x); }
                else { double lo = value(), hi = value(); if (lo == hi) return; a.min_max_normalization(static_cast<T>(lo), static_cast<T>(hi)); b.min_max_normalization(lo, hi); } c.label("normalised"); break; }
        }
        c.note(op); compare(c, a, b, exact, op); if (!exact) { b.data() = std::vector<double>(a.data().begin(), a.data().end()); exact = true; }
    });
    c.nontrivial(steps >= 3);
}
void property(pbt::Case& c) {
    coded = false;
    switch (c.below(7)) {
        case 0: case 1: c.label("float"); history<float>(c); break;
        case 6: coded = true; c.label("long_integer"); history<std::int64_t>(c); break;
        case 2: c.label("int"); history<int>(c); break;
        case 3: c.label("long_double"); coded = c.flip(); history<long double>(c); break;
        case 4: c.label("size"); history<std::uint32_t>(c); break;
        default: c.label("byte"); history<std::uint8_t>(c); break;
    }
}

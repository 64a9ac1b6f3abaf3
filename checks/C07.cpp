// C07: files mean the same in every locale.
#include "model_gen.hpp"
#include "json_gen.hpp"
#include "csv_gen.hpp"
#include <locale>
#include <sstream>
const char* const PBT_RULE = "Cell texts and values converted, tables read, JSON documents and models written and read under generated locales (decimal points, grouping, names of truth values), each step under its own one, against the same done in the classic locale. Non-trivial: a locale whose decimal point or grouping differs.";
struct Punct : std::numpunct<char> {
    char dot, sep; std::string group, yes, no; Punct(char d, char s, std::string g, std::string y, std::string n) : dot(d), sep(s), group(std::move(g)), yes(std::move(y)), no(std::move(n)) {}
    char do_decimal_point() const override { return dot; } char do_thousands_sep() const override { return sep; } std::string do_grouping() const override { return group; } std::string do_truename() const override { return yes; } std::string do_falsename() const override { return no; }
};
struct In { std::locale old; explicit In(const std::locale& l) : old(std::locale::global(l)) {} ~In() { std::locale::global(old); } };
static std::locale gen_locale(pbt::Case& c, std::string& desc, bool& odd) {
    if (c.chance(1, 8)) { desc = "classic"; return std::locale::classic(); }
    char d = c.pick(std::vector<char>{',', ',', '.', ';', '\'', 'x', '-', '1', '/'}), s = c.pick(std::vector<char>{'.', ',', ' ', '\'', '_', ':', '0'}); std::string g = c.pick(std::vector<std::string>{"", "\3", "\1", "\3\2", "\2", std::string(1, char(127))});
    auto p = new Punct(d, s, g, c.pick(std::vector<std::string>{"true", "wahr", "1", "false"}), c.pick(std::vector<std::string>{"false", "falsch", "0", "true"})); odd |= d != '.' || !g.empty(); std::ostringstream o; o.imbue(std::locale::classic()); o << "'" << d << "' '" << s << "' grouping " << g.size() << " " << p->yes; desc = o.str();
    return std::locale(std::locale::classic(), p);
}
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream s; s << f.rdbuf(); return s.str(); }
static bool bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
void property(pbt::Case& c) {
    bool odd = false; std::string la, lb; std::locale A = gen_locale(c, la, odd), B = gen_locale(c, lb, odd); c.note("locales ", la, " and ", lb); c.label_if(odd, "odd_locale"); c.nontrivial(odd);
    TypeChecker tc;
    switch (c.weighted({6, 4, 4, 3})) {
        case 0: { // texts and values
            for (size_t k = c.small(1, 20); k; --k) {
                std::string t; switch (c.below(4)) { case 0: { static const std::vector<std::string> tok = {"1", "0", "234", ".", ",", "-", "+", "e", "'", " ", "5", "000", "_", "x", ":", "\t"}; c.repeat(0, 7, [&] { t += c.pick(tok); }); break; } case 1: t = gen_cell(c, '|').text; break; case 2: t = std::to_string(c.range(-3000000, 3000000)); break;
                    default: { char b[64]; std::snprintf(b, sizeof b, c.flip() ? "%.17g" : "%.3f", c.finite()); t = std::string(b, std::min<size_t>(strlen(b), 60)); } }
                double d0 = 0, d1 = 0; float f0 = 0, f1 = 0; int i0 = 0, i1 = 0; long l0 = 0, l1 = 0; unsigned long u0 = 0, u1 = 0; bool b0 = false, b1 = false; auto ty = tc(t);
                bool r0 = tc(t, d0), r1 = tc(t, f0), r2 = tc(t, i0), r3 = tc(t, l0), r4 = tc(t, b0), r5 = tc(t, u0); In in(A);
                CHECK(c, tc(t) == ty, "type of", pbt::show(t)); CHECK_EQ(c, tc(t, d1), r0, pbt::show(t)); CHECK_EQ(c, tc(t, f1), r1, pbt::show(t)); CHECK_EQ(c, tc(t, i1), r2, pbt::show(t)); CHECK_EQ(c, tc(t, l1), r3, pbt::show(t)); CHECK_EQ(c, tc(t, b1), r4, pbt::show(t)); CHECK_EQ(c, tc(t, u1), r5, pbt::show(t));
                CHECK(c, bits(d0, d1), "double of", pbt::show(t), d0, d1); CHECK(c, bits(f0, f1), "float of", pbt::show(t), f0, f1); CHECK_EQ(c, i1, i0, "int of", pbt::show(t)); CHECK_EQ(c, l1, l0, "long of", pbt::show(t)); CHECK_EQ(c, u1, u0, "unsigned of", pbt::show(t)); CHECK_EQ(c, b1, b0, "truth of", pbt::show(t));
            }
            for (size_t k = c.small(1, 10); k; --k) { double v = c.flip() ? c.num(1e6) : c.finite(); long n = long(c.range(-100000000, 100000000)); float f = static_cast<float>(c.num(1e5)); bool b = c.flip();
                std::string s0 = tc(v), s1 = tc(n), s2 = tc(f), s3 = tc(b); double back = 0; { In in(A); CHECK_EQ(c, tc(v), s0, "text of a double"); CHECK_EQ(c, tc(n), s1, "text of an integer"); CHECK_EQ(c, tc(f), s2, "text of a float"); CHECK_EQ(c, tc(b), s3, "text of a truth value"); }
                { In in(B); tc(s0, back); } CHECK(c, bits(back, v) || (v == 0 && back == 0), "double", v, "written as", s0, "and read as", back); }
            c.label("texts"); break; }
        case 1: { CsvFile f = gen_csv(c); size_t w = f.cols(); std::set<SizeType> l; for (size_t j = 0; j < w && j < 6; ++j) if (c.chance(1, 4)) l.insert(j); CSV x(f.path, {TypeChecker::Type::AUTO}, f.sep, l);
            auto e = c.flip() ? DatasetParser::LabelEncoding::ONE_HOT_ENCODING : DatasetParser::LabelEncoding::DEFAULT_ENCODING; auto enc = x.data_to_encoding(e); auto ty = x.types(); auto d = x.to_mat<double>(); auto i = x.to_mat<int>(); auto b = x.to_vec<bool>(); auto s = x.to_mat<std::string>(); auto fl = x.to_vec<float>();
            In in(A); CSV y(f.path, {TypeChecker::Type::AUTO}, f.sep, l); CHECK_EQ(c, y.rows_size(), x.rows_size()); CHECK_EQ(c, y.cols_size(), w); CHECK(c, y.types() == ty, "types"); CHECK(c, y.to_mat<double>() == d, "numbers"); CHECK(c, y.to_mat<int>() == i, "integers"); CHECK(c, y.to_vec<bool>() == b, "truth values"); CHECK(c, y.to_mat<std::string>() == s, "texts"); CHECK(c, y.to_vec<float>() == fl, "floats");
            CHECK(c, y.data_to_encoding(e) == enc, "encoded entries"); c.label("table"); break; }
        case 2: { Json j; std::string t; Json k; { In in(A); Node n = gen_doc(c, j, 1 + c.below(3)); (void) n; for (size_t q = c.small(0, 3); q && (j.json_type() == JsonObject::JsonType::LIST); --q) { double v = c.finite(); j.append(Json(v)); } std::ostringstream os; os << j; t = os.str(); }
            std::ostringstream os; os << j; CHECK_EQ(c, os.str(), t, "text of the document"); if (t.empty()) break;
            { In in(B); std::istringstream is(t); is >> k; } CHECK(c, k == j, "document read back", pbt::show(t)); c.label("document"); break; }
        default: { GenOpt o; o.tree = c.chance(1, 4); o.loss = c.flip(); o.max_layers = 4; Structure s = gen_structure(c, o); note_structure(c, s); Model a("m"), b("n"); build(a, s); build(b, s); for (auto& l : a.layers()) for (size_t i = 0; i < l->param_count(); ++i) l->param(i) = c.flip() ? c.num(3000) : c.finite(); set_model_params(c, b, 1);
            std::string f1 = pbt::scratch() + "/a.json", f2 = pbt::scratch() + "/b.json"; { std::ofstream f(f1); a.dump(f); } { In in(A); std::ofstream f(f2); a.dump(f); } CHECK_EQ(c, slurp(f2), slurp(f1), "model file");
            { In in(B); std::ifstream f(f2); b.load(f); } auto p = model_params(a), q = model_params(b); CHECK(c, p == q, "loaded parameters"); c.label("model"); break; }
    }
}

// M10: damaged model files.
#include "model_gen.hpp"
#include "parser/json.hpp"
#include <fstream>
#include <sstream>
const char* const PBT_RULE = "Dumped files of generated models with one generated fault each (cut at any byte, an element, a member or a layer missing, a number replaced by something that is none, no file), loaded into a model of the same structure in use, then the undamaged file. Non-trivial: the damaged file differs from the good one inside the description of a layer that has parameters or settings, or is a cut of it.";
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const std::string& p, const std::string& t) { std::ofstream f(p, std::ios::binary); f << t; }
/// A value of the file with the places of its elements.
struct Node { char kind; size_t b, e; std::vector<Node> kids; std::vector<std::pair<size_t, size_t>> member; std::vector<std::string> key; };   // kind: { [ " or 0 (number, word); member: place of "key": value
static void blank(const std::string& t, size_t& i) { while (i < t.size() && std::isspace(static_cast<unsigned char>(t[i]))) ++i; }
static std::string text(const std::string& t, size_t& i) { size_t b = i++; while (i < t.size() && t[i] != '"') ++i; ++i; return t.substr(b, i - b); }
static Node parse(const std::string& t, size_t& i) {
    blank(t, i); Node n; n.b = i; n.kind = 0; char ch = t[i];
    if (ch == '"') { n.kind = '"'; text(t, i); }
    else if (ch == '[' || ch == '{') { n.kind = ch; ++i; blank(t, i); while (i < t.size() && t[i] != ']' && t[i] != '}') { size_t b = i; if (ch == '{') { n.key.push_back(text(t, i)); blank(t, i); ++i; } n.kids.push_back(parse(t, i)); n.member.push_back({b, i}); blank(t, i); if (t[i] == ',') { ++i; blank(t, i); } } ++i; }
    else while (i < t.size() && !std::strchr(",]} \n\t\r", t[i])) ++i;
    n.e = i; return n;
}
static void walk(const Node& n, std::vector<const Node*>& lists, std::vector<const Node*>& dicts, std::vector<const Node*>& numbers) { if (n.kind == '[') lists.push_back(&n); if (n.kind == '{') dicts.push_back(&n); if (n.kind == 0) numbers.push_back(&n); for (auto& k : n.kids) walk(k, lists, dicts, numbers); }
static std::string without(const std::string& t, const Node& n, size_t k) { size_t b = n.member[k].first, e = n.member[k].second; if (k + 1 < n.member.size()) e = n.member[k + 1].first; else if (k > 0) b = n.member[k - 1].second; return t.substr(0, b) + t.substr(e); }
void property(pbt::Case& c) {
    GenOpt o; o.tree = c.chance(1, 3); o.loss = c.flip(); o.max_layers = 4; Structure s = gen_structure(c, o); note_structure(c, s); for (auto& x : s.l) c.label(kind_name(x.kind)); c.label_if(s.loss >= 0, "loss");
    Structure u = s; if (c.chance(1, 3)) { u.in = c.flip() ? s.in : gen_any_shape(c); for (size_t i = 0; i < u.l.size(); ++i) u.l[i] = gen_spec(c, u.l[i].kind, u.parent[i] < 0 ? u.in : u.l[size_t(u.parent[i])].outs, "other" + std::to_string(i)); c.note("into "); note_structure(c, u); c.label("other_settings"); }
    Model a("a"), b("b"); build(a, s); build(b, u); set_model_params(c, a, 1); set_model_params(c, b, 1); std::string good = pbt::scratch() + "/good.json", bad = pbt::scratch() + "/bad.json", again = pbt::scratch() + "/again.json"; { std::ofstream f(good); a.dump(f); }
    std::vector<Vec> xs, zs; for (size_t i = 0, k = c.small(1, 2); i < k; ++i) { xs.push_back(c.nums(u.in.size())); zs.push_back(c.nums(s.in.size())); } auto outputs = [&](Model& m, const std::vector<Vec>& xs) { std::vector<Vec> y; for (auto& x : xs) { reset_states(m); y.push_back(m.predict(x)); for (auto& l : m.output_layers()) y.push_back(l->last_output()); } return y; };
    std::string t = slurp(good); size_t at = 0; Node root = parse(t, at); std::vector<const Node*> lists, dicts, numbers; walk(root, lists, dicts, numbers); size_t end = root.e;
    auto dump_of = [&](Model& m) { { std::ofstream f(again); m.dump(f); } return slurp(again); };
    auto pb = model_params(b); auto yb = outputs(b, xs); std::string db = dump_of(b);
    c.repeat(1, c.tier ? 8 : 4, [&] {
        std::string d, what; bool copy = c.chance(1, 5);
        switch (c.weighted({3, 3, 3, 3, 2, 1, 1, 2})) {
            case 0: { size_t k = c.flip() ? c.below(end) : end - 1 - c.small(0, std::min<size_t>(end - 1, 40)); d = t.substr(0, k); what = "cut after " + std::to_string(k) + " of " + std::to_string(end) + " bytes"; c.label("cut"); break; }
            case 1: { std::vector<const Node*> l; for (auto n : lists) if (!n->kids.empty()) l.push_back(n); const Node& n = *c.pick(l); size_t k = c.below(n.kids.size()); d = without(t, n, k); what = "without element " + std::to_string(k) + ": " + t.substr(n.member[k].first, std::min<size_t>(60, n.member[k].second - n.member[k].first)); c.label("element_missing"); break; }
            case 2: { const Node& n = *c.pick(dicts); size_t k = c.below(n.kids.size()); d = without(t, n, k); what = "without member " + n.key[k] + " of " + t.substr(n.b, 60); c.label("member_missing"); break; }
            case 3: { if (numbers.empty()) return; const Node& n = *c.pick(numbers); std::string r = c.pick(std::vector<std::string>{"{}", "[]", "[1, 2]", "{\"a\": 1}"}); d = t.substr(0, n.b) + r + t.substr(n.e); what = r + " in place of " + t.substr(n.b, n.e - n.b) + " at " + std::to_string(n.b); c.label("no_number"); break; }
            case 4: { const Node* l = nullptr; for (size_t i = 0; i < root.kids.size(); ++i) if (root.key[i] == "\"layers\"") l = &root.kids[i]; size_t k = c.below(l->kids.size()); d = t.substr(0, k ? l->member[k - 1].second : l->b + 1) + t.substr(l->member.back().second); what = "only " + std::to_string(k) + " layers"; c.label("layers_missing"); break; }
            case 5: { d = ""; what = "an empty file"; c.label("empty"); break; }
            case 7: { const Node* l = nullptr; for (size_t i = 0; i < root.kids.size(); ++i) if (root.key[i] == "\"layers\"") l = &root.kids[i]; const Node& n = c.pick(l->kids); size_t k = 0; while (k < n.key.size() && n.key[k] != "\"type\"") ++k; CHECK(c, k < n.kids.size(), "no type in", t.substr(n.b, 60));
                std::string was = t.substr(n.kids[k].b + 1, n.kids[k].e - n.kids[k].b - 2), r = was; switch (c.below(6)) { case 0: r += c.pick(std::vector<std::string>{"X", "2", " ", "Layer", was}); break; case 1: r = r.substr(0, c.below(r.size())); break; case 2: r = r.substr(1); break; case 3: r[c.below(r.size())] ^= 32; break; case 4: r = c.pick(std::vector<std::string>{"Dense", "Linear", "Relu", "ELU", "Softmax", "Convolutional", "Recurrent", "None", "Layer"}); break; default: r = "X" + r; }
                if (r == was) return; d = t.substr(0, n.kids[k].b) + "\"" + r + "\"" + t.substr(n.kids[k].e); what = "type " + r + " in place of " + was; c.label("other_type"); break; }
            default: { what = "no file"; c.label("no_file"); break; }
        }
        c.note(what, copy ? " into a copy" : ""); spit(bad, d); bool none = what == "no file", threw = false; { std::ifstream f(none ? pbt::scratch() + "/missing.json" : bad); try { if (copy) { Model k(b); k.load(f); } else b.load(f); } catch (const std::exception& e) { threw = true; } }
        CHECK(c, threw, "a damaged file was loaded:", what); CHECK_EQ(c, b.name(), "b", "name after a rejected file,", what); auto p = model_params(b); CHECK_EQ(c, p.size(), pb.size()); for (size_t i = 0; i < p.size(); ++i) CHECK_SAME(c, p[i], pb[i], "parameters of layer", i, "after a rejected file,", what);
        CHECK_EQ(c, dump_of(b), db, "the model after a rejected file,", what); auto y = outputs(b, xs); for (size_t i = 0; i < y.size(); ++i) CHECK_SAME(c, y[i], yb[i], "prediction after a rejected file,", what); c.nontrivial();
        if (s.loss >= 0 && c.flip()) { b.step(c.nums(u.in.size()), gen_target(c, u)); c.label("stepped"); }
    });
    { std::ifstream f(good); b.load(f); } CHECK_EQ(c, dump_of(b), t, "loading the undamaged file"); reset_states(a); reset_states(b); auto ya = outputs(a, zs), y = outputs(b, zs); for (size_t i = 0; i < y.size(); ++i) CHECK_SAME(c, y[i], ya[i], "prediction after loading");
}

// Model of JSON documents and generators (J01-J05).
#ifndef VERIF_JSON_GEN_HPP
#define VERIF_JSON_GEN_HPP
#include "pbt.hpp"
#include "ref_type.hpp"
#include "parser/json.hpp"

struct Node {
    enum K { None, Leaf, List, Dict } k = None;
    std::string text; bool quoted = false;
    std::vector<Node> list; std::map<std::string, Node> dict;
    bool operator==(const Node& o) const { return k == o.k && text == o.text && list == o.list && dict == o.dict; }
    // Compact text of the document.
    std::string render() const {
        std::string s;
        switch (k) {
            case None: return "";
            case Leaf: return quoted ? "\"" + text + "\"" : text;
            case List: s = "["; for (size_t i = 0; i < list.size(); ++i) { if (i) s += ","; s += list[i].render(); } return s + "]";
            default: { s = "{"; bool first = true; for (auto& e : dict) { if (!first) s += ","; first = false; s += "\"" + e.first + "\":" + e.second.render(); } return s + "}"; }
        }
    }
    size_t nodes() const { size_t n = 1; for (auto& x : list) n += x.nodes(); for (auto& e : dict) n += e.second.nodes(); return n; }
    size_t depth() const { size_t n = 0; for (auto& x : list) n = std::max(n, x.depth()); for (auto& e : dict) n = std::max(n, e.second.depth()); return n + 1; }
};
using EdgeLearning::Json; using EdgeLearning::JsonItem; using EdgeLearning::JsonLeaf; using EdgeLearning::JsonList; using EdgeLearning::JsonDict; using EdgeLearning::JsonObject;

inline std::string gen_text(pbt::Case& c, bool quotes = false) {
    static const std::vector<std::string> p = {"a", "b", "key", ",", "]", "}", "[", "{", ":", " ", "\n", "\\", "1", "-2.5", "true", "false", "null", "\t", "/", "\xc3\xa9", std::string(1, '\0'), "e5", ".", "'"};
    std::string s;
    if (c.chance(1, 200)) { size_t n = c.small(1, 6000); std::string u = c.pick(p) + c.pick(p); while (s.size() < n) s += u; c.label("long_text"); return s; }
    if (c.chance(1, 4)) { static const char* w[] = {"true", "10", "1.5", "x", "false", "-3", "", "0", "1e5"}; return w[c.below(9)]; }
    c.repeat(0, 5, [&] { s += (quotes && c.chance(1, 6)) ? std::string("\"") : c.pick(p); });
    return s;
}
// A scalar: model node and document built together. `src` receives the number a double was made from.
inline Node gen_leaf(pbt::Case& c, Json& out, std::vector<std::pair<std::string, double>>* doubles = nullptr) {
    Node n; n.k = Node::Leaf;
    switch (c.weighted({3, 2, 3, 2, 4, 1})) {
        case 0: { int v = static_cast<int>(c.range(-100, 100)); out = Json(v); n.text = std::to_string(v); break; }
        case 1: { if (c.flip()) { unsigned long long v = c.below(0); out = Json(v); n.text = std::to_string(v); } else { long long v = static_cast<long long>(c.below(0)); out = Json(v); n.text = std::to_string(v); } break; }
        case 2: { double v = c.finite(); out = Json(v); n.text = static_cast<std::string>(out); if (doubles) doubles->emplace_back(n.text, v); break; }
        case 3: { bool v = c.flip(); out = Json(v); n.text = v ? "true" : "false"; break; }
        case 4: { n.text = gen_text(c); out = c.flip() ? Json(n.text) : Json(JsonLeaf(n.text)); auto t = ref_type(n.text); n.quoted = t == EdgeLearning::TypeChecker::Type::STRING || n.text.empty(); break; }
        default: { n.text = gen_text(c); out = Json(JsonLeaf(n.text, EdgeLearning::TypeChecker::Type::STRING)); n.quoted = true; break; }
    }
    return n;
}
struct DocOpt { size_t depth = 4, width = 4; bool none = false; };
inline Node gen_doc(pbt::Case& c, Json& out, size_t depth, DocOpt o = DocOpt(), std::vector<std::pair<std::string, double>>* ds = nullptr, int force = -1) {
    if (depth && depth <= 3 && o.width < 20 && c.chance(1, 80)) { size_t m = 20 + c.small(0, 300); DocOpt w = o; w.width = m; depth = 1; o = w; c.label("wide"); }
    size_t k = force >= 0 ? static_cast<size_t>(force) : depth == 0 ? 0 : c.weighted({4, 3, 3, o.none ? 1u : 0u});
    Node n;
    if (k == 0) return gen_leaf(c, out, ds);
    if (k == 3) { out = Json(); return n; }
    if (k == 1) {
        n.k = Node::List; std::vector<JsonItem> v;
        c.repeat(o.width >= 20 ? o.width / 2 : 0, o.width, [&] { Json x; n.list.push_back(gen_doc(c, x, depth - 1, o, ds)); v.push_back(x); });
        out = c.flip() ? Json(JsonList(v)) : Json(v);
        if (v.empty()) out = Json(JsonList());
        return n;
    }
    n.k = Node::Dict; JsonDict d;
    c.repeat(o.width >= 20 ? o.width / 2 : 0, o.width, [&] { std::string key = gen_text(c); if (o.width >= 20) key += std::to_string(n.dict.size()); Json x; n.dict[key] = gen_doc(c, x, depth - 1, o, ds); d[key] = x; });
    out = Json(d);
    return n;
}
inline JsonObject::JsonType jtype(const Node& n) {
    switch (n.k) { case Node::Leaf: return JsonObject::JsonType::LEAF; case Node::List: return JsonObject::JsonType::LIST; case Node::Dict: return JsonObject::JsonType::DICT; default: return JsonObject::JsonType::NONE; }
}
// The document has exactly the model's content.
inline void check_same(pbt::Case& c, const Json& j, const Node& n, const std::string& where) {
    CHECK(c, j.json_type() == jtype(n), "kind at", where, "of", pbt::show(n.render()));
    switch (n.k) {
        case Node::None: CHECK_EQ(c, j.size(), 0ul); CHECK_EQ(c, static_cast<std::string>(j), std::string()); break;
        case Node::Leaf: CHECK_EQ(c, static_cast<std::string>(j), n.text, "at", where); CHECK_EQ(c, j.size(), 0ul); break;
        case Node::List: CHECK_EQ(c, j.size(), static_cast<unsigned long>(n.list.size()), "list at", where);
            for (size_t i = 0; i < n.list.size(); ++i) check_same(c, j.at(i), n.list[i], where + "/" + std::to_string(i)); break;
        default: CHECK_EQ(c, j.size(), static_cast<unsigned long>(n.dict.size()), "dict at", where);
            for (auto& e : n.dict) check_same(c, j.at(e.first), e.second, where + "/" + e.first); break;
    }
}
inline std::string print(const Json& j) { std::ostringstream os; os << j; return os.str(); }
#endif

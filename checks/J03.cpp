// J03: equality of documents against structural equality of the models.
#include "json_gen.hpp"
const char* const PBT_RULE = "Pairs of documents: independent, copies, copies re-read from text, and copies with one mutation (text, kind, order, extra/missing element or key, renamed key, emptied). "
    "Non-trivial: the documents differ by one mutation or are equal with at least 3 nodes.";

static Json build(const Node& n) {
    switch (n.k) {
        case Node::None: return Json();
        case Node::Leaf: return n.quoted ? Json(JsonLeaf(n.text, EdgeLearning::TypeChecker::Type::STRING)) : Json(JsonLeaf(n.text));
        case Node::List: { JsonList l; for (auto& x : n.list) l.append(build(x)); return Json(l); }
        default: { JsonDict d; for (auto& e : n.dict) d[e.first] = build(e.second); return Json(d); }
    }
}
static void nodes(Node& n, std::vector<Node*>& out) { out.push_back(&n); for (auto& x : n.list) nodes(x, out); for (auto& e : n.dict) nodes(e.second, out); }

void property(pbt::Case& c) {
    DocOpt o; o.none = true; o.width = 4;
    Json ja; Node a = gen_doc(c, ja, c.below(4), o);
    Node b = a; Json jb;
    size_t how = c.weighted({2, 2, 5, 1});
    if (how == 0) { b = gen_doc(c, jb, c.below(3), o); c.label("independent"); }
    else if (how == 1) { jb = ja; c.label("copy"); c.nontrivial(a.nodes() >= 3); }
    else if (how == 3) { jb = build(b); c.label("rebuilt"); c.nontrivial(a.nodes() >= 3); }
    else {
        size_t times = 1 + c.below(2);
        for (size_t t = 0; t < times; ++t) {
            std::vector<Node*> v; nodes(b, v); Node& n = *c.pick(v);
            switch (c.below(11)) {
                case 0: if (n.k == Node::Leaf) n.text += c.flip() ? "0" : " "; else n.k = Node::None, n.list.clear(), n.dict.clear(), n.text.clear(); break;
                case 1: { Json x; n = gen_doc(c, x, 1, o); break; }
                case 2: if (n.k == Node::List) { Json x; n.list.insert(n.list.begin() + static_cast<long>(c.below(n.list.size() + 1)), gen_doc(c, x, 1, o)); } break;
                case 3: if (!n.list.empty()) n.list.erase(n.list.begin() + static_cast<long>(c.below(n.list.size()))); break;
                case 4: if (n.list.size() > 1) { size_t i = c.below(n.list.size() - 1); std::swap(n.list[i], n.list[i + 1]); } break;
                case 5: if (n.k == Node::Dict) { Json x; n.dict[gen_text(c)] = gen_doc(c, x, 1, o); } break;
                case 6: if (!n.dict.empty()) n.dict.erase(n.dict.begin()); break;
                case 7: if (!n.dict.empty()) { auto e = *n.dict.begin(); n.dict.erase(n.dict.begin()); n.dict[e.first + "'"] = e.second; } break;
                case 8: if (n.k == Node::Leaf && !n.text.empty()) { n.quoted = !n.quoted; c.label("requoted"); } break;   // still equal: a number and its spelling
                case 9: if (n.k == Node::Leaf) { if (n.text.empty()) n.text = "x"; size_t i = c.below(n.text.size()); n.text[i] = static_cast<char>(n.text[i] ^ 0x20); } break;
                default: if (n.k == Node::List && n.list.empty()) n.k = Node::Dict; else if (n.k == Node::Dict && n.dict.empty()) n.k = Node::List; else if (n.k == Node::Leaf && n.text.empty()) n.k = Node::None; break;
            }
        }
        jb = build(b); c.label("mutated"); c.nontrivial();
    }
    bool eq = a == b; c.label(eq ? "equal" : "different"); c.label_if(a.k == Node::None || b.k == Node::None, "empty_document");
    c.note("a ", pbt::show(a.render()), "\nb ", pbt::show(b.render()), " equal ", eq);
    CHECK_EQ(c, ja == jb, eq); CHECK_EQ(c, jb == ja, eq); CHECK_EQ(c, ja != jb, !eq); CHECK_EQ(c, jb != ja, !eq);
    CHECK(c, ja == ja); CHECK(c, !(ja != ja)); CHECK(c, jb == jb);
    Json cp(ja), as; as = jb; CHECK(c, cp == ja); CHECK(c, as == jb); CHECK_EQ(c, cp == as, eq);
    if (a.k != Node::None && b.k != Node::None) { CHECK_EQ(c, ja.value() == jb.value(), eq); CHECK_EQ(c, ja.value() != jb.value(), !eq); }
    if (a.k == Node::List && b.k == Node::List) { JsonList x, y; for (size_t i = 0; i < ja.size(); ++i) x.append(ja[i]); for (size_t i = 0; i < jb.size(); ++i) y.append(jb[i]); CHECK_EQ(c, x == y, eq); CHECK_EQ(c, x != y, !eq); }
    if (a.k == Node::Dict && b.k == Node::Dict) { JsonDict x, y; for (auto& e : a.dict) x[e.first] = ja[e.first]; for (auto& e : b.dict) y[e.first] = jb[e.first]; CHECK_EQ(c, x == y, eq); CHECK_EQ(c, y == x, eq); CHECK_EQ(c, x != y, !eq); }
    if (a.k == Node::Leaf && b.k == Node::Leaf) { JsonLeaf x(a.text), y(b.text); CHECK_EQ(c, x == y, eq); CHECK_EQ(c, x != y, !eq); }
}

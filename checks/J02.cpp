// J02: editing histories on JSON documents against an ordinary tree.
#include "json_gen.hpp"
const char* const PBT_RULE = "Histories of up to 30 assignments, appends, key/index writes, copies (whole, into a node, out of a node) and invalid accesses on up to 3 documents. "
    "Non-trivial: at least 4 successful edits, one of them a copy.";

using Path = std::vector<std::pair<bool, std::string>>;   // (is index, key or index)
static void paths(const Node& n, Path cur, std::vector<Path>& out) {
    out.push_back(cur);
    for (size_t i = 0; i < n.list.size(); ++i) { Path p = cur; p.emplace_back(true, std::to_string(i)); paths(n.list[i], p, out); }
    for (auto& e : n.dict) { Path p = cur; p.emplace_back(false, e.first); paths(e.second, p, out); }
}
static Node& node(Node& r, const Path& p) { Node* n = &r; for (auto& s : p) n = s.first ? &n->list[std::stoul(s.second)] : &n->dict[s.second]; return *n; }
static Json& item(pbt::Case& c, Json& r, const Path& p) {
    Json* j = &r;
    for (auto& s : p) j = s.first ? (c.flip() ? &(*j)[static_cast<std::size_t>(std::stoul(s.second))] : &(*j)[std::stoi(s.second)]) : ((c.flip() || s.second.find(char(0)) != std::string::npos) ? &(*j)[s.second] : &(*j)[s.second.c_str()]);
    return *j;
}
static std::string key(pbt::Case& c) { static const char* k[] = {"a", "b", "c", "", "x y", "1", "[0]"}; return k[c.below(7)]; }

void property(pbt::Case& c) {
    std::vector<Json> js(1 + c.below(3)); std::vector<Node> ns(js.size());
    size_t edits = 0, copies = 0, errors = 0;
    auto str = [](const Path& p) { std::string s; for (auto& x : p) s += "/" + x.second; return s; };
    c.repeat(0, 30, [&] {
        size_t d = c.below(js.size()); std::vector<Path> ps; paths(ns[d], {}, ps);
        if (ns[d].nodes() > 120) { js[d] = Json(); ns[d] = Node(); return; }
        Path p = c.pick(ps); Node& n = node(ns[d], p); Json& j = item(c, js[d], p);
        bool threw = false, want = false;
        auto val = [&](Json& x) { return gen_doc(c, x, c.below(3)); };
        switch (c.weighted({3, 5, 5, 3, 4, 3, 3, 3, 1})) {
            case 0: { Json x; Node m = val(x); c.note("doc", d, str(p), " = ", pbt::show(m.render())); j = x; n = m; ++edits; break; }
            case 1: { std::string k = key(c); Json x; Node m = val(x); c.note("doc", d, str(p), "[", pbt::show(k), "] = ", pbt::show(m.render()));
                want = n.k == Node::List || n.k == Node::Leaf;
                try { j[k] = x; } catch (const std::runtime_error&) { threw = true; }
                if (!want) { if (n.k == Node::None) n.k = Node::Dict; n.dict[k] = m; ++edits; } break; }
            case 2: { Json x; Node m = val(x); c.note("doc", d, str(p), ".append ", pbt::show(m.render()));
                want = n.k == Node::Dict || n.k == Node::Leaf;
                try { j.append(x); } catch (const std::runtime_error&) { threw = true; }
                if (!want) { n.k = Node::List; n.list.push_back(m); ++edits; } break; }
            case 3: { size_t i = c.below(n.list.size() + 2); Json x; Node m = val(x); c.note("doc", d, str(p), "[", i, "] = ", pbt::show(m.render()));
                want = n.k != Node::List || i >= n.list.size();
                try { if (c.flip()) j[i] = x; else j[static_cast<int>(i)] = x; } catch (const std::runtime_error&) { threw = true; }
                if (!want) { n.list[i] = m; ++edits; } break; }
            case 4: { // copy a node of some document into this node, or append/bind it
                size_t e = c.below(js.size()); std::vector<Path> qs; paths(ns[e], {}, qs); Path q = c.pick(qs);
                Node m = node(ns[e], q);   // by value: may be an ancestor or a part of the target
                size_t how = c.below(4); c.note("doc", d, str(p), how == 0 ? " = " : how == 1 ? ".append " : how == 2 ? "[k] = " : " = copy of ", "doc", e, str(q));
                Json& src = item(c, js[e], q);
                if (how == 0) { j = src; n = m; }
                else if (how == 1) { want = n.k == Node::Dict || n.k == Node::Leaf; try { j.append(src); } catch (const std::runtime_error&) { threw = true; } if (!want) { n.k = Node::List; n.list.push_back(m); } }
                else if (how == 2) { want = n.k == Node::List || n.k == Node::Leaf; Json tmp(src); try { j["k"] = tmp; } catch (const std::runtime_error&) { threw = true; } if (!want) { if (n.k == Node::None) n.k = Node::Dict; n.dict["k"] = m; } }
                else { Json tmp(src); j = tmp; n = m; }
                if (!want) { ++edits; ++copies; } break; }
            case 5: { // key access creates
                std::string k = key(c); c.note("touch doc", d, str(p), "[", pbt::show(k), "]");
                want = n.k == Node::List || n.k == Node::Leaf; bool fresh = n.dict.find(k) == n.dict.end();
                try { Json& r = j[k]; if (fresh) CHECK(c, r.json_type() == JsonObject::JsonType::NONE); } catch (const std::runtime_error&) { threw = true; }
                if (!want) { if (n.k == Node::None) n.k = Node::Dict; n.dict[k]; c.label_if(fresh, "created_key"); } break; }
            case 6: { // read-only access
                const Json& cj = j; std::string k = key(c); size_t i = c.below(n.list.size() + 2);
                if (c.flip()) { want = n.k != Node::Dict || !n.dict.count(k); try { check_same(c, cj.at(k), n.dict.count(k) ? n.dict[k] : Node(), "at"); } catch (const std::runtime_error&) { threw = true; } }
                else { want = n.k != Node::List || i >= n.list.size(); try { const Json& r = c.flip() ? cj.at(i) : cj.at(static_cast<int>(i)); check_same(c, r, i < n.list.size() ? n.list[i] : Node(), "at"); } catch (const std::runtime_error&) { threw = true; } }
                break; }
            case 7: { // negative or huge index
                want = true; c.label("bad_index");
                try { switch (c.below(4)) { case 0: (void) j[-1]; break; case 1: (void) j.at(-1); break; case 2: (void) j[std::numeric_limits<std::size_t>::max()]; break; default: (void) j.at(n.list.size()); } } catch (const std::runtime_error&) { threw = true; } break; }
            default: { // passing a document by value
                auto f = [](Json x) { x = Json(5); x = Json(); x["z"] = 1; }; f(j); break; }
        }
        CHECK_EQ(c, threw, want, "after op on doc", d, str(p));
        errors += threw;
        for (size_t i = 0; i < js.size(); ++i) { check_same(c, js[i], ns[i], "doc" + std::to_string(i)); }
        CHECK_EQ(c, print(js[d]), ns[d].render());
    });
    c.label_if(errors > 0, "rejected"); c.label_if(copies > 0, "copied");
    c.nontrivial(edits >= 4 && copies > 0);
}

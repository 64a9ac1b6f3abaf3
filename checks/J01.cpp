// J01: write/read round trip of JSON documents, and reading of sequences of documents.
#include "json_gen.hpp"
#include <fstream>
#include <unistd.h>
const char* const PBT_RULE = "Documents of nested lists, dictionaries and scalars (punctuation in texts and keys, empty containers, extreme numbers, nesting up to 300), written to and "
    "read from text or file streams, alone or one after the other. Non-trivial: the document is a container with at least 3 nodes.";

void property(pbt::Case& c) {
    size_t ndocs = 1 + (c.chance(1, 3) ? c.below(3) : 0);
    std::vector<Node> ns; std::vector<Json> js; std::vector<std::pair<std::string, double>> ds;
    std::string text; std::vector<std::string> texts;
    for (size_t d = 0; d < ndocs; ++d) {
        Json j; Node n = gen_doc(c, j, c.small(0, 5), DocOpt(), &ds);
        if (c.chance(1, 12)) { // deep chain around it
            size_t k = c.small(1, 300); c.label("deep");
            for (size_t i = 0; i < k; ++i) { Node m; if (i % 3) { m.k = Node::List; m.list.push_back(n); JsonList l; l.append(j); j = Json(l); } else { m.k = Node::Dict; m.dict["k"] = n; JsonDict l; l["k"] = j; j = Json(l); } n = m; if (n.nodes() > 1500) break; }
        }
        ns.push_back(n); js.push_back(j);
        std::string s = print(j);
        if (text.size() < 3000) c.note("doc ", pbt::show(n.render()));
        CHECK_EQ(c, s, n.render(), "written text");
        check_same(c, j, n, "");
        if (n.k != Node::Leaf) CHECK_EQ(c, static_cast<std::string>(j), s);
        texts.push_back(s);
        c.nontrivial(n.k != Node::Leaf && n.nodes() >= 3);
        c.label(n.k == Node::List ? "list" : n.k == Node::Dict ? "dict" : "scalar");
        c.label_if(n.render().find("[]") != std::string::npos || n.render().find("{}") != std::string::npos, "empty_container");
    }
    for (auto& d : ds) { CHECK(c, std::strtod(d.first.c_str(), nullptr) == d.second, "text of", pbt::show(d.second), "is", d.first); c.label("double"); }
    // one stream with all documents: a document that is not self-delimiting is followed by a comma
    std::vector<bool> comma(ndocs);
    for (size_t d = 0; d < ndocs; ++d) {
        text += texts[d];
        bool last = d + 1 == ndocs, self = ns[d].k != Node::Leaf || ns[d].quoted;
        comma[d] = !last && (!self || c.flip());
        if (comma[d]) text += ',';
    }
    bool self_last = ns.back().k != Node::Leaf || ns.back().quoted;
    std::string trail; if (self_last && c.chance(1, 3)) { static const char* t[] = {"\n", " tail", "]", "}", "x", "\"", "[1"}; trail = t[c.below(7)]; c.label("trailing"); }
    text += trail;
    std::stringstream ss(text); std::ifstream fs; std::istream* is = &ss;
    if (c.chance(1, 5)) { std::string p = pbt::scratch() + "/j" + std::to_string(getpid()); std::ofstream(p, std::ios::binary | std::ios::trunc) << text; fs.open(p, std::ios::binary); is = &fs; c.label("file"); }
    for (size_t d = 0; d < ndocs; ++d) {
        Json back; bool used = c.chance(1, 3); c.label_if(used, "into_used");
        // A document that was read into before holds what was read last, and values copied from it keep what they held.
        Json copied; Node cn; std::vector<std::pair<std::string, double>> unused; DocOpt small; small.width = 3; if (used) { cn = gen_doc(c, back, c.small(0, 2), small, &unused); copied = back; }
        if (ns[d].k == Node::List && c.chance(1, 4)) { JsonList l; if (used && cn.k == Node::List) for (size_t i = 0; i < cn.list.size(); ++i) l.append(copied[i]); *is >> l; back = Json(l); }
        else if (ns[d].k == Node::Dict && c.chance(1, 4)) { JsonDict l; if (used && cn.k == Node::Dict) for (auto& kv : cn.dict) l[kv.first] = copied[kv.first]; *is >> l; back = Json(l); }
        else *is >> back;
        if (used) check_same(c, copied, cn, "");
        CHECK(c, !is->fail(), "stream failed after document", d);
        CHECK(c, back == js[d], "document", d, "read back differs:", pbt::show(print(back)), "text", pbt::show(text));
        check_same(c, back, ns[d], "");
        CHECK_EQ(c, print(back), texts[d], "second writing");
        for (auto& q : ds) if (ns[d].k == Node::Leaf && ns[d].text == q.first) CHECK_EQ(c, back.as<double>(), q.second);
    }
    std::string rest((std::istreambuf_iterator<char>(*is)), std::istreambuf_iterator<char>());
    CHECK_EQ(c, rest, trail, "stream position after the documents");
    c.label_if(ndocs > 1, "several_documents");
}

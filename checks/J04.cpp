// J04: reading arbitrary bytes as JSON ends, safely.
#include "json_gen.hpp"
#include <fstream>
#include <unistd.h>
const char* const PBT_RULE = "Texts: token soup, valid documents with edits, strict prefixes of valid documents, raw bytes, long runs of brackets; read from text or file streams as Json/JsonList/JsonDict/JsonLeaf. "
    "Non-trivial: the text contains a bracket or a brace.";

void property(pbt::Case& c) {
    std::string s; bool must_reject = false;
    static const std::vector<std::string> tok = {"[", "]", "{", "}", ",", ":", "\"", "\"a\"", "\"k\":", "1", "true", "-2.5", " ", "\n", "[]", "{}", "{\"a\":", "\"]\"", "x", std::string(1, '\0'), "\xff"};
    switch (c.weighted({40, 32, 32, 16, 2, 2})) {
        case 0: c.repeat(0, 30, [&] { s += c.pick(tok); }); c.label("soup"); break;
        case 1: { Json j; s = gen_doc(c, j, c.below(4)).render(); c.label("edited");
            c.repeat(1, 4, [&] { size_t p = c.below(s.size() + 1); switch (c.below(3)) { case 0: s.insert(p, c.pick(tok)); break; case 1: if (p < s.size()) s.erase(p, 1 + c.below(3)); break; default: if (p < s.size()) s[p] = c.pick(tok)[0]; } }); break; }
        case 2: { Json j; s = gen_doc(c, j, 1 + c.below(3), DocOpt(), nullptr, 1 + static_cast<int>(c.below(2))).render(); s.resize(1 + c.below(s.size() - 1)); must_reject = true; c.label("prefix"); break; }
        case 3: c.repeat(0, 40, [&] { s += static_cast<char>(c.below(256)); }); c.label("raw"); break;
        case 4: { // well nested, as deep as is read or deeper
            size_t n = c.small(1, 1200); std::string close; for (size_t i = 0; i < n; ++i) { if (c.chance(2, 3)) { s += c.chance(1, 4) ? "[1,[]," : "["; close += ']'; } else { s += "{\"a\":"; close += '}'; } }
            std::reverse(close.begin(), close.end()); if (c.flip()) s += c.pick(tok); s += close; c.label("nested"); break; }
        default: { static const std::vector<std::string> runs = {"[", "{\"a\":", "[[],", "[1,", "{\"a\":[", "[{\"b\":", "]", "}", "\"", ",", "[\"", "1", "[] "};
            std::string u = c.pick(runs); size_t n = c.small(1, c.tier ? 60000 : 15000); for (size_t i = 0; i < n && s.size() < (c.tier ? 60000u : 15000u); ++i) s += u;
            if (c.flip()) s = "[" + s; if (c.flip()) s += c.pick(tok); c.label("run"); break; }
    }
    c.note("text ", pbt::show(s), " (", s.size(), " bytes)");
    c.nontrivial(s.find_first_of("[]{}") != std::string::npos);
    std::stringstream ss(s); std::ifstream fs; std::istream* is = &ss;
    if (c.chance(1, 6)) { std::string p = pbt::scratch() + "/q" + std::to_string(getpid()); std::ofstream(p, std::ios::binary | std::ios::trunc) << s; fs.open(p, std::ios::binary); is = &fs; }
    bool rejected = false;
    auto use = [&](const Json& j) {
        std::string t = print(j); Json k(j); CHECK(c, k == j); CHECK_EQ(c, print(k), t); (void) j.size(); (void) static_cast<std::string>(j);
        // Printed documents are not much longer than what was read.
        CHECK(c, t.size() <= 4 * s.size() + 16, "printed", t.size(), "from", s.size());
    };
    try {
        switch (must_reject ? 0 : c.weighted({6, 1, 1, 1})) {
            case 0: { Json j; *is >> j; use(j);
                if (c.chance(1, 4)) { size_t k = 0; while (is->good() && is->peek() != EOF && ++k < 50) { Json q; *is >> q; use(q); } c.label("stream_of_documents"); } break; }
            case 1: { JsonList l; *is >> l; use(Json(l)); break; }
            case 2: { JsonDict l; *is >> l; use(Json(l)); break; }
            default: { JsonLeaf l; *is >> l; use(Json(l)); break; }
        }
    } catch (const std::exception&) { rejected = true; c.label("rejected"); }
    if (must_reject) CHECK(c, rejected, "an unterminated container was accepted");
}

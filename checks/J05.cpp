// J05: conversion of JSON values to and from native values.
#include "json_gen.hpp"
using T = EdgeLearning::TypeChecker::Type;
const char* const PBT_RULE = "Values of every native type (extremes included), stored as a leaf, an item, elements of a list or dictionary, or set on a leaf; read back one by one and as a whole; "
    "plus wrong-shape requests. Non-trivial: a container of at least 2 values, or an extreme value.";

template <class V> static V gen(pbt::Case& c) {
    if constexpr (std::is_same<V, bool>::value) return c.flip();
    else if constexpr (std::is_same<V, double>::value) return c.finite();
    else if constexpr (std::is_same<V, float>::value) { double d = c.finite(); return std::fabs(d) < 3e38 ? static_cast<float>(d) : 1.5f; }
    else if constexpr (std::is_same<V, std::string>::value) return gen_text(c, true);
    else { switch (c.below(4)) { case 0: return std::numeric_limits<V>::max(); case 1: return std::numeric_limits<V>::min(); case 2: return static_cast<V>(c.below(0)); default: return static_cast<V>(c.below(100)); } }
}
template <class V> static const char* nm() { return std::is_same<V, bool>::value ? "bool" : std::is_same<V, double>::value ? "double" : std::is_same<V, float>::value ? "float" : std::is_same<V, std::string>::value ? "text" : std::is_signed<V>::value ? "signed" : "unsigned"; }
template <class F> static bool throws(F f) { try { f(); } catch (const std::runtime_error&) { return true; } return false; }

template <class V> static void scalar(pbt::Case& c, const Json& j, const V& v) {
    CHECK(c, j.as<V>() == v, "as<>() of", pbt::show(v), "gave", pbt::show(j.as<V>()));
    V x = V(); j.as(x); CHECK(c, x == v, "as(ref) of", pbt::show(v), "gave", pbt::show(x));
    V y = static_cast<V>(j); CHECK(c, y == v, "cast of", pbt::show(v));
}
template <class V> static void one(pbt::Case& c) {
    V v = gen<V>(c); c.note(nm<V>(), " ", pbt::show(v)); c.label(nm<V>());
    JsonLeaf l{v}; CHECK(c, l.as<V>() == v, "leaf of", pbt::show(v), "gave", pbt::show(l.as<V>())); CHECK(c, static_cast<V>(l) == v); V x = V(); l.as(x); CHECK(c, x == v);
    scalar(c, Json(v), v); scalar(c, Json(l), v);
    Json j; j = v; scalar(c, j, v); CHECK(c, j.json_type() == JsonObject::JsonType::LEAF);
    if constexpr (!std::is_same<V, std::string>::value) { JsonLeaf m(3); m.value(v); CHECK(c, m.as<V>() == v, "value(", pbt::show(v), ") gave", pbt::show(m.as<V>())); JsonLeaf k("text"); k.value(v); CHECK(c, k.type() == m.type() && k.as<V>() == v); CHECK_EQ(c, print(Json(k)), print(Json(m))); if constexpr (!std::is_same<V, bool>::value) CHECK(c, k.type() == (std::is_floating_point<V>::value ? T::FLOAT : T::INT), "type after value(", pbt::show(v), ")"); else { CHECK(c, k.type() == T::BOOL); } }
    if constexpr (std::is_integral<V>::value) {   // the stored text is the number
        std::string w; if constexpr (std::is_same<V, bool>::value) w = v ? "true" : "false"; else w = std::to_string(v);
        CHECK_EQ(c, static_cast<std::string>(l), w); CHECK_EQ(c, static_cast<std::string>(j), w); CHECK_EQ(c, print(j), w); JsonLeaf m("x"); m.value(v); CHECK_EQ(c, static_cast<std::string>(m), w);
        if constexpr (!std::is_same<V, bool>::value) { if (std::fabs(static_cast<double>(v)) < 9e15) CHECK_EQ(c, j.as<double>(), static_cast<double>(v)); if (v <= static_cast<V>(std::numeric_limits<int>::max()) && (!std::is_signed<V>::value || v >= static_cast<V>(std::numeric_limits<int>::min()))) { CHECK_EQ(c, j.as<int>(), static_cast<int>(v)); CHECK_EQ(c, j.as<long long>(), static_cast<long long>(v)); } }
    } else if constexpr (std::is_floating_point<V>::value) { CHECK(c, static_cast<V>(std::strtold(print(j).c_str(), nullptr)) == v, "the text of", pbt::show(v), "is", print(j)); }
    else { CHECK_EQ(c, static_cast<std::string>(l), v); CHECK_EQ(c, static_cast<std::string>(j), v); }
    if (!std::is_same<V, std::string>::value && !std::is_same<V, bool>::value) { T t = l.type(); CHECK(c, t == (std::is_floating_point<V>::value ? T::FLOAT : T::INT)); }
    CHECK(c, throws([&] { (void) j.as_vec<V>(); })); CHECK(c, throws([&] { (void) j.as_map<V>(); })); std::vector<V> vv; std::map<std::string, V> mm;
    CHECK(c, throws([&] { j.as_vec(vv); })); CHECK(c, throws([&] { j.as_map(mm); }));
    if (std::numeric_limits<V>::is_specialized && (v == std::numeric_limits<V>::max() || v == std::numeric_limits<V>::lowest())) c.nontrivial();
}
template <class V> static void many(pbt::Case& c) {
    std::vector<V> v; std::map<std::string, V> m;
    c.repeat(0, c.chance(1, 20) ? 200 : 6, [&] { V x = gen<V>(c); v.push_back(x); m[gen_text(c)] = x; });
    c.note(v.size(), " x ", nm<V>()); c.label(std::string("many_") + nm<V>()); c.nontrivial(v.size() >= 2);
    Json j; std::vector<JsonItem> items; std::map<std::string, JsonItem> mi; for (const auto& x : v) items.push_back(JsonItem(V(x))); for (const auto& e : m) mi[e.first] = JsonItem(V(e.second));
    JsonList l; JsonDict d;
    if constexpr (std::is_same<V, float>::value) { l = JsonList(items); d = JsonDict(mi); } else { l = c.flip() ? JsonList(v) : JsonList(items); d = c.flip() ? JsonDict(m) : JsonDict(mi); }
    Json jl(l), jd(d);
    CHECK_EQ(c, l.size(), static_cast<unsigned long>(v.size())); CHECK_EQ(c, d.size(), static_cast<unsigned long>(m.size())); CHECK_EQ(c, l.empty(), v.empty()); CHECK_EQ(c, d.empty(), m.empty());
    CHECK(c, jl.as_vec<V>() == v); std::vector<V> o; jl.as_vec(o); CHECK(c, o == v); CHECK(c, l.as<V>() == v); o.clear(); l.as(o); CHECK(c, o == v); CHECK(c, static_cast<std::vector<V>>(l) == v);
    CHECK(c, jd.as_map<V>() == m); std::map<std::string, V> om; jd.as_map(om); CHECK(c, om == m); CHECK(c, d.as<V>() == m); om.clear(); d.as(om); CHECK(c, om == m); CHECK((c), (static_cast<std::map<std::string, V>>(d) == m));
    for (size_t i = 0; i < v.size(); ++i) { V x = v[i]; scalar<V>(c, jl[i], x); CHECK(c, l.value()[i].template as<V>() == x); }
    for (auto& e : m) { scalar<V>(c, jd[e.first], e.second); CHECK(c, d.value().at(e.first).template as<V>() == e.second); }
    CHECK(c, throws([&] { (void) jl.as<V>(); })); CHECK(c, throws([&] { (void) jd.as<V>(); })); CHECK(c, throws([&] { V x; jl.as(x); }));
    CHECK(c, throws([&] { (void) jl.as_map<V>(); })); CHECK(c, throws([&] { (void) jd.as_vec<V>(); }));
    if (!std::is_same<V, std::string>::value) { CHECK(c, throws([&] { (void) static_cast<V>(jl); })); CHECK(c, throws([&] { (void) static_cast<V>(jd); })); }
    // element by element through assignment
    Json k; for (const auto& x : v) k.append(V(x)); if (!v.empty()) CHECK(c, k.as_vec<V>() == v);
}
template <class V> static void none(pbt::Case& c) {
    Json j; c.label("empty_document");
    CHECK(c, throws([&] { (void) j.as<V>(); })); CHECK(c, throws([&] { V x = V(); j.as(x); })); CHECK(c, throws([&] { (void) j.as_vec<V>(); })); CHECK(c, throws([&] { (void) j.as_map<V>(); })); CHECK(c, throws([&] { (void) j.value(); }));
}
template <class V> static void all(pbt::Case& c) { switch (c.weighted({3, 4, 1})) { case 0: one<V>(c); break; case 1: many<V>(c); break; default: none<V>(c); } }

void property(pbt::Case& c) {
    switch (c.below(10)) {
        case 0: all<int>(c); break; case 1: all<unsigned>(c); break; case 2: all<long>(c); break; case 3: all<unsigned long>(c); break;
        case 4: all<long long>(c); break; case 5: all<unsigned long long>(c); break; case 6: all<double>(c); break; case 7: all<bool>(c); break; case 8: all<std::string>(c); break;
        default: all<float>(c); break;
    }
}

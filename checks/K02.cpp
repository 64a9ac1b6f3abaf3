// K02: printing a layer, a model or a loss shows its parameters or its state, and changes nothing.
#include "model_gen.hpp"
#include <iostream>
#include <regex>
const char* const PBT_RULE = "Models of generated layers of every kind, with parameters of all magnitudes, some trained; the text printed for each layer, for the whole model and for the losses: all parameters in their order, the sizes in the headings, and no change of the model. "
    "Non-trivial: a layer with at least two parameters.";
struct Capture { std::ostringstream os; std::streambuf* b; Capture() : b(std::cout.rdbuf(os.rdbuf())) {} ~Capture() { std::cout.rdbuf(b); } };
template <class F> static std::string printed(const F& f) { Capture k; f(); return k.os.str(); }
static std::string g6(double v) { std::ostringstream o; o << v; return o.str(); }
/// The values of the text: what is left when headings (lines with a parenthesis) and index brackets are taken away.
static std::vector<std::string> values(const std::string& text, std::vector<std::pair<size_t, size_t>>* sections = nullptr) {
    std::vector<std::string> v; std::istringstream is(text); std::string line;
    while (std::getline(is, line)) {
        size_t open = line.find('('); if (open != std::string::npos) {
            size_t product = 1; std::string in = line.substr(open + 1); std::stringstream ds(in); size_t d; char x; while (ds >> d) { product *= d; if (!(ds >> x) || x != 'x') break; }
            if (sections) sections->push_back({product, v.size()}); continue; }
        std::string t; int depth = 0; for (char ch : line) { if (ch == '[') { ++depth; t += ' '; } else if (ch == ']') { --depth; t += ' '; } else if (!depth) t += ch == ',' ? ' ' : ch; }
        std::istringstream ts(t); std::string w; while (ts >> w) v.push_back(w);
    }
    return v;
}
void property(pbt::Case& c) {
    GenOpt o; o.tree = c.chance(1, 4); o.loss = true; o.max_layers = 5; Structure s = gen_structure(c, o); note_structure(c, s);
    for (size_t i = 0; i < s.l.size(); ++i) s.l[i].name = "layer_" + std::string(1, char('a' + i));
    Model m("printed"); Built b = build(m, s); double mag = c.pick(Vec{1, 1e-8, 1e9, 1e300}); set_model_params(c, m, mag);
    if (mag == 1 && c.flip()) { for (size_t k = c.small(1, 4); k; --k) { m.step(c.nums(s.in.size(), 1), gen_target(c, s)); } c.label("stepped"); }
    auto p = model_params(m), g = model_grads(m); std::vector<Vec> outs; for (auto& l : b.l) outs.push_back(l->last_output());
    std::string all;
    for (size_t i = 0; i < m.layers().size(); ++i) {
        const Layer& l = *m.layers()[i]; std::string text = printed([&] { l.print(); }); all += text; if (dynamic_cast<const LossLayer*>(&l)) continue;
        CHECK_EQ(c, text.substr(0, text.find('\n')), l.name(), "first line"); std::string body = text.substr(text.find('\n') + 1); c.label(kind_name(s.l[i].kind));
        if (p[i].empty()) { CHECK(c, body.find_first_of("0123456789") == std::string::npos, "a layer without parameters prints", body); continue; }
        std::vector<std::pair<size_t, size_t>> sec; std::vector<std::string> got = values(body, &sec), want; Vec order = p[i]; if (s.l[i].kind == RNN) { size_t h = s.l[i].hidden, n = m.layers()[i]->param_count(), in = s.l[i].isz / s.l[i].steps, out = s.l[i].osz / s.l[i].steps, at = in * h + h * h; CHECK_EQ(c, n, at + h + h * out + out); std::rotate(order.begin() + std::ptrdiff_t(at), order.begin() + std::ptrdiff_t(at + h), order.end() - std::ptrdiff_t(out)); c.label("sections"); }   // printed: all weights, then all biases
        for (double v : order) want.push_back(g6(v));
        CHECK_EQ(c, got, want, "values printed by layer", i, "(", kind_name(s.l[i].kind), ")"); c.nontrivial(p[i].size() >= 2);
        for (size_t k = 0; k < sec.size(); ++k) CHECK_EQ(c, (k + 1 < sec.size() ? sec[k + 1].second : got.size()) - sec[k].second, sec[k].first, "values under heading", k, "of layer", i);
    }
    CHECK_EQ(c, printed([&] { m.print(); }), all, "the model prints its layers in order");
    double loss = b.loss->avg_loss(), acc = b.loss->accuracy(); std::string t = printed([&] { b.loss->print(); }); std::smatch k;
    CHECK(c, std::regex_search(t, k, std::regex("^[^:]*: (\\S+)\\s+(\\S+?)% correct\n$")), "loss prints", t);
    CHECK_EQ(c, k[1].str(), g6(loss), "average loss printed"); CHECK_EQ(c, k[2].str(), g6(100 * acc), "accuracy printed"); c.label_if(loss != 0, "loss");
    auto p2 = model_params(m), g2 = model_grads(m); for (size_t i = 0; i < p.size(); ++i) { CHECK(c, same_vec(p[i], p2[i]), "parameters of layer", i, "after printing"); CHECK(c, same_vec(g[i], g2[i]), "gradients of layer", i, "after printing"); }
    for (size_t i = 0; i < outs.size(); ++i) CHECK(c, same_vec(outs[i], b.l[i]->last_output()), "output of layer", i, "after printing");
    CHECK(c, same_double(loss, b.loss->avg_loss()) && same_double(acc, b.loss->accuracy()), "loss after printing");
}

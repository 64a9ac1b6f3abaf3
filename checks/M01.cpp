// M01: dump and load of models.
#include "model_gen.hpp"
#include "parser/json.hpp"
#include <fstream>
#include <sstream>
const char* const PBT_RULE = "Generated models (every layer kind, chains and trees, with and without a loss), parameters from ordinary to extreme finite values, dumped before or after use, from the model or a copy, loaded into a model of the same kinds of layers built with equal or different settings. "
    "Non-trivial: at least one parameter or setting had to change in the loading model.";
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream s; s << f.rdbuf(); return s.str(); }
static std::string gen_name(pbt::Case& c, size_t i) { switch (c.weighted({6, 1, 1, 1})) { case 0: return "n" + std::to_string(i); case 1: return "layer " + std::to_string(i) + ", [a]"; case 2: return "x{:}" + std::to_string(i); default: return std::to_string(i); } }
void property(pbt::Case& c) {
    GenOpt o; o.tree = c.chance(1, 3); o.loss = c.flip(); o.max_layers = c.tier ? 7 : 5; Structure s = gen_structure(c, o); for (size_t i = 0; i < s.l.size(); ++i) s.l[i].name = gen_name(c, i);
    note_structure(c, s); for (auto& x : s.l) c.label(kind_name(x.kind)); c.label_if(s.loss >= 0, "loss"); bool tree = false; for (size_t i = 0; i < s.l.size(); ++i) tree |= s.parent[i] != int(i) - 1; c.label_if(tree, "tree");
    std::string n1 = c.pick(std::vector<std::string>{"m", "a model", "m, {1}", "1"}), n2 = c.pick(std::vector<std::string>{"other", "m"}); Model a(n1); Built ba = build(a, s);
    bool extreme = c.chance(1, 3); if (extreme) { for (auto& l : a.layers()) for (size_t i = 0; i < l->param_count(); ++i) l->param(i) = c.finite(); } else set_model_params(c, a, 1); c.label_if(extreme, "extreme");
    auto used = [&](Model& m) { c.repeat(1, 3, [&] { Vec x = c.nums(s.in.size()); if (s.loss >= 0 && !extreme && c.flip()) m.step(x, gen_target(c, s)); else m.predict(x); }); };
    if (c.chance(1, 3)) { used(a); c.label("used_before"); }
    auto pa = model_params(a); bool via_copy = c.chance(1, 4); std::string f1 = pbt::scratch() + "/a.json", f2 = pbt::scratch() + "/b.json";
    { std::ofstream f(f1); if (via_copy) { Model k(a); k.dump(f); c.label("dumped_copy"); } else a.dump(f); } CHECK(c, model_params(a) == pa, "dumping changed the parameters");
    // The model that loads: the same kinds, equal or different settings.
    Structure t = s; bool differ = c.flip(); if (differ) { t.in = c.flip() ? s.in : gen_any_shape(c); for (size_t i = 0; i < t.l.size(); ++i) t.l[i] = gen_spec(c, t.l[i].kind, t.parent[i] < 0 ? t.in : t.l[size_t(t.parent[i])].outs, "other" + std::to_string(i)); if (s.loss == 0) t.tol = c.pick(Vec{0.1, 3}); c.note("into "); note_structure(c, t); c.label("other_settings"); }
    Model b(n2); Built bb = build(b, t); set_model_params(c, b, 1); if (c.chance(1, 4)) { if (!differ) { used(b); c.label("target_used"); } }
    size_t total = 0; for (auto& p : pa) total += p.size(); c.nontrivial(total > 0 || differ); std::shared_ptr<Model> holder; Model* lb = &b;
    if (!differ && c.chance(1, 5)) { holder = std::make_shared<Model>(b); lb = holder.get(); c.label("loaded_copy"); }
    { std::ifstream f(f1); lb->load(f); }
    CHECK_EQ(c, lb->name(), n1, "model name"); CHECK_EQ(c, lb->layers().size(), a.layers().size());
    for (size_t i = 0; i < a.layers().size(); ++i) {
        auto &x = *a.layers()[i], &y = *lb->layers()[i]; CHECK_EQ(c, y.type(), x.type()); CHECK_EQ(c, y.name(), x.name(), "name of layer", i); CHECK_EQ(c, params(y), pa[i], "parameters of layer", i, x.type());
        CHECK_EQ(c, y.input_size(), x.input_size(), "input size of layer", i); CHECK_EQ(c, y.output_size(), x.output_size(), "output size of layer", i);
        CHECK_EQ(c, y.input_shape().size(), x.input_shape().size()); for (auto [p, q] : {std::pair<DLMath::Shape3d, DLMath::Shape3d>(x.input_shape().shape(), y.input_shape().shape()), {x.output_shape().shape(), y.output_shape().shape()}}) { CHECK_EQ(c, q.height(), p.height()); CHECK_EQ(c, q.width(), p.width()); CHECK_EQ(c, q.channels(), p.channels()); }
        if (auto r = std::dynamic_pointer_cast<RecurrentLayer>(a.layers()[i])) CHECK_EQ(c, std::dynamic_pointer_cast<RecurrentLayer>(lb->layers()[i])->time_steps(), r->time_steps());
    }
    if (lb != &b) CHECK(c, model_params(b) == pa, "a loaded copy shares its parameters with the model");
    // The same predictions and, without dropout, the same training.
    bool drop = false; for (auto& x : s.l) drop |= x.kind == DROP;
    c.repeat(1, 3, [&] { Vec x = c.nums(s.in.size(), 2); reset_states(a); reset_states(*lb); Vec ya = a.predict(x), yb = lb->predict(x); CHECK_SAME(c, yb, ya, "prediction of", pbt::show(x)); for (size_t i = 0; i < a.output_layers().size(); ++i) CHECK_SAME(c, lb->output_layers()[i]->last_output(), a.output_layers()[i]->last_output(), "output", i); });
    for (size_t i = 0; i < s.l.size(); ++i) if (s.l[i].kind == DROP) { Vec x(s.l[i].isz * 40, 1.0); x.resize(s.l[i].isz); size_t z = 0, n = 0; for (int k = 0; k < 60; ++k) { for (double v : lb->layers()[i]->training_forward(x)) { z += v == 0; ++n; if (v != 0) CHECK(c, pbt::near(v, 1 / (1 - s.l[i].p)), "a kept unit is scaled by", v, "with drop probability", s.l[i].p); } } double q = double(z) / double(n); CHECK(c, std::fabs(q - s.l[i].p) <= 6 * std::sqrt(s.l[i].p * (1 - s.l[i].p) / double(n)), "dropped", q, "with probability", s.l[i].p); c.label("dropout_probability"); }
    if (s.loss >= 0 && !drop && !extreme && !tree) {
        a.reset_score(); lb->reset_score(); if (t.batch != s.batch) lb->loss_layers()[0]->set_batch_size(s.batch); for (Model* m : {&a, lb}) for (auto& l : m->layers()) for (size_t i = 0; i < l->param_count(); ++i) l->gradient(i) = 0;
        c.repeat(1, 3, [&] { reset_states(a); reset_states(*lb); Vec x = c.nums(s.in.size()), y = gen_target(c, s); a.step(x, y); lb->step(x, y); }); auto ga = model_grads(a), gb = model_grads(*lb); for (size_t i = 0; i < ga.size(); ++i) CHECK_SAME(c, gb[i], ga[i], "gradients of layer", i); CHECK(c, same_double(lb->accuracy(), a.accuracy()) && same_double(lb->avg_loss(), a.avg_loss()), "scores"); c.label("trained");
    }
    { std::ofstream f(f2); lb->dump(f); } CHECK_EQ(c, slurp(f2), slurp(f1), "dumping again");
    // A file of other kinds of layers is rejected.
    if (c.chance(1, 6)) { Structure u = s; size_t i = c.below(u.l.size()); int k; do { k = int(c.below(N_KINDS)); } while (k == u.l[i].kind); u.l[i] = gen_spec(c, k, u.l[i].in, "k"); for (size_t j = i + 1; j < u.l.size(); ++j) u.l[j] = gen_spec(c, u.l[j].kind, u.parent[j] < 0 ? u.in : u.l[size_t(u.parent[j])].outs, "k"); u.loss = -1; Model w("w"); build(w, u); bool threw = false; try { std::ifstream f(f1); w.load(f); } catch (const std::exception&) { threw = true; } CHECK(c, threw, "a layer of another kind was loaded"); c.label("other_kind"); }
}

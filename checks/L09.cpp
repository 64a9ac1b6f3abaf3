// L09: optimisers against their update rules.
#include "dnn_gen.hpp"
#include "dnn/gd_optimizer.hpp"
#include "dnn/adam_optimizer.hpp"
#include "dnn/model.hpp"
#include "dnn/mse_loss.hpp"
const char* const PBT_RULE = "Histories of updates by gradient descent or Adam over several layers of different kinds, their copies (which share parameters) and whole models, with generated gradients, in generated interleavings, with optimiser resets, "
    "against reference parameter and moment vectors. Non-trivial: at least two updates of some layer.";
struct Slot { std::shared_ptr<Layer> l; Vec p, m, v; size_t t = 0; size_t updates = 0; };
void property(pbt::Case& c) {
    bool adam = c.flip(); double lr = c.chance(1, 10) ? 0.0 : c.uniform(0.001, 0.5), b1 = c.flip() ? 0.9 : c.uniform(0, 0.99), b2 = c.flip() ? 0.999 : c.uniform(0.1, 0.9999), eps = c.flip() ? 1e-8 : c.uniform(1e-8, 1e-2); std::shared_ptr<Optimizer> o;
    if (adam) o = std::make_shared<AdamOptimizer>(lr, b1, b2, eps); else o = std::make_shared<GradientDescentOptimizer>(lr);
    c.note(adam ? "adam" : "gd", " rate ", lr, " ", b1, " ", b2, " ", eps); c.label(adam ? "adam" : "gd");
    std::vector<Slot> s; Model md("m"); bool model = c.chance(1, 3); size_t n = c.small(1, 4), w = c.small(1, 3), w0 = w;
    for (size_t i = 0; i < n; ++i) {
        Slot q; if (model) { if (c.chance(1, 3)) { q.l = md.add_layer<TanhLayer>("t" + std::to_string(i), SizeType(w)); } else { size_t x = c.small(1, 4); q.l = md.add_layer<DenseLayer>("d" + std::to_string(i), SizeType(w), SizeType(x)); w = x; } }
        else { int k = int(c.weighted({3, 2, 2, 1})); if (k == 3) k = RELU; Made m = make_layer(c, k, gen_shape(c, k), "l" + std::to_string(i), 4); q.l = m.l; c.note(m.desc); c.label(kind_name(k)); }
        set_params(c, *q.l); q.p = params(*q.l); q.m.assign(q.p.size(), 0.0); q.v = q.m; s.push_back(q);
    }
    if (model) { auto loss = md.add_loss<MeanSquaredLossLayer>("l", SizeType(w), SizeType(1), 0.1); for (size_t i = 0; i + 1 < n; ++i) md.create_edge(s[i].l, s[i + 1].l); md.create_loss_edge(s.back().l, loss); c.label("model"); } (void)w0;
    auto apply = [&](Slot& q, const Vec& g) {
        ++q.updates; ++q.t;
        for (size_t i = 0; i < q.p.size(); ++i) {
            if (!adam) { q.p[i] -= lr * g[i]; continue; }
            q.m[i] = b1 * q.m[i] + (1 - b1) * g[i]; q.v[i] = b2 * q.v[i] + (1 - b2) * g[i] * g[i];
            q.p[i] -= lr * (q.m[i] / (1 - std::pow(b1, double(q.t)))) / (std::sqrt(q.v[i] / (1 - std::pow(b2, double(q.t)))) + eps);
        }
    };
    auto draw = [&](Layer& l) { Vec g(l.param_count()); double mag = c.pick(Vec{1, 1, 1, 1, 1e-4, 1e-4, 1e3, 1e3, 1e-9, 1e-12, 1e-200, 1e9}); c.label_if(mag < 1e-5, "tiny_gradients"); bool none = c.chance(1, 12), some = c.chance(1, 6); for (size_t i = 0; i < g.size(); ++i) l.gradient(i) = g[i] = none || (some && c.flip()) ? 0.0 : c.num(1) * mag; c.label_if(none || some, "zero_gradients"); return g; };
    bool lng = c.chance(1, 15); c.label_if(lng, "long_history");
    c.repeat(1, lng ? 250 : 16, [&] {
        if (model) {
            if (c.chance(1, lng ? 120 : 10)) { o->reset(); for (auto& q : s) { q.t = 0; q.m.assign(q.p.size(), 0.0); q.v = q.m; } c.label("reset"); c.note("reset"); return; }
            bool via = c.chance(1, 3); Model copy(md); Model& from = via ? copy : md; std::vector<Vec> g; for (size_t i = 0; i < n; ++i) g.push_back(draw(*from.layers()[i])); c.note("update the model", via ? " through a copy" : ""); c.label_if(via, "model_copy");
            if (via) { md.train(*o, copy); } else md.train(*o);
            for (size_t i = 0; i < n; ++i) { apply(s[i], g[i]); CHECK_EQ(c, grads(*from.layers()[i]), Vec(g[i].size(), 0.0), "gradients after the update"); CHECK_NEAR(c, params(*md.layers()[i]), s[i].p, "layer", i, "after", s[i].updates, "updates"); CHECK_NEAR(c, params(*s[i].l), s[i].p); c.nontrivial(s[i].updates >= 2 && !g[i].empty()); }
            return;
        }
        Slot& q = s[c.below(n)];
        switch (c.weighted({lng ? 90u : 6u, lng ? 30u : 3u, 1, 1, adam ? 1u : 0u})) {
            case 0: { Vec g = draw(*q.l); c.note("update ", pbt::show(g)); bool chk = c.flip(); if (chk) o->train_check(*q.l, *q.l); else o->train(*q.l); apply(q, g); CHECK_EQ(c, grads(*q.l), Vec(g.size(), 0.0), "gradients after the update"); break; }
            case 1: { auto k = q.l->clone(); Vec g = draw(*k), mine = draw(*q.l); bool chk = c.flip(); c.note("update from a copy ", pbt::show(g)); if (chk) o->train_check(*k, *q.l); else o->train(*k, *q.l); apply(q, g); CHECK_EQ(c, grads(*k), Vec(g.size(), 0.0), "gradients of the copy after the update"); CHECK_EQ(c, grads(*q.l), mine, "gradients of the other layer"); CHECK_NEAR(c, params(*k), q.p, "parameters are shared"); c.label("copy"); break; }
            case 2: { o->reset(); for (auto& e : s) { e.t = 0; e.m.assign(e.p.size(), 0.0); e.v = e.m; } c.label("reset"); c.note("reset"); break; }
            case 4: { if (!c.chance(1, 6)) break; // Another layer where one was: it starts with no history.
                SizeType wi = SizeType(c.small(24, 48)), wo = SizeType(c.small(16, 40)); std::vector<std::shared_ptr<Layer>> l{std::make_shared<DenseLayer>("r", wi, wo)};
                auto push = [&](Layer& x) { double mag = c.uniform(0.1, 2); for (SizeType i = 0; i < x.param_count(); ++i) x.gradient(i) = mag * double(i % 5) - 1; };
                size_t before = 1 + c.below(3); for (size_t i = 0; i < before; ++i) { push(*l[0]); o->train(*l[0], *l[0]); } const NumType* was = &l[0]->param(0); l.clear();
                for (int i = 0; i < 4; ++i) { std::vector<char> big(3u << 20); volatile char* b = big.data(); b[i] = 1; }
                for (int i = 0; i < 48; ++i) { l.push_back(std::make_shared<DenseLayer>("r", wi, wo)); if (&l.back()->param(0) == was) { c.label("replaced_in_place"); break; } }
                Slot f; f.l = l.back(); f.p = params(*f.l); f.m.assign(f.p.size(), 0.0); f.v = f.m; push(*f.l); Vec g = grads(*f.l); c.note("update of a layer that replaces one after ", before, " updates");
                o->train(*f.l, *f.l); apply(f, g); CHECK_NEAR(c, params(*f.l), f.p, "a layer that replaces another, after its first update"); break; }
            default: { DenseLayer other("o", q.l->param_count() + 1, 2); Vec p0 = params(other); bool threw = false; try { o->train_check(*q.l, other); } catch (const std::exception&) { threw = true; } CHECK(c, threw, "layers with different parameter counts were accepted"); CHECK_EQ(c, params(other), p0); c.label("mismatch"); break; }
        }
        for (size_t i = 0; i < n; ++i) CHECK_NEAR(c, params(*s[i].l), s[i].p, "layer", i, "after", s[i].updates, "updates");
        c.nontrivial(q.updates >= 2 && !q.p.empty()); c.label_if(adam && n > 1 && q.updates >= 2, "adam_several_layers");
    });
}

// L06: gradients add up over a batch and reset after each update.
#include "dnn_gen.hpp"
#include "dnn/gd_optimizer.hpp"
#include "dnn/adam_optimizer.hpp"
#include "dnn/model.hpp"
#include "dnn/mse_loss.hpp"
const char* const PBT_RULE = "Layers with parameters and chain models, trained on generated batches in a generated order with predictions in between, for several updates: the accumulated gradient against the sum of the gradients each sample gives alone to a fresh copy, zero after each update. "
    "Non-trivial: a batch of at least two samples.";
static std::shared_ptr<Optimizer> optimizer(pbt::Case& c) { double lr = c.uniform(0.001, 0.2); if (c.flip()) return std::make_shared<GradientDescentOptimizer>(lr); return std::make_shared<AdamOptimizer>(lr); }

static void layer(pbt::Case& c) {
    int kind = int(c.below(3)); Made m = make_layer(c, kind, gen_shape(c, kind), "l"); Layer& l = *m.l; set_params(c, l); c.label(kind_name(kind)); c.note(m.desc, " params ", pbt::show(params(l)));
    auto o = optimizer(c); Vec h0(m.hidden); for (auto& h : h0) h = c.uniform(-0.9, 0.9);
    auto reset = [&](Layer& x) { if (m.kind == RNN) static_cast<RecurrentLayer&>(x).hidden_state(h0); };
    for (size_t b = 0, nb = c.small(1, 4); b < nb; ++b) {
        size_t n = c.small(1, 7); std::vector<Vec> x(n), g(n), in(n); Vec sum(l.param_count(), 0.0); auto fresh = l.clone(); CHECK_EQ(c, grads(*fresh), Vec(l.param_count(), 0.0), "a copy made after the update has gradients");
        for (size_t i = 0; i < n; ++i) { x[i] = c.nums(m.in); g[i] = c.nums(m.out); auto f = fresh->clone(); reset(*f); f->training_forward(x[i]); in[i] = f->backward(g[i]); Vec a = grads(*f); for (size_t k = 0; k < a.size(); ++k) sum[k] += a[k]; }
        std::vector<size_t> order(n); for (size_t i = 0; i < n; ++i) order[i] = i; for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[c.below(i)]);
        c.note("batch of ", n, " order ", pbt::show(order)); Vec p0 = params(l);
        for (size_t i : order) {
            if (c.chance(1, 3)) { Vec g0 = grads(l), z = c.nums(m.in); l.forward(z); CHECK_EQ(c, grads(l), g0, "a prediction changed the gradients"); c.label("predicted_between"); }
            reset(l); l.training_forward(x[i]); CHECK_NEAR(c, l.backward(g[i]), in[i], "input gradient of sample", i, "depends on the other samples");
        }
        CHECK_EQ(c, params(l), p0, "parameters changed before the update"); CHECK_NEAR(c, grads(l), sum, "batch", b);
        if (c.chance(1, 3)) { Vec z = c.nums(m.in); l.forward(z); CHECK_NEAR(c, grads(l), sum, "after a prediction"); }
        o->train(l); CHECK_EQ(c, grads(l), Vec(l.param_count(), 0.0), "gradients after the update"); c.nontrivial(n >= 2); c.label_if(b > 0, "several_updates");
    }
}
static void model(pbt::Case& c) {
    Model md("m"); size_t depth = c.small(1, 3), in = c.small(1, 4), w = in; std::vector<std::shared_ptr<Layer>> ls; std::string d;
    for (size_t i = 0; i < depth; ++i) {
        size_t o = c.small(1, 5); ls.push_back(md.add_layer<DenseLayer>("d" + std::to_string(i), SizeType(w), SizeType(o))); d += "dense " + std::to_string(w) + "->" + std::to_string(o) + " "; w = o;
        switch (c.below(4)) { case 0: ls.push_back(md.add_layer<TanhLayer>("t" + std::to_string(i), SizeType(w))); d += "tanh "; break; case 1: ls.push_back(md.add_layer<SigmoidLayer>("s" + std::to_string(i), SizeType(w))); d += "sigmoid "; break; case 2: ls.push_back(md.add_layer<LinearLayer>("l" + std::to_string(i), SizeType(w))); d += "linear "; break; default: break; }
    }
    size_t batch = c.small(1, 6); auto loss = md.add_loss<MeanSquaredLossLayer>("mse", SizeType(w), SizeType(batch), 0.1);
    for (size_t i = 0; i + 1 < ls.size(); ++i) md.create_edge(ls[i], ls[i + 1]); md.create_loss_edge(ls.back(), loss);
    for (auto& l : ls) set_params(c, *l); c.note("model ", d, "batch ", batch); auto o = optimizer(c);
    auto all = [&](Model& q) { Vec v; for (auto& l : q.layers()) { auto e = grads(*l); v.insert(v.end(), e.begin(), e.end()); } return v; };
    auto allp = [&](Model& q) { Vec v; for (auto& l : q.layers()) { auto e = params(*l); v.insert(v.end(), e.begin(), e.end()); } return v; };
    for (size_t b = 0, nb = c.small(1, 3); b < nb; ++b) {
        size_t n = c.small(1, 6); Vec sum(all(md).size(), 0.0); std::vector<Vec> x(n), t(n);
        // the gradient of each sample by central differences of its loss: sum of squares over the batch size
        for (size_t i = 0; i < n; ++i) { x[i] = c.nums(in, 1); t[i] = c.nums(w, 1); Model q(md); CHECK_EQ(c, all(q), Vec(sum.size(), 0.0)); q.step(x[i], t[i]); Vec a = all(q); for (size_t k = 0; k < a.size(); ++k) sum[k] += a[k]; }
        bool tame = true; for (double v : allp(md)) if (std::fabs(v) > 3) tame = false;      // difference quotients need moderate values
        if (tame && c.chance(1, 2)) {
            auto value = [&] { double s = 0; for (size_t i = 0; i < n; ++i) { Vec y = md.predict(x[i]); for (size_t k = 0; k < w; ++k) s += (t[i][k] - y[k]) * (t[i][k] - y[k]); } return s / double(batch); };
            size_t k = 0; for (auto& l : md.layers()) for (size_t i = 0; i < l->param_count(); ++i, ++k) { double h = 1e-5, s = l->param(i); l->param(i) = s + h; double u = value(); l->param(i) = s - h; double v = value(); l->param(i) = s; double fd = (u - v) / (2 * h); CHECK(c, std::fabs(fd - sum[k]) <= 1e-5 * (1 + std::fabs(fd) + std::fabs(sum[k])), "parameter", k, "difference quotient of the loss", fd, "sum of gradients", sum[k]); }
            c.label("loss_differences");
        }
        std::vector<size_t> order(n); for (size_t i = 0; i < n; ++i) order[i] = i; for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[c.below(i)]); c.note("batch of ", n, " order ", pbt::show(order));
        Vec p0 = allp(md);
        for (size_t i : order) { if (c.chance(1, 3)) { Vec g0 = all(md); md.predict(c.nums(in)); CHECK_EQ(c, all(md), g0, "a prediction changed the gradients"); CHECK_EQ(c, allp(md), p0); c.label("predicted_between"); } md.step(x[i], t[i]); if (c.chance(1, 8)) md.reset_score(); }
        CHECK_EQ(c, allp(md), p0, "parameters changed before the update"); CHECK_NEAR(c, all(md), sum, "model, batch", b);
        md.train(*o); CHECK_EQ(c, all(md), Vec(sum.size(), 0.0), "gradients after the update"); c.nontrivial(n >= 2); c.label_if(b > 0, "several_updates");
    }
    c.label("model");
}
void property(pbt::Case& c) { if (c.chance(2, 5)) model(c); else layer(c); }

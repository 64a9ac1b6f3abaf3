// M11: one training step of a model of any tree shape accumulates the gradient of the sum of its losses.
#include "model_gen.hpp"
#include "dnn/gd_optimizer.hpp"
const char* const PBT_RULE = "Models wired as generated chains and forests of layers, with losses at any of their layers, trained over generated samples and updates: outputs, input gradients, losses and accumulated parameter gradients against the same layers run one by one, "
    "the gradient of a layer being the sum of those handed back by all that follow it; for smooth layers also against central differences of the summed loss. Non-trivial: a layer whose output is used more than once.";
struct Head { size_t of; int kind; double tol; };
struct Tree { Structure s; std::vector<Head> heads; size_t batch = 1; };
static std::shared_ptr<LossLayer> make_loss(const Head& h, const Tree& t, size_t i) {
    size_t n = t.s.l[h.of].osz; std::string name = "loss" + std::to_string(i);
    if (h.kind == 0) return std::make_shared<MeanSquaredLossLayer>(name, n, t.batch, h.tol);
    return std::make_shared<CategoricalCrossEntropyLossLayer>(name, n, t.batch);
}
void property(pbt::Case& c) {
    GenOpt o; o.tree = true; o.loss = false; o.max_layers = c.chance(1, 15) ? 14 : 7; bool smooth = c.chance(1, 3); if (smooth) o.drop = o.rnn = false;
    Tree t; t.s = gen_structure(c, o); size_t n = t.s.l.size(); t.batch = c.small(1, 4); c.label_if(n > 8, "many_layers");
    if (c.chance(1, 2)) for (size_t i = 2; i < n; ++i) if (c.chance(1, 3)) {          // more branches
        int p = int(c.below(i)); if (p == t.s.parent[i]) continue; const auto& f = t.s.l[size_t(p)].outs; if (f.size() != t.s.l[i].isz || f.height() != t.s.l[i].in.height() || f.width() != t.s.l[i].in.width()) continue; t.s.parent[i] = p; }
    std::vector<size_t> users(n, 0); for (size_t i = 0; i < n; ++i) if (t.s.parent[i] >= 0) ++users[size_t(t.s.parent[i])];
    size_t target = 0, least = size_t(-1);
    for (size_t i = 0; i < n; ++i) {
        if (users[i] ? !c.chance(1, 10) : (t.heads.empty() && i + 1 == n ? false : c.chance(1, 8))) { if (!users[i]) c.label("end_without_loss"); continue; }
        const Spec& l = t.s.l[i]; int kind = l.kind == SOFT && c.chance(2, 3) ? 1 : 0; t.heads.push_back({i, kind, c.pick(Vec{0.1, 0.0, 0.5, 5})}); target = std::max(target, l.osz); if (kind == 1) least = std::min(least, l.osz);
        c.label(kind ? "cce" : "mse"); if (users[i]) { c.label("inner_loss"); ++users[i]; }
    }
    if (t.heads.empty()) { t.heads.push_back({n - 1, 0, 0.1}); target = t.s.l[n - 1].osz; }
    c.label_if(t.heads.size() > 1, "several_losses"); size_t roots = 0; for (int p : t.s.parent) roots += p < 0; c.label_if(roots > 1, "several_inputs");
    bool shared = false; for (size_t u : users) shared |= u > 1; c.nontrivial(shared); c.label_if(shared, "branched"); c.label(shared ? "tree" : "chain");
    { bool uneven = false; std::vector<size_t> depth(n); std::map<size_t, std::set<size_t>> under; for (size_t i = 0; i < n; ++i) depth[i] = t.s.parent[i] < 0 ? 0 : depth[size_t(t.s.parent[i])] + 1;
      for (const auto& h : t.heads) for (int p = int(h.of), d = 0; p >= 0; p = t.s.parent[size_t(p)], ++d) { under[size_t(p)].insert(size_t(d)); uneven |= under[size_t(p)].size() > 1; } c.label_if(uneven, "uneven_branches"); }
    note_structure(c, t.s); for (const auto& h : t.heads) c.note(h.kind ? "cce" : "mse", " at layer ", h.of); c.note("batch ", t.batch);

    // The model and the layers to run by hand: built alike, with the same parameters.
    Model m("m"); std::vector<std::shared_ptr<Layer>> ml, hl; std::vector<std::shared_ptr<LossLayer>> mloss, hloss;
    for (const auto& s : t.s.l) { ml.push_back(add_spec(m, s)); hl.push_back(make_spec(s)); }
    for (size_t i = 0; i < t.heads.size(); ++i) {
        size_t k = t.s.l[t.heads[i].of].osz; std::string name = "loss" + std::to_string(i); hloss.push_back(make_loss(t.heads[i], t, i));
        if (t.heads[i].kind == 0) mloss.push_back(m.add_loss<MeanSquaredLossLayer>(name, k, t.batch, t.heads[i].tol)); else mloss.push_back(m.add_loss<CategoricalCrossEntropyLossLayer>(name, k, t.batch));
    }
    std::vector<size_t> arcs; for (size_t i = 0; i < n + t.heads.size(); ++i) arcs.push_back(i); if (c.flip()) for (size_t i = arcs.size(); i > 1; --i) std::swap(arcs[i - 1], arcs[c.below(i)]);
    for (size_t a : arcs) { if (a >= n) m.create_loss_edge(ml[t.heads[a - n].of], mloss[a - n]); else if (t.s.parent[a] >= 0) m.create_edge(ml[size_t(t.s.parent[a])], ml[a]); }
    for (size_t i = 0; i < n; ++i) { set_params(c, *ml[i]); for (size_t k = 0; k < ml[i]->param_count(); ++k) hl[i]->param(k) = ml[i]->param(k); c.label(kind_name(t.s.l[i].kind)); }
    Model copy(m); Model& q = c.chance(1, 4) ? (c.label("copy"), copy) : m; auto layer = [&](size_t i) { return q.layers()[i]; };

    bool smooth_kinds = true; for (const auto& s : t.s.l) if (s.kind == RNN || s.kind == MAXP || s.kind == RELU || s.kind == ELU || s.kind == DROP) smooth_kinds = false;
    GradientDescentOptimizer gd(c.uniform(0.001, 0.1)); std::vector<Vec> hgrad(n);
    for (size_t b = 0, nb = c.small(1, 3); b < nb; ++b) {
        c.label_if(b > 0, "several_updates");
        for (size_t k = 0, ns = c.small(1, 3); k < ns; ++k) {
            c.label_if(k > 0, "several_samples"); Vec x = c.nums(t.s.in.size(), 1), y(target); for (auto& v : y) v = c.uniform(-1, 1); if (least != size_t(-1)) { std::fill(y.begin(), y.end(), 0.0); y[c.below(least)] = 1; }
            if (c.chance(1, 5) && !std::count_if(t.s.l.begin(), t.s.l.end(), [](const Spec& s) { return s.kind == RNN; })) { m.predict(x); c.label("predicted_before"); }
            std::vector<Vec> before = model_grads(q);
            q.step(x, y);
            // by hand
            std::vector<Vec> in(n), out(n), up(n); std::vector<char> reached(n, 0);
            for (size_t i = 0; i < n; ++i) { in[i] = t.s.parent[i] < 0 ? x : out[size_t(t.s.parent[i])]; out[i] = hl[i]->training_forward(in[i]); CHECK_SAME(c, layer(i)->last_output(), out[i], "output of layer", i); }
            for (size_t i = 0; i < t.heads.size(); ++i) {
                size_t of = t.heads[i].of; hloss[i]->set_target(y); hloss[i]->training_forward(out[of]); const Vec& g = hloss[i]->backward(x);
                if (!reached[of]) up[of] = g; else for (size_t j = 0; j < g.size(); ++j) up[of][j] += g[j]; reached[of] = 1;
                double a = q.loss_layers()[i]->avg_loss(), e = hloss[i]->avg_loss(); CHECK(c, pbt::near(a, e, 1e-12, 1e-300) || a == e, "average loss", i, "is", a, "instead of", e);
            }
            for (size_t i = n; i-- > 0;) {
                if (!reached[i]) continue;
                const Vec& g = hl[i]->backward(up[i]); int p = t.s.parent[i]; if (p < 0) { CHECK_NEAR(c, layer(i)->last_input_gradient(), g, "gradient of the model input at layer", i); continue; }
                CHECK_NEAR(c, layer(i)->last_input_gradient(), g, "input gradient of layer", i);
                if (!reached[size_t(p)]) up[size_t(p)] = g; else for (size_t j = 0; j < g.size(); ++j) up[size_t(p)][j] += g[j]; reached[size_t(p)] = 1;
            }
            for (size_t i = 0; i < n; ++i) CHECK_NEAR(c, grads(*layer(i)), grads(*hl[i]), "parameter gradients of layer", i, "after sample", k, "of batch", b);
            if (smooth_kinds && c.flip()) {
                std::vector<Vec> after = model_grads(q); c.label("differences");
                auto value = [&] { double s = 0; m.predict(x); for (const auto& h : t.heads) { const Vec& v = m.layers()[h.of]->last_output(); for (size_t j = 0; j < v.size(); ++j) s += h.kind == 0 ? (y[j] - v[j]) * (y[j] - v[j]) : y[j] ? -y[j] * std::log(v[j]) : 0.0; } return s / double(t.batch); };
                size_t all = 0; for (const auto& l : ml) all += l->param_count();
                for (size_t i = 0; i < n; ++i) for (size_t j = all > 300 ? c.below(1 + all / 50) : 0; j < ml[i]->param_count(); j += all > 300 ? 1 + c.below(1 + all / 25) : 1) {
                    double s = ml[i]->param(j), g = after[i][j] - before[i][j]; auto at = [&](double d) { ml[i]->param(j) = s + d; double r = value(); ml[i]->param(j) = s; return r; };
                    double u = at(1e-5), fd = (u - at(-1e-5)) / 2e-5, half = (at(5e-6) - at(-5e-6)) / 1e-5; if (!(std::fabs(fd - half) <= 1e-4 * (1 + std::fabs(fd)))) { c.label("too_steep"); continue; }
                    CHECK(c, std::fabs(fd - g) <= 1e-3 * (1 + std::fabs(fd) + std::fabs(u)) + 1e-9 * std::fabs(after[i][j]), "parameter", j, "of layer", i, ": gradient", g, "differences", fd); }
            }
        }
        m.train(gd, q); for (size_t i = 0; i < n; ++i) { gd.train(*hl[i]); CHECK_NEAR(c, params(*ml[i]), params(*hl[i]), "parameters of layer", i, "after update", b); for (size_t k = 0; k < ml[i]->param_count(); ++k) hl[i]->param(k) = ml[i]->param(k); }
    }
}

// M03: the graph of layers.
#include "model_gen.hpp"
#include "dnn/dlgraph.hpp"
#include <deque>
#include <set>
const char* const PBT_RULE = "Two kinds of cases: histories of additions (layers, losses, edges and arcs in every form, known and unknown layers) and copies over several graphs against sets of declared arcs; and models wired as forests with layers and arcs declared in any order, against the composition of stand-alone layers. "
    "Non-trivial: at least three arcs, or a layer added after one that uses it.";
typedef std::set<std::pair<size_t, size_t>> Arcs;
struct G { std::shared_ptr<DLGraph> g; std::vector<std::shared_ptr<Layer>> l; std::vector<size_t> loss; Arcs f, t, b; };
static void run_ok(pbt::Case& c, const char* what, const G& g, const Arcs& arcs, const std::vector<size_t>& start, const std::vector<DLGraph::Arc>& run) {
    std::map<const Layer*, size_t> id; for (size_t i = 0; i < g.l.size(); ++i) id[g.l[i].get()] = i;
    std::set<size_t> reach(start.begin(), start.end()); for (bool more = true; more;) { more = false; for (auto& a : arcs) if (reach.count(a.first) && reach.insert(a.second).second) more = true; }
    Arcs want; for (auto& a : arcs) if (reach.count(a.first)) want.insert(a); std::set<size_t> computed(start.begin(), start.end()); Arcs got;
    for (auto& a : run) { CHECK(c, id.count(a.from.get()) && id.count(a.to.get()), what, "visits a layer of another graph"); std::pair<size_t, size_t> p(id[a.from.get()], id[a.to.get()]); CHECK(c, got.insert(p).second, what, "visits the arc", p.first, p.second, "twice"); CHECK(c, computed.count(p.first), what, "uses layer", p.first, "before it is computed"); computed.insert(p.second); }
    CHECK(c, got == want, what, "visits other arcs than those reachable:", got.size(), "of", want.size());
}
static void verify(pbt::Case& c, const G& g) {
    const DLGraph& q = *g.g; size_t n = g.l.size(); CHECK_EQ(c, q.size(), n); CHECK(c, q.layers() == g.l, "layers"); CHECK(c, q.training_forward_layers() == g.l && q.backward_layers() == g.l);
    std::vector<size_t> all(n), in, out, fw; std::vector<std::shared_ptr<Layer>> lin, lout, lfw; std::vector<std::shared_ptr<LossLayer>> ll;
    auto is_loss = [&](size_t i) { return std::find(g.loss.begin(), g.loss.end(), i) != g.loss.end(); };
    for (size_t i = 0; i < n; ++i) {
        all[i] = i; bool s = false, p = false; for (auto& a : g.f) { s |= a.first == i; p |= a.second == i; } if (!is_loss(i)) { fw.push_back(i); lfw.push_back(g.l[i]); if (!p) { in.push_back(i); lin.push_back(g.l[i]); } if (!s) { out.push_back(i); lout.push_back(g.l[i]); } }
        CHECK(c, g.g->layer(i) == g.l[i] && (*g.g)[i] == g.l[i]); CHECK_EQ(c, q.index_of(*g.l[i]), int64_t(i));
        auto check = [&](const Arcs& a, const std::set<size_t>& su, const std::set<size_t>& pr, bool hs, bool hp, const char* w) { std::set<size_t> ws, wp; for (auto& x : a) { if (x.first == i) ws.insert(x.second); if (x.second == i) wp.insert(x.first); } CHECK_EQ(c, su, ws, w, "successors of", i); CHECK_EQ(c, pr, wp, w, "predecessors of", i); CHECK_EQ(c, hs, !ws.empty(), w, i); CHECK_EQ(c, hp, !wp.empty(), w, i); };
        check(g.f, q.forward(i), q.forward_predecessors(i), q.has_forward(i), q.has_forward_predecessors(i), "forward"); check(g.t, q.training_forward(i), q.training_forward_predecessors(i), q.has_training_forward(i), q.has_training_forward_predecessors(i), "training forward"); check(g.b, q.backward(i), q.backward_predecessors(i), q.has_backward(i), q.has_backward_predecessors(i), "backward");
    }
    auto matrix = [&](const Arcs& a) { std::vector<int64_t> m(n * n, 0); for (auto& x : a) m[x.first * n + x.second] = 1; return m; };
    CHECK_EQ(c, q.forward_adjacent_matrix(), matrix(g.f)); CHECK_EQ(c, q.training_forward_adjacent_matrix(), matrix(g.t)); CHECK_EQ(c, q.backward_adjacent_matrix(), matrix(g.b));
    CHECK_EQ(c, std::vector<size_t>(q.layers_idx()), all); CHECK_EQ(c, std::vector<size_t>(q.input_layers_idx()), in, "input layers"); CHECK_EQ(c, std::vector<size_t>(q.output_layers_idx()), out, "output layers"); CHECK_EQ(c, std::vector<size_t>(q.forward_layers_idx()), fw); CHECK_EQ(c, std::vector<size_t>(q.loss_layers_idx()), g.loss, "loss layers");
    CHECK(c, q.input_layers() == lin && q.output_layers() == lout && q.forward_layers() == lfw); for (size_t i : g.loss) ll.push_back(std::dynamic_pointer_cast<LossLayer>(g.l[i])); CHECK(c, q.loss_layers() == ll);
    run_ok(c, "the forward order", g, g.f, in, q.forward_run()); run_ok(c, "the training forward order", g, g.t, in, q.training_forward_run()); run_ok(c, "the backward order", g, g.b, g.loss, q.backward_run());
}
static void graphs(pbt::Case& c) {
    std::vector<G> gs(1); gs[0].g = std::make_shared<DLGraph>(); size_t seq = 0; auto node = [&] { return std::make_shared<LinearLayer>("l" + std::to_string(seq++), 2); };
    bool lng = c.chance(1, 40); c.label_if(lng, "long_history");
    c.repeat(1, lng ? 150 : c.tier ? 40 : 24, [&] {
        size_t gi = c.below(gs.size()); G& g = gs[gi]; std::vector<size_t> plain; for (size_t i = 0; i < g.l.size(); ++i) if (std::find(g.loss.begin(), g.loss.end(), i) == g.loss.end()) plain.push_back(i);
        auto some = [&] { std::vector<size_t> v; size_t n = c.small(0, 3); for (size_t i = 0; i < n; ++i) v.push_back(c.pick(plain)); return v; };
        auto ptrs = [&](const std::vector<size_t>& v) { std::vector<std::shared_ptr<Layer>> r; for (size_t i : v) r.push_back(g.l[i]); return r; };
        switch (c.weighted({6, 2, 9, 5, 2, 1, 1})) {
            case 0: if (!g.l.empty() && c.chance(1, 6)) { size_t i = c.below(g.l.size()); c.note(gi, ": add layer ", i, " again"); g.g->add_node(g.l[i]); c.label("same_node"); } else { c.note(gi, ": add a layer"); auto l = node(); g.g->add_node(l); g.l.push_back(l); } break;
            case 1: if (!g.loss.empty() && c.chance(1, 5)) { size_t i = c.pick(g.loss); c.note(gi, ": add loss ", i, " again"); g.g->add_loss(std::dynamic_pointer_cast<LossLayer>(g.l[i])); c.label("same_loss"); } else { c.note(gi, ": add a loss"); auto l = std::make_shared<MeanSquaredLossLayer>("loss" + std::to_string(seq++), 2, 1); g.g->add_loss(l); g.loss.push_back(g.l.size()); g.l.push_back(l); c.label("loss"); } break;
            case 2: { if (plain.empty()) return; size_t a = c.pick(plain), b = c.pick(plain);
                switch (c.below(5)) {
                    case 0: c.note(gi, ": edge ", a, " ", b); g.g->add_edge(g.l[a], g.l[b]); g.f.insert({a, b}); g.t.insert({a, b}); g.b.insert({b, a}); break;
                    case 1: { auto v = some(); c.note(gi, ": edges ", pbt::show(v), " -> ", b); g.g->add_edge(ptrs(v), g.l[b]); for (size_t x : v) { g.f.insert({x, b}); g.t.insert({x, b}); g.b.insert({b, x}); } c.label("many"); break; }
                    case 2: { auto v = some(); c.note(gi, ": edges ", a, " -> ", pbt::show(v)); g.g->add_edge(g.l[a], ptrs(v)); for (size_t x : v) { g.f.insert({a, x}); g.t.insert({a, x}); g.b.insert({x, a}); } c.label("many"); break; }
                    default: if (g.loss.empty()) return; size_t q = c.pick(g.loss); auto ql = std::dynamic_pointer_cast<LossLayer>(g.l[q]);
                        if (c.flip()) { c.note(gi, ": loss edge ", a, " ", q); g.g->add_edge(g.l[a], ql); g.t.insert({a, q}); g.b.insert({q, a}); } else { auto v = some(); c.note(gi, ": loss edges ", pbt::show(v), " -> ", q); g.g->add_edge(ptrs(v), ql); for (size_t x : v) { g.t.insert({x, q}); g.b.insert({q, x}); } } c.label("loss_edge"); break;
                } break; }
            case 3: { if (plain.empty()) return; size_t a = c.pick(plain), b = c.pick(plain);
                switch (c.below(8)) {
                    case 0: c.note(gi, ": forward arc ", a, " ", b); g.g->add_arc_forward(g.l[a], g.l[b]); g.f.insert({a, b}); g.t.insert({a, b}); break;
                    case 1: { auto v = some(); c.note(gi, ": forward arcs ", pbt::show(v), " -> ", b); g.g->add_arc_forward(ptrs(v), g.l[b]); for (size_t x : v) { g.f.insert({x, b}); g.t.insert({x, b}); } break; }
                    case 2: { auto v = some(); c.note(gi, ": forward arcs ", a, " -> ", pbt::show(v)); g.g->add_arc_forward(g.l[a], ptrs(v)); for (size_t x : v) { g.f.insert({a, x}); g.t.insert({a, x}); } break; }
                    case 3: c.note(gi, ": backward arc ", a, " ", b); g.g->add_arc_backward(g.l[a], g.l[b]); g.b.insert({a, b}); break;
                    case 4: { auto v = some(); c.note(gi, ": backward arcs ", pbt::show(v), " -> ", b); g.g->add_arc_backward(ptrs(v), g.l[b]); for (size_t x : v) g.b.insert({x, b}); break; }
                    case 5: { auto v = some(); c.note(gi, ": backward arcs ", a, " -> ", pbt::show(v)); g.g->add_arc_backward(g.l[a], ptrs(v)); for (size_t x : v) g.b.insert({a, x}); break; }
                    default: { if (g.loss.empty()) return; size_t q = c.pick(g.loss); auto ql = std::dynamic_pointer_cast<LossLayer>(g.l[q]); if (c.flip()) { c.note(gi, ": forward arc to loss ", a, " ", q); g.g->add_arc_forward(g.l[a], ql); g.t.insert({a, q}); } else { c.note(gi, ": backward arc of loss ", q, " ", a); g.g->add_arc_backward(g.l[q], g.l[a]); g.b.insert({q, a}); } break; }
                } c.label("arc"); break; }
            case 4: { if (plain.empty()) return; c.note(gi, ": arc with an unknown layer"); std::shared_ptr<Layer> u = gs.size() > 1 && c.flip() && !gs[(gi + 1) % gs.size()].l.empty() ? gs[(gi + 1) % gs.size()].l[0] : node(); if (std::find(g.l.begin(), g.l.end(), u) != g.l.end()) return; auto k = g.l[c.pick(plain)]; bool threw = false; try { switch (c.below(6)) { case 0: g.g->add_edge(u, k); break; case 1: g.g->add_edge(k, u); break; case 2: g.g->add_arc_forward(u, k); break; case 3: g.g->add_arc_forward(k, u); break; case 4: g.g->add_arc_backward(u, k); break; default: g.g->add_arc_backward(k, u); break; } } catch (const std::exception&) { threw = true; } CHECK(c, threw, "an arc with a layer that is not in the graph was accepted"); c.label("unknown"); break; }
            default: { bool assign = c.flip(); size_t to = c.below(gs.size()); if (assign || gs.size() >= 4) { c.note("graph ", to, " = ", gi); *gs[to].g = *g.g; } else { c.note("copy of graph ", gi); G k = g; k.g = std::make_shared<DLGraph>(*g.g); gs.push_back(k); to = gs.size() - 1; }
                G& t = gs[to]; G& s = gs[gi]; if (to != gi) { auto own = t.g->layers(); CHECK_EQ(c, own.size(), s.l.size()); for (size_t i = 0; i < own.size(); ++i) { CHECK(c, own[i] != s.l[i], "a copied graph shares layer", i); CHECK_EQ(c, own[i]->name(), s.l[i]->name()); CHECK_EQ(c, own[i]->type(), s.l[i]->type()); } t.l = own; t.loss = s.loss; t.f = s.f; t.t = s.t; t.b = s.b; } c.label(to == gi ? "self_assigned" : assign ? "assigned" : "copied"); break; }
        }
        for (auto& x : gs) { verify(c, x); if (x.f.size() + x.b.size() >= 6) c.nontrivial(); }
    });
}
static void wiring(pbt::Case& c) {
    GenOpt o; o.tree = c.chance(3, 4); o.max_layers = c.tier ? 8 : 6; Structure s = gen_structure(c, o); for (auto& l : s.l) if (l.kind == DROP) l.p = 0; note_structure(c, s);
    size_t n = s.l.size(); std::vector<size_t> order(n); for (size_t i = 0; i < n; ++i) order[i] = i; if (c.flip()) { for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[c.below(i)]); } c.note("layers added in the order ", pbt::show(order));
    Model m("m"); std::vector<std::shared_ptr<Layer>> l(n); for (size_t i : order) l[i] = add_spec(m, s.l[i]); std::shared_ptr<LossLayer> loss; bool early = c.flip();
    auto add_loss = [&] { if (s.loss == 0) loss = m.add_loss<MeanSquaredLossLayer>("loss", s.l[s.loss_of].osz, s.batch, s.tol); else loss = m.add_loss<CategoricalCrossEntropyLossLayer>("loss", s.l[s.loss_of].osz, s.batch); };
    if (early) add_loss(); std::vector<size_t> ar; for (size_t i = 0; i < n; ++i) if (s.parent[i] >= 0) ar.push_back(i); for (size_t i = ar.size(); i > 1; --i) std::swap(ar[i - 1], ar[c.below(i)]);
    for (size_t i : ar) { auto p = l[size_t(s.parent[i])]; if (c.flip()) m.create_edge(p, l[i]); else if (c.flip()) { m.create_back_arc(p, l[i]); m.create_front_arc(p, l[i]); } else { m.create_front_arc(p, l[i]); m.create_back_arc(p, l[i]); } }
    if (!early) add_loss(); m.create_loss_edge(l[s.loss_of], loss); set_model_params(c, m, 1); c.label("wired"); bool shuffled = false; for (size_t i = 0; i < n; ++i) { size_t a = size_t(std::find(order.begin(), order.end(), i) - order.begin()); if (s.parent[i] >= 0 && size_t(std::find(order.begin(), order.end(), size_t(s.parent[i])) - order.begin()) > a) shuffled = true; } c.label_if(shuffled, "used_before_added"); c.nontrivial(shuffled || ar.size() >= 3);
    std::vector<std::shared_ptr<Layer>> alone(n); for (size_t i = 0; i < n; ++i) { alone[i] = make_spec(s.l[i]); for (size_t k = 0; k < l[i]->param_count(); ++k) alone[i]->param(k) = l[i]->param(k); }
    std::vector<char> leaf(n, 1); size_t roots = 0; for (size_t i = 0; i < n; ++i) if (s.parent[i] >= 0) leaf[size_t(s.parent[i])] = 0; else ++roots; c.label_if(roots > 1, "several_inputs"); size_t leaves = 0, first = n; for (size_t i : order) if (leaf[i]) { if (first == n) first = i; ++leaves; } c.label_if(leaves > 1, "several_outputs");
    const Spec& root = s.l[*std::find_if(order.begin(), order.end(), [&](size_t k) { return s.parent[k] < 0; })]; CHECK_EQ(c, m.input_size(), root.kind == RNN ? root.isz / root.steps : root.isz, "input size");
    CHECK_EQ(c, m.output_size(), s.l[first].kind == RNN ? s.l[first].f : s.l[first].osz, "output size"); CHECK_EQ(c, m.input_layers().size(), roots); CHECK_EQ(c, m.output_layers().size(), leaves);
    for (size_t i = 0; i < roots + 3; ++i) CHECK_EQ(c, m.input_size(i), i < roots ? m.input_layers()[i]->input_size() : 0, "input size", i); for (size_t i = 0; i < leaves + 3; ++i) CHECK_EQ(c, m.output_size(i), i < leaves ? m.output_layers()[i]->output_size() : 0, "output size", i);
    std::deque<Vec> keep;
    c.repeat(1, 4, [&] {
        keep.push_back(c.nums(s.in.size())); const Vec& x = keep.back(); bool train = c.flip(); c.note(train ? "step " : "predict ", pbt::show(x)); std::vector<Vec> y(n); Vec t = gen_target(c, s); keep.push_back(t);
        Vec got; if (train) m.step(x, keep.back()); else got = m.predict(x);
        for (size_t i = 0; i < n; ++i) { const Vec& in = s.parent[i] < 0 ? x : y[size_t(s.parent[i])]; y[i] = train ? alone[i]->training_forward(in) : alone[i]->forward(in); }
        for (size_t i = 0; i < n; ++i) CHECK_SAME(c, l[i]->last_output(), y[i], "output of layer", i); if (!train) { CHECK_SAME(c, got, y[first], "prediction"); return; }
        std::shared_ptr<LossLayer> q; if (s.loss == 0) q = std::make_shared<MeanSquaredLossLayer>("q", s.l[s.loss_of].osz, s.batch, s.tol); else q = std::make_shared<CategoricalCrossEntropyLossLayer>("q", s.l[s.loss_of].osz, s.batch);
        q->set_target(t); q->training_forward(y[s.loss_of]); Vec g = q->backward(Vec()); for (int i = int(s.loss_of); i >= 0; i = s.parent[size_t(i)]) g = alone[size_t(i)]->backward(g);
        for (size_t i = 0; i < n; ++i) CHECK_SAME(c, grads(*l[i]), grads(*alone[i]), "gradients of layer", i); c.label("stepped");
    });
}
void property(pbt::Case& c) { if (c.flip()) graphs(c); else wiring(c); }

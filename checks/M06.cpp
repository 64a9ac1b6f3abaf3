// M06: seeds determine initialisation and sequential training; scales of the initial weights.
#include "net_gen.hpp"
#include <cstdlib>
const char* const PBT_RULE = "Generated models (all layer kinds) initialised twice from one seed, in equal objects or the same object, with unrelated activity in between, for every rule and distribution; generated networks (with dropout) trained twice from one seed; large layers for the scale of the weights. "
    "Non-trivial: the model has random parameters or masks.";
typedef Model::InitializationFunction IF; typedef Model::ProbabilityDensityFunction PD;
static void noise(pbt::Case& c) {
    if (c.chance(1, 12)) { size_t k = c.small(20, 400); c.note(k, " initialisations in between"); for (size_t i = 0; i < k; ++i) { Model m("past"); m.add_layer<DenseLayer>("d", SizeType(1 + i % 3), SizeType(1)); m.init(IF::AUTO, i % 2 ? PD::NORMAL : PD::UNIFORM, i + 1); } c.label("long_past"); }
    c.repeat(0, 3, [&] { switch (c.below(6)) {
        case 0: { RneType r(c.below(100)); DLMath::rand<double>(0, 1, r); break; }
        case 1: DLMath::unique(); break;
        case 2: { Model m; m.add_layer<DenseLayer>("", SizeType(2), SizeType(2)); m.init(IF::AUTO, PD::NORMAL, c.below(3)); break; }
        case 3: std::rand(); srand(unsigned(c.below(100))); break;
        case 4: { Model m("noise"); auto d = m.add_layer<DenseLayer>("d", SizeType(2), SizeType(2)); auto o = m.add_layer<DropoutLayer>("o", SizeType(2), 0.5); m.create_edge(d, o); auto l = m.add_loss<MeanSquaredLossLayer>("l", SizeType(2), SizeType(1)); m.create_loss_edge(o, l); Vec x{1, 2}, y{0, 1}; m.step(x, y); AdamOptimizer a(0.1); m.train(a); break; }
        default: { std::random_device d; d(); break; } } c.label("noise"); });
}
static size_t gen_seed(pbt::Case& c) { switch (c.weighted({4, 1, 1, 1})) { case 0: return c.below(1000) + 1; case 1: return 1; case 2: return size_t(c.below(0)) | 1; default: return ~size_t(0) - c.below(5); } }
static size_t n_biases(const Spec& s) { return s.kind == DENSE ? s.osz : s.kind == CONV ? s.f : s.kind == RNN ? s.hidden + s.f : 0; }
static std::vector<size_t> bias_index(const Spec& s, size_t n) { std::vector<size_t> v; if (s.kind == DENSE || s.kind == CONV) for (size_t i = n - n_biases(s); i < n; ++i) v.push_back(i); if (s.kind == RNN) { size_t a = s.isz / s.steps * s.hidden + s.hidden * s.hidden; for (size_t i = 0; i < s.hidden; ++i) v.push_back(a + i); for (size_t i = n - s.f; i < n; ++i) v.push_back(i); } return v; }
struct Run { std::vector<Vec> p, g; std::vector<Vec> out; };
static void initialisation(pbt::Case& c) {
    GenOpt o; o.tree = c.chance(1, 4); Structure s = gen_structure(c, o); note_structure(c, s); for (auto& l : s.l) c.label(kind_name(l.kind));
    IF f = c.pick(std::vector<IF>{IF::XAVIER, IF::KAIMING, IF::AUTO}); PD pd = c.flip() ? PD::NORMAL : PD::UNIFORM; size_t seed = gen_seed(c); c.note("rule ", int(f), " distribution ", int(pd), " seed ", seed); c.label(f == IF::AUTO ? "rule_auto" : f == IF::XAVIER ? "rule_xavier" : "rule_kaiming"); c.label(pd == PD::NORMAL ? "normal" : "uniform");
    std::vector<Vec> xs, ts; for (int i = 0; i < 3; ++i) { xs.push_back(c.nums(s.in.size())); ts.push_back(gen_target(c, s)); }
    auto go = [&](Model& m, size_t sd) { Run r; size_t used = m.init(f, pd, sd); CHECK_EQ(c, used, sd, "the seed reported"); r.p = model_params(m); for (auto& l : m.layers()) for (size_t i = 0; i < l->param_count(); ++i) l->gradient(i) = 0; for (int i = 0; i < 3; ++i) { m.step(xs[size_t(i)], ts[size_t(i)]); for (auto& l : m.output_layers()) r.out.push_back(l->last_output()); } r.g = model_grads(m); return r; };
    auto use = [&](Model& m) { set_model_params(c, m, 1); c.repeat(0, 2, [&] { Vec x = c.nums(s.in.size()), t = gen_target(c, s); m.step(x, t); GradientDescentOptimizer gd(0.1); if (c.flip()) m.train(gd); m.predict(x); }); };
    Model a("a"); build(a, s); noise(c); if (c.chance(1, 3)) { c.note("used before"); use(a); } Run r = go(a, seed); noise(c);
    auto check = [&](Model& m, const char* what) { Run q = go(m, seed); for (size_t i = 0; i < r.p.size(); ++i) { CHECK_SAME(c, q.p[i], r.p[i], what, "parameters of layer", i); } for (size_t i = 0; i < r.out.size(); ++i) CHECK_SAME(c, q.out[i], r.out[i], what, "output", i); for (size_t i = 0; i < r.g.size(); ++i) CHECK_SAME(c, q.g[i], r.g[i], what, "gradients of layer", i); };
    switch (c.below(3)) { case 0: { Model b("b"); build(b, s); if (c.flip()) use(b); noise(c); check(b, "another model:"); c.label("another"); break; } case 1: { use(a); noise(c); check(a, "the same model again:"); c.label("again"); break; } default: { if (c.flip()) use(a); Model b(a); noise(c); check(b, "a copy:"); c.label("copied"); break; } }
    bool weights = false, drop = false; double bias = 0; bool has = false;
    for (size_t i = 0; i < s.l.size(); ++i) { auto& v = r.p[i]; drop |= s.l[i].kind == DROP && s.l[i].p > 0 && s.l[i].p < 1; auto bi = bias_index(s.l[i], v.size()); weights |= v.size() > bi.size(); for (size_t k : bi) { if (!has) { bias = v[k]; has = true; } CHECK(c, v[k] == bias && std::fabs(bias) <= 0.1, "the biases start at", bias, "and at", v[k]); } for (double x : v) CHECK(c, std::isfinite(x)); }
    c.nontrivial(weights || drop); c.label_if(drop, "masks");
    if (weights) { size_t other = seed ^ (c.below(1000) + 1); if (other == 0) other = 77; Model b("b"); build(b, s); b.init(f, pd, other); auto q = model_params(b); bool differ = false; for (size_t i = 0; i < s.l.size(); ++i) differ |= q[i] != r.p[i]; CHECK(c, differ, "the seeds", seed, "and", other, "give the same parameters"); c.label("other_seed"); }
    if (f == IF::AUTO) { Model k("k"), x("x"); build(k, s); build(x, s); k.init(IF::KAIMING, pd, seed); x.init(IF::XAVIER, pd, seed); auto pk = model_params(k), px = model_params(x); for (size_t i = 0; i < s.l.size(); ++i) { bool relu = false; for (size_t j = 0; j < s.l.size(); ++j) relu |= s.parent[j] == int(i) && s.l[j].kind == RELU; CHECK_SAME(c, r.p[i], relu ? pk[i] : px[i], "automatic rule of layer", i, relu ? "before a ReLU" : ""); c.label_if(relu && !r.p[i].empty(), "auto_relu"); } }
    if (c.chance(1, 5)) { Model b("b"); build(b, s); size_t used = b.init(f, pd, 0); auto p = model_params(b); Model d("d"); build(d, s); if (used) { d.init(f, pd, used); auto q = model_params(d); for (size_t i = 0; i < p.size(); ++i) CHECK_SAME(c, q[i], p[i], "the reported seed reproduces layer", i); } c.label("random_seed"); }
}
static void scale(pbt::Case& c) {
    int kind = int(c.below(3)); std::shared_ptr<Layer> l; std::vector<std::pair<size_t, std::vector<size_t>>> parts; // fan-in and the indexes of its weights
    auto span = [](size_t a, size_t n) { std::vector<size_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = a + i; return v; };
    if (kind == DENSE) { size_t in = c.small(1, 60), out = 800 / in + 1; l = std::make_shared<DenseLayer>("d", in, out); parts.push_back({in, span(0, in * out)}); c.note("dense ", in, "->", out); }
    else if (kind == CONV) { DLMath::Shape3d is(c.small(2, 8), c.small(2, 8), c.small(1, 3)); size_t kh = c.small(1, is.height()), kw = c.small(1, is.width()), per = kh * kw * is.channels(), f = 800 / per + 1; l = std::make_shared<ConvolutionalLayer>("c", is, DLMath::Shape2d(kh, kw), f, DLMath::Shape2d(1, 1), DLMath::Shape2d(0, 0)); parts.push_back({is.size(), span(0, per * f)}); c.note("conv ", is.height(), "x", is.width(), "x", is.channels(), " kernel ", kh, "x", kw, " filters ", f); }
    else { size_t h = 30, in = c.small(20, 60), out = c.small(20, 40); l = std::make_shared<RecurrentLayer>("r", in, out, h, 1); parts.push_back({in, span(0, in * h)}); parts.push_back({h, span(in * h, h * h)}); parts.push_back({h, span(in * h + h * h + h, h * out)}); c.note("recurrent ", in, " hidden ", h, " -> ", out); }
    bool kaiming = c.flip(), uniform = c.flip(); c.note(kaiming ? "kaiming" : "xavier", uniform ? " uniform" : " normal"); l->init(kaiming ? Layer::InitializationFunction::KAIMING : Layer::InitializationFunction::XAVIER, uniform ? PD::UNIFORM : PD::NORMAL, RneType(c.below(100000) + 1));
    for (auto& p : parts) {
        double sc = std::sqrt((kaiming ? 2.0 : 1.0) / double(p.first)), m = 0, v = 0, mx = 0, n = double(p.second.size()); for (size_t i : p.second) { m += l->param(i); mx = std::max(mx, std::fabs(l->param(i))); } m /= n; for (size_t i : p.second) v += (l->param(i) - m) * (l->param(i) - m); double sd = std::sqrt(v / n); 
        if (uniform) { CHECK(c, mx <= sc / 2 * (1 + 1e-12), "a weight of magnitude", mx, "outside", sc / 2); CHECK(c, mx >= sc / 2 * 0.95, "the weights fill", mx, "of", sc / 2); CHECK(c, std::fabs(sd - sc / std::sqrt(12.0)) <= 0.2 * sc / std::sqrt(12.0), "deviation", sd, "for", sc / std::sqrt(12.0)); }
        else CHECK(c, std::fabs(sd - sc) <= 0.2 * sc && mx >= 1.5 * sc, "deviation", sd, "for", sc);
        CHECK(c, std::fabs(m) <= 7 * sc / std::sqrt(n), "mean", m, "of", n, "weights of scale", sc);
    }
    c.label("scale"); c.label(uniform ? "scale_uniform" : "scale_normal"); c.nontrivial();
}
template <LossType LT, InitType IT> static void training(pbt::Case& c, NetOpt o) {
    Net n = gen_net(c, o); Data d = gen_labelled(c, net_in(n), net_out(n), 1, 6, LT == LossType::CCE), d2 = gen_labelled(c, net_in(n), net_out(n), 1, 3, LT == LossType::CCE), p = gen_labelled(c, net_in(n), net_out(n), 1, 3, false); size_t seed = gen_seed(c), batch = c.small(1, 4), epochs = c.small(0, 3); double lr = c.uniform(0.001, 0.2); auto opt = c.flip() ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT; n.s.loss = LT == LossType::CCE; note_structure(c, n.s); c.note("seed ", seed, " batch ", batch, " epochs ", epochs, " rate ", lr, " entries ", d.x.size());
    typedef EdgeFeedforwardNeuralNetwork<LT, IT, ParallelizationLevel::SEQUENTIAL, double> Edge; bool drop = false; for (auto& l : n.s.l) { drop |= l.kind == DROP && l.p > 0 && l.p < 1; }
    auto make = [&] { auto e = std::make_shared<Edge>("net"); for (auto& x : n.d) e->add(x); return e; }; auto out = [&](Edge& e) { auto s = p.inputs(); return e.predict(s).data(); };
    auto fit = [&](Edge& e) { auto s = d.set(); Quiet q; e.fit(s, opt, epochs, batch, lr, seed); return out(e); };
    auto disturb = [&](Edge& e) { auto s = d2.set(); { Quiet q; e.fit(s, c.flip() ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT, c.small(0, 2), c.small(1, 4), 0.1, c.below(3)); } out(e); if (c.flip()) e.template evaluate_static<LT>(s); };
    auto a = make(); if (c.chance(1, 3)) { disturb(*a); c.label("trained_before"); } noise(c); auto r1 = fit(*a); noise(c); std::shared_ptr<Edge> b = c.flip() ? a : make(); if (c.flip()) { disturb(*b); c.label("trained_before"); } noise(c); auto r2 = fit(*b); CHECK_SAME(c, r2, r1, b == a ? "fitting the same network again" : "fitting an equal network"); c.label(b == a ? "refit" : "equal_network"); c.label("training"); c.label_if(drop, "training_with_dropout"); c.nontrivial();
    // The static front end and the dynamic one train the same network.
    if (c.chance(1, 3)) { DynamicFeedforwardNeuralNetwork<ParallelizationLevel::SEQUENTIAL, double> dyn(n.d, "dyn"); dyn.compile(LT, opt, IT); auto s = d.set(); { Quiet q; dyn.fit(s, epochs, batch, lr, seed); } auto in = p.inputs(); CHECK_SAME(c, dyn.predict(Framework::EDGE_LEARNING, in).data(), r1, "the dynamic front end"); c.label("dynamic"); }
    if (c.chance(1, 3)) { FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LT, IT, ParallelizationLevel::SEQUENTIAL, double> st(n.d, "static"); auto s = d.set(); { Quiet q; st.fit(s, opt, epochs, batch, lr, seed); } auto in = p.inputs(); CHECK_SAME(c, st.predict(in).data(), r1, "the static front end"); c.label("static"); }
}
void property(pbt::Case& c) {
    switch (c.weighted({6, 1, 4})) {
        case 0: initialisation(c); break;
        case 1: scale(c); break;
        default: { NetOpt o; o.max_layers = 3; switch (c.below(4)) { case 0: o.softmax_end = true; training<LossType::CCE, InitType::AUTO>(c, o); break; case 1: training<LossType::MSE, InitType::HE_INIT>(c, o); break; case 2: training<LossType::MSE, InitType::XAVIER_INIT>(c, o); break; default: training<LossType::MSE, InitType::AUTO>(c, o); break; } }
    }
}

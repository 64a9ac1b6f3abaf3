// M08: network descriptions.
#include "net_gen.hpp"
const char* const PBT_RULE = "Generated network descriptions (constructed directly, through the generic descriptor, or edited into shape through the setters; copied), built behind each front end for every loss, rule and optimiser, against a model wired by hand from the described layers, before and after training (with dropout); misplaced input descriptions; descriptor accessors. "
    "Non-trivial: at least two described layers or an image layer.";
static bool eq2(const DLMath::Shape2d& a, const DLMath::Shape2d& b) { return a.height() == b.height() && a.width() == b.width(); }
static bool eq3(const LayerShape& a, const LayerShape& b) { if (a.shapes().size() != b.shapes().size()) return false; for (size_t i = 0; i < a.shapes().size(); ++i) { auto x = a.shapes()[i], y = b.shapes()[i]; if (x.height() != y.height() || x.width() != y.width() || x.channels() != y.channels()) return false; } return true; }
static bool same_setting(const LayerSetting& a, const LayerSetting& b) { return eq3(a.units(), b.units()) && a.n_filters() == b.n_filters() && eq2(a.kernel_shape(), b.kernel_shape()) && eq2(a.stride(), b.stride()) && eq2(a.padding(), b.padding()) && a.drop_probability() == b.drop_probability(); }
static bool same_descriptor(const LayerDescriptor& a, const LayerDescriptor& b) { return a.name() == b.name() && a.type() == b.type() && a.activation_type() == b.activation_type() && same_setting(a.setting(), b.setting()); }
/// Another descriptor with the same content, built another way.
static LayerDescriptor rebuild(pbt::Case& c, const LayerDescriptor& d, const LayerDescriptor& other) {
    auto& s = d.setting();
    switch (c.below(4)) {
        case 0: return d;
        case 1: { LayerSetting g; switch (d.type()) { case LayerType::Conv: g = LayerSetting(s.n_filters(), s.kernel_shape(), s.stride(), s.padding()); break; case LayerType::MaxPool: case LayerType::AvgPool: g = LayerSetting(s.kernel_shape(), s.stride()); break; case LayerType::Dropout: g = LayerSetting(NumType(s.drop_probability())); break; default: g = LayerSetting(s.units()); break; } c.label("generic"); if (d.activation_type() == ActivationType::Linear && c.flip()) return LayerDescriptor(d.name(), d.type(), g); return LayerDescriptor(d.name(), d.type(), g, d.activation_type()); }
        case 2: { LayerDescriptor e = other; e.name(d.name()); e.type(d.type()); e.setting(s); e.activation_type(d.activation_type()); c.label("edited"); return e; }
        default: { LayerDescriptor e = other; LayerSetting g = other.setting(); g.units(s.units()); g.n_filters(s.n_filters()); g.kernel_shape(s.kernel_shape()); g.stride(s.stride()); g.padding(s.padding()); g.drop_probability(s.drop_probability()); e.activation_type(d.activation_type()); e.setting(g); e.type(d.type()); e.name(d.name()); c.label("edited"); return e; }
    }
}
static void accessors(pbt::Case& c, const Net& n) {
    CHECK(c, n.d[0].type() == LayerType::Input && n.d[0].setting().units().size() == net_in(n), "input description");
    for (size_t i = 1; i < n.d.size(); ++i) {
        auto& d = n.d[i]; const Spec& a = n.s.l[2 * (i - 1)]; const Spec& b = n.s.l[2 * (i - 1) + 1]; auto& s = d.setting(); CHECK_EQ(c, d.name(), a.name); static const std::map<int, LayerType> ts = {{DENSE, LayerType::Dense}, {CONV, LayerType::Conv}, {MAXP, LayerType::MaxPool}, {AVGP, LayerType::AvgPool}, {DROP, LayerType::Dropout}}; CHECK(c, d.type() == ts.at(a.kind), "type of description", i);
        static const std::map<int, ActivationType> as = {{RELU, ActivationType::ReLU}, {ELU, ActivationType::ELU}, {TANH, ActivationType::TanH}, {SIGM, ActivationType::Sigmoid}, {SOFT, ActivationType::Softmax}, {LINEAR, ActivationType::Linear}}; CHECK(c, d.activation_type() == as.at(b.kind) || (b.kind == LINEAR && d.activation_type() == ActivationType::None), "activation of description", i);
        if (a.kind == DENSE) CHECK_EQ(c, s.units().size(), a.osz); if (a.kind == CONV || a.kind == MAXP || a.kind == AVGP) CHECK(c, eq2(s.kernel_shape(), DLMath::Shape2d(a.kh, a.kw)) && eq2(s.stride(), DLMath::Shape2d(a.sh, a.sw)), "window of description", i); if (a.kind == CONV) CHECK(c, s.n_filters() == a.f && eq2(s.padding(), DLMath::Shape2d(a.ph, a.pw)), "filters of description", i); if (a.kind == DROP) CHECK_EQ(c, s.drop_probability(), a.p);
    }
    LayerDescriptor copy = n.d.back(), orig = n.d.back(); copy.name(copy.name() + "x"); LayerSetting g; g.n_filters(9); copy.setting(g); CHECK(c, same_descriptor(orig, n.d.back()), "editing a copy changed the original"); CHECK_EQ(c, copy.setting().n_filters(), size_t(9));
    DLMath::Shape2d k(c.small(1, 3), c.small(1, 3)); Conv cv("c", Conv::ConvSetting(2, k)); MaxPool mp("m", MaxPool::MaxPoolSetting(k)); AvgPool ap("a", AvgPool::AvgPoolSetting(k)); CHECK(c, eq2(cv.setting().stride(), DLMath::Shape2d(1, 1)) && eq2(cv.setting().padding(), DLMath::Shape2d(0, 0)) && eq2(mp.setting().stride(), DLMath::Shape2d(1, 1)) && eq2(ap.setting().stride(), DLMath::Shape2d(1, 1)) && cv.activation_type() == ActivationType::Linear, "defaults");
}
template <LossType LT, InitType IT> static void go(pbt::Case& c) {
    NetOpt o; o.max_layers = c.tier ? 6 : 4; o.softmax_end = LT == LossType::CCE; Net n = gen_net(c, o); n.s.loss = LT == LossType::CCE; n.s.batch = c.small(1, 4); note_structure(c, n.s); for (auto& l : n.s.l) c.label(kind_name(l.kind)); c.label(LT == LossType::CCE ? "cce" : "mse"); c.nontrivial(n.d.size() > 2); for (auto& l : n.s.l) if (l.kind == CONV || l.kind == MAXP || l.kind == AVGP) c.nontrivial();
    accessors(c, n); NeuralNetworkDescriptor ds; for (size_t i = 0; i < n.d.size(); ++i) { ds.push_back(rebuild(c, n.d[i], c.pick(n.d))); CHECK(c, same_descriptor(ds.back(), n.d[i]), "a description built another way differs"); }
    constexpr auto S = ParallelizationLevel::SEQUENTIAL; typedef EdgeFeedforwardNeuralNetwork<LT, IT, S, double> Edge; bool adam = c.flip(); auto opt = adam ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT; size_t epochs = c.small(0, 2), seed = c.below(1000) + 1; double lr = c.uniform(0.001, 0.1); Data d = gen_labelled(c, net_in(n), net_out(n), 1, 5, LT == LossType::CCE), p = gen_labelled(c, net_in(n), net_out(n), 1, 3, false); auto set = d.set(); auto in = p.inputs();
    // By hand.
    Model ref("ref"); Built b = build(ref, n.s); ref.init(IT == InitType::HE_INIT ? Model::InitializationFunction::KAIMING : IT == InitType::XAVIER_INIT ? Model::InitializationFunction::XAVIER : Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, seed); auto op = make_optimizer(adam, lr);
    for (size_t e = 0; e < epochs; ++e) for (size_t i = 0; i < d.x.size();) { for (size_t k = 0; k < n.s.batch && i < d.x.size(); ++k, ++i) ref.step(d.x[i], d.y[i]); ref.train(*op); } c.label_if(epochs > 0, "trained");
    auto verify = [&](Dataset<double> r, const char* what) { CHECK_EQ(c, r.size(), p.x.size(), what); for (size_t i = 0; i < r.size(); ++i) CHECK_NEAR(c, r.entry(i), Vec(ref.predict(p.x[i])), what, "prediction", i); };
    c.note("epochs ", epochs, " batch ", n.s.batch, adam ? " adam " : " gd ", lr, " seed ", seed); int front = int(c.below(3));
    if (front == 0) {
        Edge net("net"); bool threw = false; if (c.chance(1, 6)) { try { Quiet q; net.fit(set, opt, 1, 1, lr, seed); } catch (const std::exception&) { threw = true; } CHECK(c, threw, "a network without layers was trained"); c.label("no_layers"); }
        for (size_t i = 0; i < ds.size(); ++i) { net.add(ds[i]); if (i) { CHECK_EQ(c, net.input_size(), n.s.l[0].isz, "input size"); CHECK_EQ(c, net.output_size(), n.s.l[2 * i - 1].osz, "output size after", i, "layers"); } if (c.chance(1, 6)) { threw = false; try { net.add(Input("late", LayerShape(c.small(1, 4)))); } catch (const std::exception&) { threw = true; } CHECK(c, threw, "an input description after the first was accepted"); c.label("late_input"); } }
        { Quiet q; net.fit(set, opt, epochs, n.s.batch, lr, seed); } verify(net.predict(in), "built layer by layer:"); CHECK_EQ(c, net.input_size(), net_in(n)); CHECK_EQ(c, net.output_size(), net_out(n)); c.label("edge");
    } else if (front == 1) { FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LT, IT, S, double> net(ds, "net"); { Quiet q; net.fit(set, opt, epochs, n.s.batch, lr, seed); } verify(net.predict(in), "static:"); c.label("static"); if (ds.size() > 1 && c.chance(1, 4)) { auto bad = ds; bad.insert(bad.begin() + long(1 + c.below(ds.size())), Input("late", LayerShape(2))); bool threw = false; try { FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LT, IT, S, double> w(bad, "w"); } catch (const std::exception&) { threw = true; } CHECK(c, threw, "an input description after the first was accepted"); c.label("late_input"); } }
    else { DynamicFeedforwardNeuralNetwork<S, double> net(ds, "net"); if (c.chance(1, 3)) { net.predict(in); c.label("predicted_first"); } if (c.chance(1, 3)) { net.compile(c.flip() ? LossType::MSE : LossType::CCE, c.flip() ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT, InitType::HE_INIT); c.label("recompiled"); } net.compile(LT, opt, IT); { Quiet q; net.fit(set, epochs, n.s.batch, lr, seed); } verify(net.predict(in).at(Framework::EDGE_LEARNING), "dynamic:"); c.label("dynamic"); }
}
template <LossType LT> static void pick_rule(pbt::Case& c) { switch (c.below(3)) { case 0: c.label("he"); go<LT, InitType::HE_INIT>(c); break; case 1: c.label("xavier"); go<LT, InitType::XAVIER_INIT>(c); break; default: c.label("auto"); go<LT, InitType::AUTO>(c); break; } }
void property(pbt::Case& c) { if (c.chance(2, 3)) pick_rule<LossType::MSE>(c); else pick_rule<LossType::CCE>(c); }

// M07: prediction and evaluation of networks.
#include "net_gen.hpp"
const char* const PBT_RULE = "Histories of fits, predictions and evaluations over generated networks behind each front end, with generated data sets (labels first or last, sequences, empty), against single-entry predictions and scores computed from them. "
    "Non-trivial: a prediction or evaluation of at least two entries after another prediction or evaluation.";
static Data sub(const Data& d, std::vector<size_t> k) { Data r; r.front = d.front; for (size_t i : k) { r.x.push_back(d.x[i]); r.y.push_back(d.y[i]); } return r; }
template <LossType LT, class N, class F, class E> static void history(pbt::Case& c, N& net, const Net& n, F fit, E evaluate) {
    const bool cce = LT == LossType::CCE; std::vector<Vec> pool, known; bool fitted = false; auto inputs = [&](const std::vector<Vec>& x, size_t seq) { return Dataset<double>(x, seq, std::set<SizeType>()); };
    auto one = [&](const Vec& x) { auto s = inputs({x}, 1); auto r = net.predict(s); CHECK_EQ(c, r.size(), size_t(1)); return r.entry(0); };
    auto refresh = [&] { known.clear(); for (auto& x : pool) known.push_back(one(x)); }; size_t done = 0;
    for (size_t i = 0, k = c.small(2, 5); i < k; ++i) pool.push_back(c.nums(net_in(n), 2));
    bool longer = c.chance(1, 15); c.repeat(2, longer ? 120 : c.tier ? 16 : 10, [&] {
        switch (fitted ? c.weighted({2, 5, 5, 1}) : 0) {
            case 0: { Data d = gen_labelled(c, net_in(n), net_out(n), 1, 5, cce); size_t e = c.small(0, 2), b = c.small(1, 4), seed = c.below(100) + 1; double lr = c.chance(1, 3) ? 0.0 : c.uniform(0.001, 0.1); auto opt = c.flip() ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT; c.note("fit epochs ", e, " batch ", b, " rate ", lr, " seed ", seed);
                auto s = d.set(); auto keep = s.data(); fit(s, opt, e, b, lr, seed); CHECK(c, s.data() == keep, "fitting changed the data"); fitted = true; refresh(); if (lr == 0) { auto p0 = known; fit(s, opt, 0, b, 0.5, seed); refresh(); for (size_t i = 0; i < p0.size(); ++i) CHECK_SAME(c, p0[i], known[i], "training with rate zero changed the initial parameters"); c.label("rate_zero"); } break; }
            case 1: { std::vector<size_t> k; size_t m = c.chance(1, 12) ? c.chance(1, 5) ? c.usize(120, 700) : c.small(8, 120) : c.small(1, 7); c.label_if(m > 300, "hundreds_of_entries"); c.label_if(m > 60, "many_entries"); for (size_t i = 0; i < m; ++i) k.push_back(c.below(pool.size())); size_t seq = 1; if (c.chance(1, 3)) { std::vector<size_t> v; for (size_t i = 1; i <= m; ++i) if (m % i == 0) v.push_back(i); seq = c.pick(v); c.label_if(seq > 1, "sequences"); } c.note("predict ", pbt::show(k), " sequences of ", seq);
                std::vector<Vec> x; for (size_t i : k) x.push_back(pool[i]); auto s = inputs(x, seq); auto keep = s.data(); auto r = net.predict(s); CHECK(c, s.data() == keep, "predicting changed the data"); CHECK_EQ(c, r.size(), m, "one output per entry"); if (m) CHECK_EQ(c, r.feature_size(), net_out(n)); for (size_t i = 0; i < m; ++i) CHECK_SAME(c, r.entry(i), known[k[i]], "output", i, "of", m); ++done; c.nontrivial(m >= 2 && done >= 2); c.label("predicted"); break; }
            case 2: { bool lots = c.chance(1, 40); c.label_if(lots, "long_evaluation"); Data d = gen_labelled(c, net_in(n), net_out(n), lots ? 200 : 1, lots ? 600 : 6, cce); size_t m = d.x.size(), hits = 0; for (size_t i = 0; i < m; ++i) if (c.flip()) d.x[i] = c.pick(pool); std::vector<Vec> p; for (auto& x : d.x) p.push_back(one(x));
                if (!cce) for (size_t i = 0; i < m; ++i) { bool ok = true; for (double v : p[i]) ok &= std::isfinite(v); if (ok && c.flip()) { d.y[i] = p[i]; for (double& v : d.y[i]) v += c.uniform(-0.4, 0.4); } }
                double loss = 0; bool tight = false; for (size_t i = 0; i < m; ++i) { double v = 0; if (cce) { size_t a = 0, t = 0; for (size_t k = 0; k < p[i].size(); ++k) { if (p[i][k] > p[i][a]) a = k; if (d.y[i][k] != 0) { t = k; v -= d.y[i][k] * std::log(std::max(p[i][k], std::numeric_limits<double>::epsilon())); } } for (size_t k = 0; k < p[i].size(); ++k) if (k != a && std::fabs(p[i][k] - p[i][a]) < 1e-12) tight = true; hits += a == t; } else { for (size_t k = 0; k < p[i].size(); ++k) v += (p[i][k] - d.y[i][k]) * (p[i][k] - d.y[i][k]); v /= double(p[i].size()); hits += v <= 0.1; tight |= std::fabs(v - 0.1) < 1e-9; } loss += v; }
                c.note("evaluate ", m, " entries", d.front ? ", labels first" : ""); c.label_if(d.front, "labels_first"); auto s = d.set(); auto keep = s.data(); auto r = evaluate(s); CHECK(c, s.data() == keep, "evaluating changed the data"); double a = double(hits) / double(m);
                CHECK(c, pbt::near(r.loss, loss / double(m), 1e-9, 1e-11), "loss", r.loss, "of predictions with", loss / double(m)); if (!tight) { CHECK(c, pbt::near(r.accuracy, a, 1e-12, 1e-12), "accuracy", r.accuracy, "of", hits, "/", m); c.label(hits == 0 ? "none_right" : hits == m ? "all_right" : "some_right"); }
                CHECK(c, pbt::near(r.accuracy_perc, 100 * r.accuracy) && pbt::near(r.error_rate, 1 - r.accuracy, 1e-12, 1e-12) && pbt::near(r.error_rate_perc, 100 * (1 - r.accuracy), 1e-9, 1e-9), "the forms of the accuracy"); ++done; c.nontrivial(m >= 2 && done >= 2); c.label("evaluated"); c.label_if(done > 40, "long_history"); break; }
            default: { c.note("predict nothing"); Dataset<double> s; auto r = net.predict(s); CHECK_EQ(c, r.size(), size_t(0)); c.label("nothing"); break; }
        }
        if (fitted) { size_t i = c.below(pool.size()); CHECK_SAME(c, one(pool[i]), known[i], "a prediction changed"); }
    });
}
template <LossType LT> static void go(pbt::Case& c) {
    NetOpt o; o.max_layers = 3; o.softmax_end = LT == LossType::CCE; Net n = gen_net(c, o); n.s.loss = LT == LossType::CCE; note_structure(c, n.s); for (auto& l : n.s.l) c.label(kind_name(l.kind)); c.label(LT == LossType::CCE ? "cce" : "mse");
    constexpr auto S = ParallelizationLevel::SEQUENTIAL; typedef Dataset<double> D; typedef OptimizerType O;
    switch (c.below(3)) {
        case 0: { EdgeFeedforwardNeuralNetwork<LT, InitType::AUTO, S, double> net("net"); for (auto& x : n.d) net.add(x); c.note("built layer by layer"); c.label("edge"); history<LT>(c, net, n, [&](D& s, O o, size_t e, size_t b, double lr, size_t seed) { Quiet q; net.fit(s, o, e, b, lr, seed); }, [&](D& s) { return c.flip() ? net.template evaluate_static<LT>(s) : net.evaluate(s, LT); }); break; }
        case 1: { FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LT, InitType::AUTO, S, double> net(n.d, "net"); c.note("static"); c.label("static"); history<LT>(c, net, n, [&](D& s, O o, size_t e, size_t b, double lr, size_t seed) { Quiet q; net.fit(s, o, e, b, lr, seed); }, [&](D& s) { return net.evaluate(s); }); break; }
        default: {
            typedef DynamicFeedforwardNeuralNetwork<S, double> Dyn; Dyn dyn(n.d, "net"); c.note("dynamic"); c.label("dynamic"); bool f = c.flip(); { Data d = gen_labelled(c, net_in(n), net_out(n), 1, 2, LT == LossType::CCE); auto s = d.set(); bool threw = false; try { if (f) { Quiet q; dyn.fit(s); } else dyn.evaluate(s); } catch (const std::exception&) { threw = true; } CHECK(c, threw, f ? "fitting" : "evaluating", "before compile was accepted"); c.label("not_compiled"); }
            struct Wrap { Dyn& d; pbt::Case& c; D predict(D& s) { if (c.flip()) return d.predict(Framework::EDGE_LEARNING, s); return d.predict(s).at(Framework::EDGE_LEARNING); } } net{dyn, c}; O last = O::ADAM; bool compiled = false;
            history<LT>(c, net, n, [&](D& s, O o, size_t e, size_t b, double lr, size_t seed) { if (!compiled || o != last) { if (c.flip()) dyn.compile(LT, o, InitType::AUTO); else dyn.compile(Framework::EDGE_LEARNING, LT, o, InitType::AUTO); compiled = true; last = o; } Quiet q; if (c.flip()) dyn.fit(s, e, b, lr, seed); else dyn.fit(Framework::EDGE_LEARNING, s, e, b, lr, seed); }, [&](D& s) { return c.flip() ? dyn.evaluate(Framework::EDGE_LEARNING, s) : dyn.evaluate(s).at(Framework::EDGE_LEARNING); });
        }
    }
}
void property(pbt::Case& c) { if (c.flip()) go<LossType::MSE>(c); else go<LossType::CCE>(c); }

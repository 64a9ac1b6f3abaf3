// L08: loss layers, their gradients and running scores.
#include "dnn_gen.hpp"
#include "dnn/mse_loss.hpp"
#include "dnn/cce_loss.hpp"
#include "dnn/model.hpp"
const char* const PBT_RULE = "Histories over a mean-squared or cross-entropy loss layer (targets set, predictions scored with or without backward, batch size changed, scores reset, copies) and the loss functions themselves, against the definitions and averages kept by the test. "
    "Non-trivial: at least two samples scored since the last reset.";
typedef long double LD;
static void functions(pbt::Case& c) {
    size_t n = c.chance(1, 20) ? c.usize(12, 300) : c.small(1, 12); c.label_if(n > 12, "many_outputs"); Vec y(n), p(n), d(n); for (auto& v : y) v = c.chance(1, 3) ? double(c.below(2)) : c.num(3); for (auto& v : p) v = c.num(3); double norm = c.pick(Vec{1, 0.5, 0.25, 1.0 / 3, 2}); c.note("mse y ", pbt::show(y), " p ", pbt::show(p), " norm ", norm);
    LD s = 0; for (size_t i = 0; i < n; ++i) s += (LD(y[i]) - p[i]) * (LD(y[i]) - p[i]); CHECK(c, pbt::near(DLMath::mean_squared_error<double>(y.data(), p.data(), n), double(s / LD(n)), 1e-11, 1e-14)); CHECK(c, pbt::near(DLMath::squared_error<double>(y[0], p[0]), (y[0] - p[0]) * (y[0] - p[0])));
    DLMath::mean_squared_error_1<double>(d.data(), y.data(), p.data(), norm, n); for (size_t i = 0; i < n; ++i) CHECK(c, pbt::near(d[i], -2 * norm * (y[i] - p[i]), 1e-12, 1e-14), "gradient", i);
    for (auto& v : p) v = c.chance(1, 6) ? 0.0 : c.uniform(1e-6, 1); for (auto& v : y) v = c.chance(1, 3) ? 0.0 : c.uniform(0, 1); c.note("cce y ", pbt::show(y), " p ", pbt::show(p));
    s = 0; for (size_t i = 0; i < n; ++i) s -= LD(y[i]) * logl(std::max(p[i], std::numeric_limits<double>::epsilon())); CHECK(c, pbt::near(DLMath::cross_entropy<double>(y.data(), p.data(), n), double(s), 1e-11, 1e-13));
    DLMath::cross_entropy_1<double>(d.data(), y.data(), p.data(), norm, n); for (size_t i = 0; i < n; ++i) if (p[i] > 0) CHECK(c, pbt::near(d[i], -norm * y[i] / p[i], 1e-12, 1e-13), "gradient", i); else CHECK(c, std::isfinite(d[i]) && (y[i] > 0 ? d[i] < -1e10 : d[i] == 0), "gradient at a zero probability", i, d[i]);
    c.label("functions"); c.nontrivial(n >= 2);
}
static void history(pbt::Case& c) {
    bool cce = c.flip(); size_t n = cce ? c.small(2, 6) : c.small(1, 6); if (c.chance(1, 25)) { n = c.usize(6, 80); c.label("many_outputs"); } size_t batch = c.chance(1, 6) ? c.usize(1, 300) : c.small(1, 9); bool lng = c.chance(1, 12); c.label_if(lng, "long_history"); double tol = c.pick(Vec{0.1, 0.0, 0.5, 2.0}); std::shared_ptr<LossLayer> l;
    if (cce) l = std::make_shared<CategoricalCrossEntropyLossLayer>("l", n, batch); else l = std::make_shared<MeanSquaredLossLayer>("l", n, batch, tol);
    c.note(cce ? "cce" : "mse", " size ", n, " batch ", batch, " tolerance ", tol); c.label(cce ? "cce" : "mse"); double sum = 0; size_t ok = 0, total = 0; bool has = false; Vec t; std::vector<std::shared_ptr<LossLayer>> old; double norm = 1.0 / double(batch);
    c.repeat(1, lng ? 150 : 16, [&] {
        switch (c.weighted({lng ? 60u : 8u, 1, 1, 1, 1, 1})) {
            case 0: {
                if (!has || c.chance(3, 4)) { t.assign(n, 0.0); if (cce) t[c.below(n)] = c.chance(1, 4) ? c.uniform(0.1, 2) : 1.0; else t = c.nums(n, 3); l->set_target(t); has = true; }
                Vec x(n); if (cce) { double z = 0; for (size_t i = 0; i < n; ++i) z += x[i] = 1 + double(i) * 0.1 + double(c.below(100)); std::sort(x.begin(), x.end()); for (size_t i = 1; i < n; ++i) if (x[i] <= x[i - 1]) x[i] = x[i - 1] + 0.3; z = 0; for (double v : x) z += v; for (size_t i = n; i > 1; --i) std::swap(x[i - 1], x[c.below(i)]); for (auto& v : x) v /= z; if (c.chance(1, 8)) { size_t k = size_t(std::max_element(x.begin(), x.end()) - x.begin()); for (auto& v : x) v = 0; x[k] = 1; } }
                else { x = c.flip() ? c.nums(n, 3) : t; if (c.flip()) for (auto& v : x) v += c.uniform(-0.6, 0.6); }
                c.note("target ", pbt::show(t), " prediction ", pbt::show(x)); Vec x0 = x; double v = 0; bool good;
                if (cce) { for (size_t i = 0; i < n; ++i) v -= t[i] * std::log(std::max(x[i], std::numeric_limits<double>::epsilon())); size_t a = 0, b = 0; for (size_t i = 0; i < n; ++i) { if (x[i] > x[a]) a = i; if (t[i] != 0) b = i; } good = a == b; }
                else { for (size_t i = 0; i < n; ++i) v += (t[i] - x[i]) * (t[i] - x[i]); v /= double(n); if (std::fabs(v - tol) < 1e-9 && v != tol) return; good = v <= tol; }
                bool train = c.flip(); if (train) l->training_forward(x); else l->forward(x); sum += v; ok += good; ++total;
                if (train) { Vec g = l->backward(Vec()); CHECK_EQ(c, g.size(), n); CHECK_EQ(c, Vec(l->last_input_gradient()), g); for (size_t i = 0; i < n; ++i) if (!cce) CHECK(c, pbt::near(g[i], -2 * norm * (t[i] - x[i]), 1e-11, 1e-13), "gradient", i, g[i]); else if (x[i] > 0) CHECK(c, pbt::near(g[i], -norm * t[i] / x[i], 1e-11, 1e-13), "gradient", i, g[i]); c.label("gradient"); }
                CHECK_EQ(c, x, x0); c.label_if(good, "correct"); c.label_if(!good, "wrong"); break; }
            case 1: c.note("reset"); l->reset_score(); sum = 0; ok = total = 0; c.label("reset"); break;
            case 2: batch = c.chance(1, 6) ? c.usize(1, 300) : c.small(1, 9); c.note("batch size ", batch); l->set_batch_size(batch); norm = 1.0 / double(batch); c.label("batch_changed"); break;
            case 3: { c.note("clone"); auto k = l->clone(); old.push_back(l); l = std::dynamic_pointer_cast<LossLayer>(k); CHECK(c, l != nullptr); c.label("cloned"); break; }
            case 4: { c.note("fresh layer without a target"); std::shared_ptr<LossLayer> f; if (cce) f = std::make_shared<CategoricalCrossEntropyLossLayer>("f", n, batch); else f = std::make_shared<MeanSquaredLossLayer>("f", n, batch, tol); Vec x = c.nums(n); bool threw = false; try { f->training_forward(x); } catch (const std::exception&) { threw = true; } CHECK(c, threw, "a prediction was scored without a target"); c.label("no_target"); break; }
            default: if (cce) { c.note("target without a positive class"); auto k = std::dynamic_pointer_cast<LossLayer>(l->clone()); k->set_target(Vec(n, 0.0)); Vec x(n, 1.0 / double(n)); bool threw = false; try { k->training_forward(x); } catch (const std::exception&) { threw = true; } CHECK(c, threw, "a target of zeros was scored"); c.label("zero_target"); } break;
        }
        if (total) { CHECK(c, pbt::near(l->avg_loss(), sum / double(total), 1e-9, 1e-10), "average loss", l->avg_loss(), "of", total, "samples is", sum / double(total)); CHECK(c, pbt::near(l->accuracy(), double(ok) / double(total), 1e-12, 0), "accuracy", l->accuracy(), "is", ok, "/", total); c.nontrivial(total >= 2); }
    });
}
static void model(pbt::Case& c) {           // the scores a model reports are those of its loss layer
    size_t in = c.small(1, 3), out = c.small(1, 3); Model m("m"); auto d = m.add_layer<DenseLayer>("d", SizeType(in), SizeType(out)); auto l = m.add_loss<MeanSquaredLossLayer>("l", SizeType(out), SizeType(1), 0.5); m.create_loss_edge(d, l); set_params(c, *d);
    double sum = 0; size_t ok = 0, n = 0;
    c.repeat(1, 8, [&] {
        if (c.chance(1, 6)) { m.reset_score(); sum = 0; ok = n = 0; return; }
        Vec x = c.nums(in), t = c.nums(out), y = m.predict(x); double v = 0; for (size_t i = 0; i < out; ++i) v += (t[i] - y[i]) * (t[i] - y[i]); v /= double(out); if (std::fabs(v - 0.5) < 1e-9) return;
        m.step(x, t); sum += v; ok += v <= 0.5; ++n; if (c.flip()) m.predict(c.nums(in));
        CHECK(c, pbt::near(m.avg_loss(), sum / double(n)), "average loss"); CHECK(c, pbt::near(m.accuracy(), double(ok) / double(n)), "accuracy"); c.nontrivial(n >= 2);
    });
    c.label("model");
}
void property(pbt::Case& c) { switch (c.weighted({2, 6, 1})) { case 0: functions(c); break; case 1: history(c); break; default: model(c); } }

// L12: layers resized, cloned and addressed parameter by parameter.
#include "model_gen.hpp"
#include <deque>
const char* const PBT_RULE = "Histories over a family of clones of one layer of any kind (input shape set anew on all of them, clones made and destroyed, training passes, predictions, parameters written and initialised through any member) and over loss layers set to other sizes; "
    "each member against a layer built directly for the current shape with the same parameters. Non-trivial: used after a change of shape or after another member was used.";
/// The same layer for another input.
static Spec respec(Spec s, DLMath::Shape3d is) {
    s.in = is; s.isz = is.size(); s.osz = s.kind == DENSE ? s.osz : s.isz; s.outs = is;
    if (s.kind == DENSE) s.outs = DLMath::Shape3d(s.osz);
    if (s.kind == CONV || s.kind == MAXP || s.kind == AVGP) { s.outs = DLMath::Shape3d((is.height() + 2 * s.ph - s.kh) / s.sh + 1, (is.width() + 2 * s.pw - s.kw) / s.sw + 1, s.kind == CONV ? s.f : is.channels()); s.osz = s.outs.size(); }
    if (s.kind == RNN) { s.isz = is.size() * s.steps; s.osz = s.f * s.steps; s.outs = DLMath::Shape3d(s.f); }
    return s;
}
static void shape_is(pbt::Case& c, const DLMath::Shape3d& a, const DLMath::Shape3d& b, const char* what, const std::string& op) { CHECK(c, a.height() == b.height() && a.width() == b.width() && a.channels() == b.channels(), what, "shape after", op, "is", a.height(), a.width(), a.channels(), "expected", b.height(), b.width(), b.channels()); }
struct M { std::shared_ptr<Layer> l, shadow; bool passed = false, trained = false, disturbed = false; };
static void layers(pbt::Case& c) {
    int kind = int(c.below(N_KINDS)); bool image = kind == CONV || kind == MAXP || kind == AVGP; bool resizing = false; auto shape = [&](size_t kh, size_t kw) { bool big = c.chance(1, 15); c.label_if(big, "big_input"); if (!image && kind != RNN && resizing && c.chance(1, 4)) { c.label("flat_layer_of_images"); return DLMath::Shape3d(c.small(1, 4), c.small(1, 4), c.small(1, 4)); } if (!image) return DLMath::Shape3d(big ? c.usize(6, 60) : c.small(1, 6)); size_t h = kh + c.small(0, big ? 12 : 4), w = kw + c.small(0, big ? 12 : 4); return DLMath::Shape3d(h, w, c.small(1, big ? 8 : 3)); };
    Spec s = gen_spec(c, kind, shape(1, 1), "l"); if (kind == DROP) s.p = c.flip() ? 0.0 : 1.0; if (kind == RNN) { s.steps = c.small(1, 5); s = respec(s, DLMath::Shape3d(c.small(1, 4))); } c.note(show_spec(s)); c.label(kind_name(kind));
    auto fresh = [&] { if (kind == RNN) return std::shared_ptr<Layer>(std::make_shared<RecurrentLayer>(s.name, s.in.size(), s.f, s.hidden, s.steps)); return make_spec(s); };
    resizing = true;
    std::vector<M> m; std::deque<Vec> keep; bool resized = false; size_t n0 = 0;
    auto put = [&](Layer& l, const Vec& p) { for (size_t i = 0; i < p.size(); ++i) l.param(i) = p[i]; };
    auto all = [&](const Vec& p) { for (auto& x : m) put(*x.shadow, p); };
    auto clean = [&](M& x) { for (size_t i = 0; i < x.l->param_count(); ++i) x.l->gradient(i) = 0; if (kind == RNN) static_cast<RecurrentLayer&>(*x.l).reset_hidden_state(); x.passed = x.trained = false; };
    { M x; x.l = fresh(); x.shadow = fresh(); m.push_back(x); n0 = x.l->param_count(); Vec p = c.nums(n0); put(*x.l, p); all(p); }
    auto verify = [&](const std::string& op) {
        Vec p = params(*m[0].shadow);
        for (size_t i = 0; i < m.size(); ++i) { auto& a = *m[i].l; auto& b = *m[i].shadow; CHECK_EQ(c, a.param_count(), b.param_count(), "parameters of member", i, "after", op); CHECK_SAME(c, params(a), p, "parameters of member", i, "after", op); CHECK_SAME(c, grads(a), grads(b), "gradients of member", i, "after", op); CHECK_EQ(c, a.type(), b.type()); CHECK_EQ(c, a.name(), s.name);
            size_t in = kind == RNN ? s.in.size() : s.isz, out = kind == RNN ? s.f : s.osz; CHECK_EQ(c, size_t(a.input_size()), in, "input size after", op); CHECK_EQ(c, size_t(a.output_size()), out, "output size after", op); bool solid = !image && s.in.size() != s.in.height(); shape_is(c, a.input_shape().shape(), solid ? s.in : b.input_shape().shape(), "input", op); if (!solid) shape_is(c, a.output_shape().shape(), b.output_shape().shape(), "output", op); if (kind != RNN && !solid) shape_is(c, a.output_shape().shape(), s.outs, "output", op); CHECK_EQ(c, size_t(a.input_layers()), size_t(1)); CHECK_EQ(c, size_t(a.output_layers()), size_t(1));
            if (m[i].passed) CHECK_SAME(c, a.last_output(), b.last_output(), "output of member", i, "after", op); if (m[i].trained) CHECK_SAME(c, a.last_input_gradient(), b.last_input_gradient(), "input gradient of member", i, "after", op); }
    };
    c.repeat(2, c.tier ? 30 : 16, [&] {
        size_t i = c.below(m.size()); M& x = m[i]; std::string op; auto disturb = [&] { for (size_t k = 0; k < m.size(); ++k) if (k != i) m[k].disturbed = true; };
        switch (c.weighted({3, 3, 5, 3, 2, 1, 1, 1})) {
            case 0: { op = "another input shape"; DLMath::Shape3d is = c.chance(1, 8) ? s.in : shape(s.kh, s.kw); if (kind == RNN) is = DLMath::Shape3d(c.small(1, 5)); s = respec(s, is); c.note(op, " ", is.height(), "x", is.width(), "x", is.channels()); for (auto& y : m) { y.l->input_shape(is); y.shadow = fresh(); } CHECK_EQ(c, x.l->param_count(), x.shadow->param_count(), "parameters after a change of shape"); Vec p = c.nums(x.shadow->param_count()); put(*x.l, p); all(p); for (auto& y : m) clean(y); resized = true; c.label("resized"); break; }
            case 1: { if (m.size() >= 4) return; op = "clone " + std::to_string(i); c.note(op); M y; y.l = x.l->clone(); y.shadow = fresh(); put(*y.shadow, params(*x.shadow)); clean(y); m.push_back(y); c.label("cloned"); break; }
            case 2: { op = "train " + std::to_string(i); keep.push_back(c.nums(s.isz)); Vec& in = keep.back(); keep.push_back(c.nums(s.osz)); Vec& g = keep.back(); c.note(op, " ", pbt::show(in), " ", pbt::show(g)); Vec a = x.l->training_forward(in), b = x.shadow->training_forward(in); CHECK_EQ(c, a.size(), s.osz, "outputs"); CHECK_SAME(c, a, b, op); if (kind != RNN) CHECK_SAME(c, x.l->last_input(), in, "last input"); Vec d = x.l->backward(g), e = x.shadow->backward(g); CHECK_EQ(c, d.size(), s.isz); CHECK_SAME(c, d, e, op); x.passed = x.trained = true; if (x.disturbed || resized) c.nontrivial(); c.label_if(x.disturbed, "used_in_turn"); disturb(); break; }
            case 3: { op = "predict " + std::to_string(i); keep.push_back(c.nums(s.isz)); Vec& in = keep.back(); c.note(op, " ", pbt::show(in)); Vec a = x.l->forward(in), b = x.shadow->forward(in); CHECK_SAME(c, a, b, op); x.passed = true; if (x.disturbed || resized) c.nontrivial(); disturb(); break; }
            case 4: { size_t n = x.l->param_count(); if (!n) return; op = "write through " + std::to_string(i); c.note(op); Vec p(n); if (c.flip()) { for (size_t k = 0; k < n; ++k) p[k] = double(k + 1) / double(n); } else p = c.nums(n); std::vector<size_t> o(n); for (size_t k = 0; k < n; ++k) o[k] = k; if (c.flip()) std::reverse(o.begin(), o.end()); for (size_t k : o) x.l->param(k) = p[k]; all(p); for (size_t k = 0; k < n; ++k) { x.l->gradient(k) = double(k) + 0.5; x.shadow->gradient(k) = double(k) + 0.5; } CHECK_SAME(c, params(*x.l), p, "parameters just written"); Vec g = grads(*x.l); for (size_t k = 0; k < n; ++k) CHECK_EQ(c, g[k], double(k) + 0.5, "gradient", k, "just written"); c.label("written"); break; }
            case 5: { if (m.size() < 2) return; op = "destroy " + std::to_string(i); c.note(op); m.erase(m.begin() + long(i)); c.label("destroyed"); break; }
            case 6: { op = "initialise " + std::to_string(i); size_t seed = 1 + c.below(1000); c.note(op, " ", seed); x.l->init(Layer::InitializationFunction::KAIMING, Layer::ProbabilityDensityFunction::NORMAL, RneType(seed)); x.shadow->init(Layer::InitializationFunction::KAIMING, Layer::ProbabilityDensityFunction::NORMAL, RneType(seed)); all(params(*x.shadow)); c.label("initialised"); break; }
            default: { size_t n = x.l->param_count(), k = c.chance(1, 3) ? SIZE_MAX - c.below(3) : n + c.small(0, 20); op = "parameter " + std::to_string(k) + " of " + std::to_string(n); c.note(op); bool a = false, b = false; try { x.l->param(k) = 1; } catch (const std::exception&) { a = true; } try { x.l->gradient(k) = 1; } catch (const std::exception&) { b = true; } CHECK(c, a && b, "there is no", op); c.label("no_such_parameter"); break; }
        }
        verify(op);
    });
}
static void losses(pbt::Case& c) {
    bool cce = c.flip(); size_t n = c.small(1, 6), batch = c.small(1, 5); c.note(cce ? "cce " : "mse ", n, " batch ", batch); auto make = [&](size_t k) { std::shared_ptr<LossLayer> l; if (cce) l = std::make_shared<CategoricalCrossEntropyLossLayer>("l", k, batch); else l = std::make_shared<MeanSquaredLossLayer>("l", k, batch, 0.5); return l; };
    auto l = make(n); for (size_t r = c.small(1, 5); r-- > 0;) {
        if (c.chance(2, 3)) { n = c.chance(1, 8) ? c.usize(6, 60) : c.small(1, 8); c.note("size ", n); l->input_shape(DLMath::Shape3d(n)); c.nontrivial(); } auto f = make(n); l->reset_score();
        for (size_t q = c.small(1, 3); q-- > 0;) { Vec t(n), x(n); if (cce) { t[c.below(n)] = 1; for (auto& v : x) v = c.uniform(0.01, 1); } else { t = c.nums(n); x = c.nums(n); } l->set_target(t); f->set_target(t); l->training_forward(x); f->training_forward(x); CHECK_SAME(c, l->backward(Vec()), f->backward(Vec()), "gradient of a loss set to size", n); CHECK_EQ(c, size_t(l->last_input_gradient().size()), n); CHECK_EQ(c, size_t(l->input_size()), n); CHECK(c, same_double(l->avg_loss(), f->avg_loss()) && same_double(l->accuracy(), f->accuracy()), "scores of a loss set to size", n); }
    }
    c.label("loss");
}
void property(pbt::Case& c) { if (c.chance(1, 8)) losses(c); else layers(c); }

// L05: backward passes against finite differences of the forward pass.
#include "dnn_gen.hpp"
const char* const PBT_RULE = "Every layer kind that is a function of its input and parameters (dense, convolution, recurrent, both poolings, all activations) with generated configuration, parameters, history of earlier passes, inputs away from kinks and upstream gradients; "
    "each input gradient and each parameter gradient against a central difference of the layer's own prediction. Non-trivial: some derivative differs from zero.";
void property(pbt::Case& c) {
    int kind = int(c.below(DROP)); auto is = gen_shape(c, kind); Made m = make_layer(c, kind, is, "l", 7); if (kind == SOFT && m.in < 2 && c.flip()) return;
    if (kind == CONV && m.out == 0) { c.label("no_windows"); }
    Layer& l0 = *m.l; set_params(c, l0); if (kind == RNN && m.hidden * m.steps > 30) for (size_t i = 0; i < l0.param_count(); ++i) l0.param(i) *= 0.5 / std::sqrt(double(m.hidden)); c.note(m.desc, " params ", pbt::show(params(l0)));
    std::shared_ptr<Layer> keep; Layer* l = &l0; if (c.chance(1, 4)) { keep = l0.clone(); l = keep.get(); c.label("clone"); }
    Vec h0(m.hidden); for (auto& h : h0) h = c.uniform(-0.9, 0.9);
    auto reset = [&] { if (m.kind == RNN) static_cast<RecurrentLayer*>(l)->hidden_state(h0); };
    auto f = [&](const Vec& x, const Vec& g) { reset(); return dot(l->forward(x), g); };
    for (size_t round = c.small(1, 3), r = 0; r < round; ++r) {
        Vec x = smooth_input(c, m.in), g = c.nums(m.out), x0 = x, g0 = g; if (kind != MAXP && kind != RELU && kind != ELU && c.flip()) { x = c.nums(m.in); x0 = x; }
        // The step follows the magnitude of the input: layers without curvature at any one, others not much below one.
        double unit = 1; if (c.chance(1, 3)) { bool flat = kind == RELU || kind == MAXP || kind == AVGP || kind == LINEAR; unit = flat ? std::pow(10.0, c.uniform(-9, 6)) : std::pow(10.0, c.uniform(-4, 0)); for (auto& v : x) v *= unit; x0 = x; c.label(unit < 1e-3 ? "small_input" : unit > 1e3 ? "large_input" : "scaled_input"); }
        c.note("x ", pbt::show(x), " g ", pbt::show(g), " h ", pbt::show(h0)); Vec before = grads(*l), p0 = params(*l);
        if (c.chance(1, 3)) { Vec o = c.nums(m.in); l->forward(o); c.label("predicted_before"); }
        reset(); Vec y = l->training_forward(x); CHECK_EQ(c, y.size(), m.out); Vec d = l->backward(g); CHECK_EQ(c, d.size(), m.in); CHECK_EQ(c, Vec(l->last_input_gradient()), d); CHECK_EQ(c, x, x0); CHECK_EQ(c, g, g0); CHECK_EQ(c, params(*l), p0, "a pass changed the parameters");
        Vec after = grads(*l); double h = 1e-5, scale = 1; for (double v : g) scale += std::fabs(v);
        auto ok = [&](double a, double b) { return std::fabs(a - b) <= 2e-6 * (scale + std::fabs(b)); };
        size_t lim = c.tier ? 400 : 60; size_t off = m.in > lim ? c.below(m.in) : 0;
        for (size_t q = 0; q < std::min(m.in, lim); ++q) { size_t i = (q + off) % m.in; double s = x[i], e = h * unit; x[i] = s + e; double u = f(x, g); x[i] = s - e; double v = f(x, g); x[i] = s; double fd = (u - v) / (2 * e); CHECK(c, ok(d[i], fd), "input gradient", i, "is", d[i], "difference quotient", fd); c.nontrivial(std::fabs(fd) > 1e-3); }
        size_t np = p0.size(); off = np > lim ? c.below(np) : 0;
        for (size_t q = 0; q < std::min(np, lim); ++q) { size_t i = (q + off) % np; double s = l->param(i); l->param(i) = s + h; double u = f(x, g); l->param(i) = s - h; double v = f(x, g); l->param(i) = s; double fd = (u - v) / (2 * h); CHECK(c, ok(after[i] - before[i], fd), "parameter gradient", i, "grew by", after[i] - before[i], "difference quotient", fd); }
        c.label_if(r > 0, "second_pass"); c.label_if(!before.empty() && before != Vec(before.size(), 0.0), "gradients_present");
    }
    c.label(kind_name(kind));
}

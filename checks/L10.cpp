// L10: dropout.
#include "dnn_gen.hpp"
const char* const PBT_RULE = "Histories of training passes, backward passes and predictions over a dropout layer with generated probability (including 0 and 1), size, generator and copies: each output is zero or the scaled input, gradients follow the pattern of the latest training pass, predictions are the identity, "
    "equal generators give equal patterns, successive patterns differ, and the dropped fraction stays within seven standard deviations. Non-trivial: 0 < p < 1 and at least two values.";
void property(pbt::Case& c) {
    double p; switch (c.weighted({4, 4, 12, 2, 2})) { case 0: p = 0; break; case 1: p = 1; break; case 2: p = c.uniform(0.05, 0.95); break; case 3: p = std::ldexp(c.uniform(0.5, 1), -int(c.below(20)) - 4); break; default: p = 1 - std::ldexp(c.uniform(0.5, 1), -int(c.below(20)) - 4); }
    c.label_if(p > 0 && p < 0.05, "rarely_dropped"); c.label_if(p > 0.95 && p < 1, "rarely_kept"); bool big = c.chance(1, 8); size_t n = big ? c.usize(300, 3000) : c.small(1, 30); uint64_t seed = c.below(1 << 20) + 1; double scale = p == 1.0 ? 0.0 : 1.0 / (1.0 - p);
    DropoutLayer a("d", n, p, RneType(seed)), b("e", n, p, RneType(seed)); bool init = c.flip(); if (init) { uint64_t s2 = c.below(1 << 20) + 1; a.init(Layer::InitializationFunction::XAVIER, Layer::ProbabilityDensityFunction::NORMAL, RneType(s2)); b.init(Layer::InitializationFunction::KAIMING, Layer::ProbabilityDensityFunction::UNIFORM, RneType(s2)); c.label("init"); }
    c.note("dropout ", p, " of ", n, " seed ", seed); CHECK_EQ(c, size_t(a.param_count()), size_t(0)); std::vector<bool> kept, last; Vec x0, y0; size_t dropped = 0, drawn = 0, passes = 0;
    std::shared_ptr<Layer> keep; Layer* l = &a;
    c.repeat(1, big ? 4 : 10, [&] {
        switch (c.weighted({5, 3, 3, 1})) {
            case 0: { Vec x(n); for (auto& v : x) { v = c.num(3); if (v == 0) v = 1; } Vec in = x; if (n <= 30) c.note("train ", pbt::show(x)); x0 = x; Vec y = l->training_forward(x0); CHECK_EQ(c, x0, in); CHECK_EQ(c, y.size(), n); last = kept; kept.assign(n, false); ++passes; size_t d = 0;
                for (size_t i = 0; i < n; ++i) { if (y[i] == 0) ++d; else { kept[i] = true; CHECK(c, pbt::near(y[i], x[i] * scale, 1e-12, 0), "output", i, "is", y[i], "input", x[i], "scale", scale); } } dropped += d; drawn += n;
                if (p == 0) CHECK_EQ(c, d, size_t(0), "dropped with probability 0"); if (p == 1) CHECK_EQ(c, d, n, "kept with probability 1");
                Vec z = b.training_forward(x0); CHECK_EQ(c, z, y, "two layers with equal generators"); y0 = y; CHECK_EQ(c, l->last_output(), y);
                if (big && p > 0.1 && p < 0.9 && passes > 1) { CHECK(c, last != kept, "two passes in a row used the same pattern"); c.label("patterns_differ"); }
                c.label(p == 0 ? "keep_all" : p == 1 ? "drop_all" : "mixed"); c.nontrivial(p > 0 && p < 1 && n >= 2); break; }
            case 1: { if (kept.empty()) break; Vec g(n); for (auto& v : g) v = c.num(3); Vec g0 = g, d = l->backward(g); CHECK_EQ(c, g, g0); CHECK_EQ(c, d.size(), n); for (size_t i = 0; i < n; ++i) CHECK(c, kept[i] ? pbt::near(d[i], g[i] * scale, 1e-12, 0) : d[i] == 0, "gradient", i, "is", d[i], "upstream", g[i], kept[i] ? "kept" : "dropped"); CHECK_EQ(c, Vec(l->last_input_gradient()), d); c.label("backward"); c.label_if(passes > 1, "backward_later"); break; }
            case 2: { Vec x(n); for (auto& v : x) v = c.num(3); Vec y = l->forward(x); CHECK_EQ(c, y, x, "prediction"); CHECK_EQ(c, Vec(l->last_output()), x); c.label("predicted"); break; }
            default: { c.note("clone"); auto k = l->clone(); keep = k; l = keep.get(); c.label("cloned"); break; }
        }
    });
    if (drawn >= 300) { double sd = std::sqrt(double(drawn) * p * (1 - p)); CHECK(c, std::fabs(double(dropped) - p * double(drawn)) <= 7 * sd + 10, "dropped", dropped, "of", drawn, "with probability", p); c.label("fraction"); }
    // another generator gives another pattern
    if (big && p > 0.1 && p < 0.9) { DropoutLayer q("q", n, p, RneType(seed + 1 + c.below(1000))), r("r", n, p, RneType(seed)); Vec one(n, 1.0), u = q.training_forward(one), v = r.training_forward(one); CHECK(c, u != v, "different generators gave the same pattern"); c.label("other_generator"); }
}

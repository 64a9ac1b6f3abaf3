// L02: activations and their derivatives.
#include "pbt.hpp"
#include "dnn/dlmath.hpp"
#include "dnn/activation.hpp"
using namespace EdgeLearning;
typedef long double LD;
const char* const PBT_RULE = "Activation functions, derivatives and activation layers over generated finite inputs (every magnitude for the element-wise functions, the stable softmax and the layers) against their definitions in extended precision, "
    "central differences of the function itself, and for softmax the distribution, order and shift laws. Non-trivial: at least one input different from zero.";

static LD f_ref(int k, LD x, LD a) { switch (k) { case 0: return x > 0 ? x : 0; case 1: return x > 0 ? x : a * expm1l(x); case 2: return tanhl(x); case 3: return x >= 0 ? 1 / (1 + expl(-x)) : expl(x) / (1 + expl(x)); default: return x; } }
static LD d_ref(int k, LD x, LD a) { switch (k) { case 0: return x > 0 ? 1 : 0; case 1: return x > 0 ? 1 : a * expl(x); case 2: { LD q = 1 / coshl(x); return q * q; } case 3: { LD s = f_ref(3, x, a); return s * f_ref(3, -x, a); } default: return 1; } }
static void fwd(int k, double* d, const double* s, size_t n, double a) { switch (k) { case 0: DLMath::relu<double>(d, s, n); break; case 1: DLMath::elu<double>(d, s, n, a); break; case 2: DLMath::tanh<double>(d, s, n); break; default: DLMath::sigmoid<double>(d, s, n); } }
static double fwd1(int k, double x, double a) { switch (k) { case 0: return DLMath::relu<double>(x); case 1: return DLMath::elu<double>(x, a); case 2: return DLMath::tanh<double>(x); default: return DLMath::sigmoid<double>(x); } }
static void der(int k, double* d, const double* s, size_t n, double a) { switch (k) { case 0: DLMath::relu_1<double>(d, s, n); break; case 1: DLMath::elu_1<double>(d, s, n, a); break; case 2: DLMath::tanh_1<double>(d, s, n); break; default: DLMath::sigmoid_1<double>(d, s, n); } }
static double der1(int k, double x, double a) { switch (k) { case 0: return DLMath::relu_1<double>(x); case 1: return DLMath::elu_1<double>(x, a); case 2: return DLMath::tanh_1<double>(x); default: return DLMath::sigmoid_1<double>(x); } }
static void dero(int k, double* d, const double* s, size_t n, double a) { switch (k) { case 0: DLMath::relu_1<double>(d, s, n); break; case 1: DLMath::elu_1_opt<double>(d, s, n, a); break; case 2: DLMath::tanh_1_opt<double>(d, s, n); break; default: DLMath::sigmoid_1_opt<double>(d, s, n); } }
static double dero1(int k, double y, double a) { switch (k) { case 0: return DLMath::relu_1<double>(y); case 1: return DLMath::elu_1_opt<double>(y, a); case 2: return DLMath::tanh_1_opt<double>(y); default: return DLMath::sigmoid_1_opt<double>(y); } }
static bool close(double got, LD want, LD abs) { return std::fabs(LD(got) - want) <= abs + 1e-12L * std::fabs(want); }
static double input(pbt::Case& c) { switch (c.weighted({3, 2, 2, 1})) { case 0: return c.num(3); case 1: return c.uniform(-30, 30); case 2: return c.uniform(-800, 800); default: return c.finite(); } }

static void elementwise(pbt::Case& c) {
    int k = int(c.below(4)); size_t n = c.chance(1, 20) ? c.usize(20, 600) : c.small(1, 20); c.label_if(n > 20, "many_values"); double a = c.flip() ? 1.0 : c.uniform(0.05, 3); std::vector<double> x(n); for (auto& v : x) v = input(c);
    static const char* names[] = {"relu", "elu", "tanh", "sigmoid"}; c.note(names[k], " alpha ", a, " of ", pbt::show(x)); c.label(names[k]);
    std::vector<double> y(n, -77), dy(n), dq(n), z; LD abs = 4e-16L * std::max(1.0, a);
    fwd(k, y.data(), x.data(), n, a); der(k, dy.data(), x.data(), n, a); dero(k, dq.data(), y.data(), n, a);
    for (size_t i = 0; i < n; ++i) {
        CHECK(c, close(y[i], f_ref(k, x[i], a), k == 3 ? 1e-290L : k == 0 ? 0 : abs), "value at", x[i], "is", y[i]); CHECK(c, pbt::near(fwd1(k, x[i], a), y[i], 1e-13, 1e-300), "scalar form at", x[i]);
        CHECK(c, close(dy[i], d_ref(k, x[i], a), abs), "derivative at", x[i], "is", dy[i], "want", double(d_ref(k, x[i], a))); CHECK(c, pbt::near(der1(k, x[i], a), dy[i], 1e-13, 1e-15 * std::max(1.0, a)));
        CHECK(c, close(dq[i], d_ref(k, x[i], a), abs), "derivative reusing the output at", x[i], "is", dq[i], "want", double(d_ref(k, x[i], a))); CHECK(c, pbt::near(dero1(k, y[i], a), dq[i], 1e-13, 1e-15 * std::max(1.0, a)));
        if (std::fabs(x[i]) < 20 && std::fabs(x[i]) > 1e-3) { double h = 1e-5, fd = (fwd1(k, x[i] + h, a) - fwd1(k, x[i] - h, a)) / (2 * h); CHECK(c, pbt::near(fd, dy[i], 1e-5, 1e-7), "difference quotient at", x[i], "is", fd, "derivative", dy[i]); }
    }
    if (c.flip()) { z = x; fwd(k, z.data(), z.data(), n, a); CHECK_EQ(c, z, y, "in place"); z = x; der(k, z.data(), z.data(), n, a); CHECK_EQ(c, z, dy, "derivative in place"); z = y; dero(k, z.data(), z.data(), n, a); CHECK_EQ(c, z, dq); c.label("in_place"); }
    for (double v : x) { c.nontrivial(v != 0); c.label_if(std::fabs(v) > 700, "huge"); c.label_if(v == 0, "zero"); }
}
static std::vector<LD> soft_ref(const std::vector<double>& x) {
    LD m = *std::max_element(x.begin(), x.end()), s = 0; std::vector<LD> p; for (double v : x) { p.push_back(expl(LD(v) - m)); s += p.back(); } for (auto& v : p) v /= s; return p;
}
static void softmax(pbt::Case& c) {
    size_t n = c.chance(1, 20) ? c.usize(20, 300) : c.small(1, 20); c.label_if(n > 20, "many_classes"); bool dyadic = c.flip(); double mag = c.pick(std::vector<double>{1, 10, 300, 1e4, 1e15, 1e307}); std::vector<double> x(n);
    for (auto& v : x) v = dyadic ? double(c.range(-8000, 8000)) / 8 : c.chance(1, 5) && n ? x[0] : c.uniform(-1, 1) * mag;
    c.note("softmax of ", pbt::show(x)); std::vector<double> y(n), z(n); int via = int(c.below(3));
    if (via == 0) DLMath::stable_softmax<double>(y.data(), x.data(), n); else if (via == 1) DLMath::stable_softmax_no_check<double>(y.data(), x.data(), n);
    else { SoftmaxLayer l("s", n); y = l.forward(x); c.label("softmax_layer"); }
    double s = 0; auto p = soft_ref(x);
    for (size_t i = 0; i < n; ++i) { CHECK(c, y[i] >= 0 && y[i] <= 1 + 1e-9, "probability", i, y[i]); s += y[i]; LD tol = 1e-9L * p[i] + 1e-300L; CHECK(c, std::fabs(LD(y[i]) - p[i]) <= tol, "probability", i, y[i], "want", double(p[i])); }
    CHECK(c, std::fabs(s - 1) < 1e-9, "sum", s);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (x[i] > x[j]) CHECK(c, y[i] >= y[j], "order of", i, j);
    if (dyadic) { double sh = double(c.range(-(1LL << 40), 1LL << 40)); std::vector<double> xs = x; for (auto& v : xs) v += sh; DLMath::stable_softmax<double>(z.data(), xs.data(), n); for (size_t i = 0; i < n; ++i) CHECK(c, pbt::near(z[i], y[i], 1e-9, 1e-300), "shift by", sh, "changes", i); c.label("shifted"); }
    bool mild = true; for (double v : x) if (std::fabs(v) > 300) mild = false;
    if (mild) { DLMath::softmax<double>(z.data(), x.data(), n); for (size_t i = 0; i < n; ++i) CHECK(c, std::fabs(LD(z[i]) - p[i]) <= 1e-9L * p[i] + 1e-300L, "plain softmax", i, z[i], double(p[i])); c.label("plain_softmax"); }
    auto g = c.nums(n); LD gm = 0; for (double v : g) gm = std::max(gm, std::fabs(LD(v))); LD dot = 0; for (size_t i = 0; i < n; ++i) dot += p[i] * g[i];
    std::vector<double> d(n), q(n), before = y; DLMath::softmax_1<double>(d.data(), x.data(), g.data(), n); DLMath::softmax_1_opt<double>(q.data(), y.data(), g.data(), n);
    for (size_t i = 0; i < n; ++i) { LD w = p[i] * (g[i] - dot); CHECK(c, std::fabs(LD(d[i]) - w) <= 1e-9L * gm, "softmax derivative", i, d[i], "want", double(w)); CHECK(c, std::fabs(LD(q[i]) - w) <= 1e-9L * gm, "softmax derivative reusing the output", i, q[i], "want", double(w)); }
    CHECK_EQ(c, y, before); bool threw = false; try { DLMath::softmax_1_opt<double>(y.data(), y.data(), g.data(), n); } catch (const std::exception&) { threw = true; } CHECK(c, threw, "softmax_1_opt in place is rejected");
    for (double v : x) { c.nontrivial(v != 0); c.label_if(std::fabs(v) > 1e300, "huge"); } c.label("softmax");
}
static void layers(pbt::Case& c) {
    int k = int(c.below(6)); size_t n = c.chance(1, 20) ? c.usize(12, 150) : c.small(1, 12); double a = c.flip() ? 1.0 : c.uniform(0.05, 3); std::shared_ptr<ActivationLayer> l; std::string nm = "l";
    switch (k) { case 0: l = std::make_shared<ReluLayer>(nm, n); break; case 1: l = std::make_shared<EluLayer>(nm, n, a); break; case 2: l = std::make_shared<TanhLayer>(nm, n); break; case 3: l = std::make_shared<SigmoidLayer>(nm, n); break; case 4: l = std::make_shared<LinearLayer>(nm, n); break; default: l = std::make_shared<SoftmaxLayer>(nm, n); }
    c.note("layer ", l->type(), " alpha ", a); c.label("layer_" + l->type()); LD abs = 4e-16L * std::max(1.0, a);
    for (size_t round = c.small(1, 3); round-- > 0;) {
        std::vector<double> x(n), g = c.nums(n); for (auto& v : x) v = input(c); c.note(" x ", pbt::show(x), " g ", pbt::show(g)); auto x0 = x, g0 = g;
        if (c.flip()) { std::vector<double> o(n); for (auto& v : o) v = input(c); l->forward(o); c.label("used_before"); }
        std::vector<double> y = l->training_forward(x), y2 = l->last_output(); CHECK_EQ(c, y2, y); std::vector<double> d = l->backward(g); CHECK_EQ(c, l->last_input_gradient(), d); CHECK_EQ(c, x, x0); CHECK_EQ(c, g, g0); CHECK_EQ(c, y.size(), n); CHECK_EQ(c, d.size(), n);
        CHECK_EQ(c, l->last_output(), y, "the backward pass changed the output"); std::vector<double> pr = l->forward(x); for (size_t i = 0; i < n; ++i) CHECK(c, pbt::near(pr[i], y[i], 1e-13, 1e-300), "prediction and training outputs differ");
        if (k == 5) { auto p = soft_ref(x); LD dot = 0, gm = 0; for (size_t i = 0; i < n; ++i) { dot += p[i] * g[i]; gm = std::max(gm, std::fabs(LD(g[i]))); } for (size_t i = 0; i < n; ++i) { CHECK(c, std::fabs(LD(y[i]) - p[i]) <= 1e-9L * p[i] + 1e-300L); CHECK(c, std::fabs(LD(d[i]) - p[i] * (g[i] - dot)) <= 1e-9L * gm + 1e-300L, "gradient", i, d[i]); } }
        else for (size_t i = 0; i < n; ++i) { CHECK(c, close(y[i], f_ref(k, x[i], a), k == 3 ? 1e-290L : k == 0 || k == 4 ? 0 : abs), "output", i, "at", x[i], "is", y[i]); CHECK(c, close(d[i], d_ref(k, x[i], a) * g[i], abs * std::fabs(g[i])), "gradient", i, "at", x[i], "is", d[i]); }
        for (double v : x) c.nontrivial(v != 0);
    }
}
void property(pbt::Case& c) { switch (c.below(3)) { case 0: elementwise(c); break; case 1: softmax(c); break; default: layers(c); } }

// M09: training makes the training loss smaller, and reaches the optimum where the problem is convex.
#include "net_gen.hpp"
const char* const PBT_RULE = "Descent: one update over all entries of a generated network at a rate and at half of it, in the range where the loss changes linearly; the loss must fall, at least by what the biases of a last dense layer account for. "
    "Convergence: full-batch gradient descent on generated least-squares and softmax-regression problems with the rate below the inverse smoothness of the loss; after k epochs the loss is at most F(u)+|start-u|^2/(2*rate*k) for any u, and never grows. Non-trivial: the loss at the start is not already minimal (some gradient is not zero).";
typedef Dataset<double> D; typedef OptimizerType O;
constexpr auto S = ParallelizationLevel::SEQUENTIAL;
/// Fits from the seed and gives the outputs for some inputs.
typedef std::function<std::vector<Vec>(O, size_t epochs, size_t batch, double rate, size_t seed, const Data&, const std::vector<Vec>& at)> Run;
template <LossType LT> static Run front(pbt::Case& c, const Net& n) {
    auto outputs = [](auto& net, const std::vector<Vec>& at) { D s(at, 1, std::set<SizeType>()); auto r = net.predict(s); std::vector<Vec> o; for (size_t i = 0; i < r.size(); ++i) o.push_back(r.entry(i)); return o; };
    if (c.flip()) { c.label("edge"); auto net = std::make_shared<EdgeFeedforwardNeuralNetwork<LT, InitType::AUTO, S, double>>("net"); for (auto& x : n.d) net->add(x); return [=](O o, size_t e, size_t b, double lr, size_t seed, const Data& d, const std::vector<Vec>& at) { Quiet q; auto s = d.set(); net->fit(s, o, e, b, lr, seed); return outputs(*net, at); }; }
    c.label("static"); auto net = std::make_shared<FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LT, InitType::AUTO, S, double>>(n.d, "net");
    return [=](O o, size_t e, size_t b, double lr, size_t seed, const Data& d, const std::vector<Vec>& at) { Quiet q; auto s = d.set(); net->fit(s, o, e, b, lr, seed); return outputs(*net, at); };
}
static const double EPS = std::numeric_limits<double>::epsilon();
/// Summed over outputs, averaged over entries; NaN when a probability is at the limit of the logarithm.
static double loss_of(bool cce, const std::vector<Vec>& p, const std::vector<Vec>& y) { double s = 0; for (size_t i = 0; i < p.size(); ++i) for (size_t k = 0; k < p[i].size(); ++k) { if (!cce) s += (p[i][k] - y[i][k]) * (p[i][k] - y[i][k]); else if (y[i][k] != 0) s += p[i][k] < 100 * EPS ? NAN : -y[i][k] * std::log(p[i][k]); } return s / double(p.size()); }
template <LossType LT> static void descent(pbt::Case& c) {
    const bool cce = LT == LossType::CCE; NetOpt o; o.max_layers = 3; o.softmax_end = cce; o.drop = false; Net n = gen_net(c, o); note_structure(c, n.s); for (auto& l : n.s.l) c.label(kind_name(l.kind)); c.label(cce ? "cce" : "mse"); c.label("descent");
    Data d = gen_labelled(c, net_in(n), net_out(n), 1, c.chance(1, 8) ? 40 : 6, cce); size_t m = d.x.size(), seed = 1 + c.below(1000); bool adam = c.flip(); c.label(adam ? "adam" : "gd"); c.note(adam ? "adam" : "gd", " seed ", seed, " entries ", m);
    auto run = front<LT>(c, n); auto opt = adam ? O::ADAM : O::GRADIENT_DESCENT; size_t batch = m; std::vector<Vec> p0 = run(opt, 1, batch, 0.0, seed, d, d.x); double l0 = loss_of(cce, p0, d.y); if (!std::isfinite(l0) || l0 > 1e6) return;
    const Spec &last = n.s.l[n.s.l.size() - 2], &act = n.s.l.back(); double bound = 0; if (last.kind == DENSE && (act.kind == LINEAR) == !cce && (act.kind == SOFT) == cce) for (size_t k = 0; k < p0[0].size(); ++k) { double g = 0; for (size_t i = 0; i < m; ++i) g += (p0[i][k] - d.y[i][k]) / double(m) * (cce ? 1 : 2); bound += adam ? std::fabs(g) * (std::fabs(g) > 1e-5) : g * g; }
    if (!cce) bound /= double(p0[0].size());                        // whichever way the rate counts the outputs
    if (bound > 0) c.nontrivial(); bool linear = false;
    for (double rate : {1e-3, 1e-5, 1e-7}) {
        double a = l0 - loss_of(cce, run(opt, 1, batch, rate, seed, d, d.x), d.y), b = l0 - loss_of(cce, run(opt, 1, batch, rate / 2, seed, d, d.x), d.y), q = l0 - loss_of(cce, run(opt, 1, batch, rate / 4, seed, d, d.x), d.y), noise = 1e-12 * (1 + l0);
        if (!std::isfinite(a) || !std::isfinite(b) || !std::isfinite(q) || std::fabs(b - a / 2) > 0.05 * std::fabs(a) + noise || std::fabs(q - a / 4) > 0.03 * std::fabs(a) + noise) continue;
        if (a <= 0 || a < 0.8 * rate * bound) {       // a start on a kink (equal values under a pooling window, a rectifier at zero) has no gradient: there the two sides differ
            bool kinks = false; for (auto& l : n.s.l) kinks |= l.kind == RELU || l.kind == MAXP; double back = kinks ? l0 - loss_of(cce, run(opt, 1, batch, -rate, seed, d, d.x), d.y) : -a; if (std::fabs(a + back) > 0.05 * std::fabs(a) + noise) { c.label("kink"); return; } }
        c.note("rate ", rate, " loss ", l0, " falls by ", a); linear = true; if (std::fabs(a) > 1e3 * noise) { CHECK(c, a > 0, "one update over all entries made the loss larger:", l0, "grew by", -a, "at rate", rate); c.nontrivial(); c.label("fell"); }
        CHECK(c, a >= 0.8 * rate * bound - 1e3 * noise, "the loss fell by", a, "at rate", rate, "less than the biases of the last layer account for:", rate * bound); c.label_if(rate * bound > 1e4 * noise, "bounded"); break;
    }
    c.label_if(!linear, "not_linear");
}
/// The layer as a matrix with the bias in the last column.
static double score(bool cce, const std::vector<Vec>& w, const Data& d) { std::vector<Vec> p; for (auto& x : d.x) { Vec z; for (auto& r : w) { double s = r.back(); for (size_t j = 0; j < x.size(); ++j) s += r[j] * x[j]; z.push_back(s); } if (cce) { double mx = *std::max_element(z.begin(), z.end()), t = 0; for (double& v : z) t += v = std::exp(v - mx); for (double& v : z) v /= t; } p.push_back(z); } return loss_of(cce, p, d.y); }
static double distance(bool cce, std::vector<Vec> a, const std::vector<Vec>& b) { double s = 0; for (size_t j = 0; j < a[0].size(); ++j) { double mean = 0; if (cce) for (size_t k = 0; k < a.size(); ++k) mean += (a[k][j] - b[k][j]) / double(a.size()); for (size_t k = 0; k < a.size(); ++k) { double v = a[k][j] - b[k][j] - mean; s += v * v; } } return s; }
template <LossType LT> static void convergence(pbt::Case& c) {
    const bool cce = LT == LossType::CCE; size_t in = c.small(1, 5), out = c.small(cce ? 2 : 1, 4), m = c.small(1, c.chance(1, 6) ? 60 : 12); Net n; n.s.in = DLMath::Shape3d(in); n.d.push_back(Input("in", LayerShape(in))); n.d.push_back(Dense("d", out, cce ? ActivationType::Softmax : c.flip() ? ActivationType::Linear : ActivationType::None));
    Data d; d.front = c.flip(); std::vector<Vec> truth; for (size_t k = 0; k < out; ++k) truth.push_back(c.nums(in + 1)); bool exact = c.chance(1, 3); for (size_t i = 0; i < m; ++i) { d.x.push_back(c.nums(in)); Vec y(out, 0.0); if (cce) y[c.below(out)] = 1; else for (size_t k = 0; k < out; ++k) { y[k] = truth[k][in] + (exact ? 0 : c.uniform(-1, 1)); for (size_t j = 0; j < in; ++j) y[k] += truth[k][j] * d.x[i][j]; } d.y.push_back(y); }
    double trace = 0; for (auto& x : d.x) { trace += 1; for (double v : x) trace += v * v; } trace /= double(m); double smooth = (cce ? 0.5 : 2.0) * trace, rate = c.uniform(0.2, 1) / smooth; size_t seed = 1 + c.below(1000); auto run = front<LT>(c, n); c.label(cce ? "softmax_regression" : "least_squares"); c.label_if(!cce && exact, "attainable");
    c.note(cce ? "softmax regression " : "least squares ", in, " to ", out, " entries ", m, " rate ", rate, " seed ", seed); for (size_t i = 0; i < m && i < 4; ++i) c.note(pbt::show(d.x[i]), " -> ", pbt::show(d.y[i]));
    std::vector<Vec> probe{Vec(in, 0.0)}; for (size_t j = 0; j < in; ++j) { Vec e(in, 0.0); e[j] = 1; probe.push_back(e); }
    auto layer = [&](const std::vector<Vec>& p) { std::vector<Vec> w(out, Vec(in + 1)); auto z = [&](size_t q, size_t k) { return cce ? std::log(p[q][k]) - std::log(p[q][0]) : p[q][k]; }; for (size_t k = 0; k < out; ++k) { w[k][in] = z(0, k); for (size_t j = 0; j < in; ++j) w[k][j] = z(j + 1, k) - z(0, k); } return w; };
    auto start = layer(run(O::GRADIENT_DESCENT, 1, m, 0.0, seed, d, probe)); for (auto& r : start) for (double v : r) if (!std::isfinite(v)) return;
    std::vector<std::vector<Vec>> us{truth, std::vector<Vec>(out, Vec(in + 1, 0.0)), start}; for (int t = 0; t < 3; ++t) { auto u = truth; for (auto& r : u) for (double& v : r) v += c.num(t ? 0.5 : 2); us.push_back(u); }
    { auto u = start; for (int t = 0; t < 400; ++t) { auto g = u; for (auto& r : g) std::fill(r.begin(), r.end(), 0.0); for (size_t i = 0; i < m; ++i) { Vec z(out); double mx = -1e300, s = 0; for (size_t k = 0; k < out; ++k) { z[k] = u[k][in]; for (size_t j = 0; j < in; ++j) z[k] += u[k][j] * d.x[i][j]; mx = std::max(mx, z[k]); } if (cce) { for (double& v : z) s += v = std::exp(v - mx); for (double& v : z) v /= s; } for (size_t k = 0; k < out; ++k) { double e = (z[k] - d.y[i][k]) * (cce ? 1 : 2) / double(m); g[k][in] += e; for (size_t j = 0; j < in; ++j) g[k][j] += e * d.x[i][j]; } } for (size_t k = 0; k < out; ++k) for (size_t j = 0; j <= in; ++j) u[k][j] -= g[k][j] / smooth; } us.push_back(u); }
    double last = score(cce, start, d), first = last; size_t k = 0; for (size_t k2 : {size_t(1), size_t(2), c.usize(3, 20), c.usize(30, 120), c.usize(200, c.tier ? 3000 : 600)}) {
        k = k2; double f = loss_of(cce, run(O::GRADIENT_DESCENT, k, m, rate, seed, d, d.x), d.y); c.note(k, " epochs: loss ", f); CHECK(c, f <= last * (1 + 1e-9) + 1e-12, "after", k, "epochs the loss is", f, "and it was", last); last = f;
        for (size_t i = 0; i < us.size(); ++i) { double b = score(cce, us[i], d) + distance(cce, start, us[i]) / (2 * rate * double(k)); if (!std::isfinite(b)) continue; CHECK(c, f <= b * (1 + 1e-9) + 1e-11, "after", k, "epochs at rate", rate, "the loss is", f, "although parameters at squared distance", distance(cce, start, us[i]), "have", score(cce, us[i], d)); }
    }
    if (first > last * 1.01 + 1e-9) c.nontrivial(); c.label_if(first > last * 2, "halved");
}
void property(pbt::Case& c) { bool cce = c.flip(); if (c.chance(1, 3)) { if (cce) convergence<LossType::CCE>(c); else convergence<LossType::MSE>(c); } else { if (cce) descent<LossType::CCE>(c); else descent<LossType::MSE>(c); } }

// Generated layers, their inputs and small helpers for the layer and model checks.
#ifndef VERIF_DNN_GEN_HPP
#define VERIF_DNN_GEN_HPP
#include "pbt.hpp"
#include "dnn/dlmath.hpp"
#include "dnn/layer.hpp"
#include "dnn/dense.hpp"
#include "dnn/activation.hpp"
#include "dnn/convolutional.hpp"
#include "dnn/max_pooling.hpp"
#include "dnn/avg_pooling.hpp"
#include "dnn/dropout.hpp"
#include "dnn/recurrent.hpp"
#include <memory>
using namespace EdgeLearning;
typedef std::vector<double> Vec;

enum Kind { DENSE, CONV, RNN, MAXP, AVGP, RELU, ELU, TANH, SIGM, LINEAR, SOFT, DROP, N_KINDS };
inline const char* kind_name(int k) { static const char* n[] = {"dense", "conv", "recurrent", "max_pool", "avg_pool", "relu", "elu", "tanh", "sigmoid", "linear", "softmax", "dropout"}; return n[k]; }

struct Made { std::shared_ptr<Layer> l; int kind = 0; size_t in = 0, out = 0; DLMath::Shape3d out_shape{0}; size_t hidden = 0, steps = 1; std::string desc; };

/// Any layer of the kind; image kinds take the given input shape, vector kinds its size.
inline Made make_layer(pbt::Case& c, int kind, DLMath::Shape3d is, const std::string& name, size_t maxout = 6) {
    Made m; m.kind = kind; m.in = is.size(); m.out = m.in; m.out_shape = is; std::ostringstream d; d << kind_name(kind) << "(" << is.height() << "x" << is.width() << "x" << is.channels();
    bool big = c.chance(1, 25), huge = big && c.chance(1, 6); c.label_if(huge && kind < RELU, "huge_layer");
    auto win = [&](size_t& kh, size_t& kw, size_t& sh, size_t& sw) { kh = c.small(1, std::min<size_t>(is.height(), big ? 8 : 4)); kw = c.small(1, std::min<size_t>(is.width(), big ? 8 : 4)); sh = c.small(1, 3); sw = c.small(1, 3); };
    switch (kind) {
        case DENSE: { m.out = huge ? c.usize(40, 400) : big ? c.usize(1, 40) : c.small(1, maxout); m.l = std::make_shared<DenseLayer>(name, m.in, m.out); m.out_shape = DLMath::Shape3d(m.out); d << "->" << m.out; break; }
        case CONV: { size_t kh, kw, sh, sw; win(kh, kw, sh, sw); size_t f = huge ? c.usize(12, 80) : big ? c.usize(1, 12) : c.small(1, 3), ph = c.small(0, 2), pw = c.small(0, 2);
            m.l = std::make_shared<ConvolutionalLayer>(name, is, DLMath::Shape2d(kh, kw), f, DLMath::Shape2d(sh, sw), DLMath::Shape2d(ph, pw)); m.out_shape = m.l->output_shape().shape(); m.out = m.out_shape.size(); d << " k" << kh << "," << kw << " s" << sh << "," << sw << " p" << ph << "," << pw << " f" << f; break; }
        case MAXP: case AVGP: { size_t kh, kw, sh, sw; win(kh, kw, sh, sw);
            if (kind == MAXP) m.l = std::make_shared<MaxPoolingLayer>(name, is, DLMath::Shape2d(kh, kw), DLMath::Shape2d(sh, sw)); else m.l = std::make_shared<AveragePoolingLayer>(name, is, DLMath::Shape2d(kh, kw), DLMath::Shape2d(sh, sw));
            m.out_shape = m.l->output_shape().shape(); m.out = m.out_shape.size(); d << " k" << kh << "," << kw << " s" << sh << "," << sw; break; }
        case RNN: { m.hidden = c.small(1, 5); m.steps = c.small(1, 6); size_t o = c.small(1, 4); if (big) { m.hidden = c.usize(1, 14); m.steps = c.usize(1, 40); o = c.usize(1, 8); } if (huge) { switch (c.below(3)) { case 0: m.hidden = c.usize(14, 60); m.steps = c.small(1, 3); break; case 1: m.hidden = c.small(1, 3); m.steps = c.usize(40, 300); break; default: o = c.usize(8, 60); m.steps = c.small(1, 3); m.hidden = c.small(1, 5); } } m.l = std::make_shared<RecurrentLayer>(name, is.size(), o, m.hidden, m.steps); m.in = is.size() * m.steps; m.out = o * m.steps; m.out_shape = DLMath::Shape3d(o); d << "->" << o << " hidden " << m.hidden << " steps " << m.steps; break; }
        case RELU: m.l = std::make_shared<ReluLayer>(name, m.in); break;
        case ELU: { double a = c.flip() ? 1.0 : c.uniform(0.1, 2); m.l = std::make_shared<EluLayer>(name, m.in, a); d << " alpha " << a; break; }
        case TANH: m.l = std::make_shared<TanhLayer>(name, m.in); break;
        case SIGM: m.l = std::make_shared<SigmoidLayer>(name, m.in); break;
        case LINEAR: m.l = std::make_shared<LinearLayer>(name, m.in); break;
        case SOFT: m.l = std::make_shared<SoftmaxLayer>(name, m.in); break;
        default: { double p = c.pick(Vec{0.0, 0.1, 0.5, 0.9, 1.0}); m.l = std::make_shared<DropoutLayer>(name, m.in, p, RneType(c.below(1000) + 1)); d << " p " << p; break; }
    }
    c.label_if(big && kind < RELU, "big_layer"); d << ")"; m.desc = d.str(); return m;
}
inline DLMath::Shape3d gen_shape(pbt::Case& c, int kind) {
    if (kind == CONV || kind == MAXP || kind == AVGP) { size_t h = c.small(1, 6), w = c.small(1, 6), ch = c.small(1, 3); if (c.chance(1, 30)) { if (c.chance(1, 4)) { h = c.small(1, 4); w = c.small(1, 4); ch = c.usize(9, 70); c.label("huge_input"); } else { (c.flip() ? h : w) = c.usize(6, 20); ch = c.usize(1, 9); } c.label("big_input"); } return DLMath::Shape3d(h, w, ch); }
    if (c.chance(1, 150)) { c.label("huge_input"); return DLMath::Shape3d(c.usize(70, kind == RNN ? 80 : 600)); } if (c.chance(1, 30)) { c.label("big_input"); return DLMath::Shape3d(c.usize(7, kind == RNN ? 20 : 70)); }
    return DLMath::Shape3d(c.small(1, 7));
}
inline void set_params(pbt::Case& c, Layer& l, double mag = 1.0) { for (size_t i = 0; i < l.param_count(); ++i) l.param(i) = c.num(mag) * (mag <= 1 ? 0.5 : 1); }
inline Vec params(Layer& l) { Vec v; for (size_t i = 0; i < l.param_count(); ++i) v.push_back(l.param(i)); return v; }
inline Vec grads(Layer& l) { Vec v; for (size_t i = 0; i < l.param_count(); ++i) v.push_back(l.gradient(i)); return v; }
/// Distinct values, no two closer than 0.05 and none within 0.02 of zero: away from every kink.
inline Vec smooth_input(pbt::Case& c, size_t n) {
    std::vector<size_t> p(n); for (size_t i = 0; i < n; ++i) p[i] = i; for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[c.below(i)]);
    double span = 0.1 * double(n), lo = c.flip() ? -span / 2 : c.uniform(-span, 0); Vec v(n);
    for (size_t i = 0; i < n; ++i) { v[i] = lo + 0.1 * double(p[i]) + c.uniform(0, 0.05); if (std::fabs(v[i]) < 0.02) v[i] = 0.02; }
    return v;
}
inline double dot(const Vec& a, const Vec& b) { double s = 0; for (size_t i = 0; i < a.size() && i < b.size(); ++i) s += a[i] * b[i]; return s; }
inline bool close_vec(const Vec& a, const Vec& b, double rel = 1e-9, double abs = 1e-9) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!pbt::near(a[i], b[i], rel, abs)) return false; return true; }
#define CHECK_NEAR(c, a, b, ...) do { const Vec _x = (a), _y = (b); if (!close_vec(_x, _y)) { std::ostringstream _s; _s << #a " ~ " #b ": got " << pbt::show(_x) << ", expected " << pbt::show(_y); pbt_msg(_s, ##__VA_ARGS__); (c).fail(_s.str()); } } while (0)
#endif

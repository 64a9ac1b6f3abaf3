// Generated model structures that can be built more than once.
#ifndef VERIF_MODEL_GEN_HPP
#define VERIF_MODEL_GEN_HPP
#include "dnn_gen.hpp"
#include "dnn/model.hpp"
#include "dnn/mse_loss.hpp"
#include "dnn/cce_loss.hpp"
#include <cstring>
struct Spec { int kind = DENSE; DLMath::Shape3d in{1}, outs{1}; size_t isz = 1, osz = 1, kh = 1, kw = 1, sh = 1, sw = 1, ph = 0, pw = 0, f = 1, hidden = 1, steps = 1; double alpha = 1, p = 0; std::string name; };
inline std::string show_spec(const Spec& s) {
    std::ostringstream d; d << s.name << ":" << kind_name(s.kind) << "(" << s.in.height() << "x" << s.in.width() << "x" << s.in.channels();
    if (s.kind == CONV || s.kind == MAXP || s.kind == AVGP) d << " k" << s.kh << "," << s.kw << " s" << s.sh << "," << s.sw;
    if (s.kind == CONV) d << " p" << s.ph << "," << s.pw << " f" << s.f; if (s.kind == RNN) d << " hidden " << s.hidden << " steps " << s.steps; if (s.kind == ELU) d << " alpha " << s.alpha; if (s.kind == DROP) d << " p " << s.p;
    d << " ->" << s.osz << ")"; return d.str();
}
/// A layer of the kind that takes `is.size()` numbers.
inline Spec gen_spec(pbt::Case& c, int kind, DLMath::Shape3d is, const std::string& name) {
    Spec s; s.kind = kind; s.in = is; s.isz = is.size(); s.osz = s.isz; s.outs = is; s.name = name;
    bool huge = c.chance(1, 120); c.label_if(huge && kind <= RNN, "huge_layer");
    switch (kind) {
        case DENSE: s.osz = huge ? c.usize(60, 300) : c.chance(1, 20) ? c.small(6, 40) : c.small(1, 5); c.label_if(s.osz > 16, "big_layer"); s.outs = DLMath::Shape3d(s.osz); break;
        case CONV: case MAXP: case AVGP: {
            s.kh = c.small(1, std::min<size_t>(is.height(), 3)); s.kw = c.small(1, std::min<size_t>(is.width(), 3)); s.sh = c.small(1, 3); s.sw = c.small(1, 3);
            if (kind == CONV) { s.f = huge ? c.usize(20, 80) : c.chance(1, 20) ? c.small(4, 12) : c.small(1, 3); s.ph = c.small(0, 2); s.pw = c.small(0, 2); }
            size_t oh = (is.height() + 2 * s.ph - s.kh) / s.sh + 1, ow = (is.width() + 2 * s.pw - s.kw) / s.sw + 1; s.outs = DLMath::Shape3d(oh, ow, kind == CONV ? s.f : is.channels()); s.osz = s.outs.size(); break; }
        case RNN: { std::vector<size_t> d; for (size_t i = 1; i <= s.isz; ++i) if (s.isz % i == 0) d.push_back(i); s.steps = c.pick(d); s.hidden = huge ? c.usize(15, 60) : c.chance(1, 20) ? c.small(5, 14) : c.small(1, 4); s.f = c.chance(1, 20) ? c.small(4, 12) : c.small(1, 3); s.osz = s.f * s.steps; s.outs = DLMath::Shape3d(s.osz); break; }
        case ELU: s.alpha = c.flip() ? 1.0 : c.chance(1, 3) ? c.pick(std::vector<double>{0.0, -1.0, -0.25, 1e-9, 12.5}) : c.uniform(0.1, 2); break;
        case DROP: s.p = c.pick(Vec{0.0, 0.1, 0.3, 0.5, 0.9, 1.0}); break;
        default: break;
    }
    return s;
}
inline std::shared_ptr<Layer> make_spec(const Spec& s) {
    switch (s.kind) {
        case DENSE: return std::make_shared<DenseLayer>(s.name, s.isz, s.osz);
        case CONV: return std::make_shared<ConvolutionalLayer>(s.name, s.in, DLMath::Shape2d(s.kh, s.kw), s.f, DLMath::Shape2d(s.sh, s.sw), DLMath::Shape2d(s.ph, s.pw));
        case MAXP: return std::make_shared<MaxPoolingLayer>(s.name, s.in, DLMath::Shape2d(s.kh, s.kw), DLMath::Shape2d(s.sh, s.sw));
        case AVGP: return std::make_shared<AveragePoolingLayer>(s.name, s.in, DLMath::Shape2d(s.kh, s.kw), DLMath::Shape2d(s.sh, s.sw));
        case RNN: return std::make_shared<RecurrentLayer>(s.name, s.isz / s.steps, s.f, s.hidden, s.steps);
        case RELU: return std::make_shared<ReluLayer>(s.name, s.isz);
        case ELU: return std::make_shared<EluLayer>(s.name, s.isz, s.alpha);
        case TANH: return std::make_shared<TanhLayer>(s.name, s.isz);
        case SIGM: return std::make_shared<SigmoidLayer>(s.name, s.isz);
        case LINEAR: return std::make_shared<LinearLayer>(s.name, s.isz);
        case SOFT: return std::make_shared<SoftmaxLayer>(s.name, s.isz);
        default: return std::make_shared<DropoutLayer>(s.name, s.isz, s.p, RneType(7));
    }
}
inline std::shared_ptr<Layer> add_spec(Model& m, const Spec& s) {
    switch (s.kind) {
        case DENSE: return m.add_layer<DenseLayer>(s.name, s.isz, s.osz);
        case CONV: return m.add_layer<ConvolutionalLayer>(s.name, s.in, DLMath::Shape2d(s.kh, s.kw), s.f, DLMath::Shape2d(s.sh, s.sw), DLMath::Shape2d(s.ph, s.pw));
        case MAXP: return m.add_layer<MaxPoolingLayer>(s.name, s.in, DLMath::Shape2d(s.kh, s.kw), DLMath::Shape2d(s.sh, s.sw));
        case AVGP: return m.add_layer<AveragePoolingLayer>(s.name, s.in, DLMath::Shape2d(s.kh, s.kw), DLMath::Shape2d(s.sh, s.sw));
        case RNN: return m.add_layer<RecurrentLayer>(s.name, s.isz / s.steps, s.f, s.hidden, s.steps);
        case RELU: return m.add_layer<ReluLayer>(s.name, s.isz);
        case ELU: return m.add_layer<EluLayer>(s.name, s.isz, s.alpha);
        case TANH: return m.add_layer<TanhLayer>(s.name, s.isz);
        case SIGM: return m.add_layer<SigmoidLayer>(s.name, s.isz);
        case LINEAR: return m.add_layer<LinearLayer>(s.name, s.isz);
        case SOFT: return m.add_layer<SoftmaxLayer>(s.name, s.isz);
        default: return m.add_layer<DropoutLayer>(s.name, s.isz, s.p, RneType(7));
    }
}
/// A forest: layer i takes the output of layer parent[i], or the model input when parent[i] < 0.
struct Structure { std::vector<Spec> l; std::vector<int> parent; DLMath::Shape3d in{1}; int loss = -1; size_t loss_of = 0, batch = 1; double tol = 0.1; };
struct GenOpt { size_t max_layers = 5; bool rnn = true, drop = true, tree = false, loss = true; int require_trainable = 0; };
inline DLMath::Shape3d gen_any_shape(pbt::Case& c) { if (c.chance(1, 150)) { c.label("huge_input"); return DLMath::Shape3d(c.usize(50, 400)); } if (c.chance(1, 20)) { c.label("big_input"); if (c.flip()) { size_t h = c.small(4, 12), w = c.small(4, 12), ch = c.small(1, 4); return DLMath::Shape3d(h, w, ch); } return DLMath::Shape3d(c.small(7, 50)); } if (c.flip()) { size_t h = c.small(1, 5), w = c.small(1, 5), ch = c.small(1, 2); return DLMath::Shape3d(h, w, ch); } return DLMath::Shape3d(c.small(1, 6)); }
inline int gen_kind(pbt::Case& c, const GenOpt& o) { for (;;) { int k = int(c.weighted({5, 3, o.rnn ? 2u : 0u, 1, 1, 1, 1, 1, 1, 1, 1, o.drop ? 1u : 0u})); return k; } }
inline Structure gen_structure(pbt::Case& c, const GenOpt& o) {
    Structure s; s.in = gen_any_shape(c); size_t n = c.small(1, o.max_layers); std::vector<char> leaf;
    for (size_t i = 0; i < n; ++i) {
        int p = int(i) - 1; if (o.tree && i && c.chance(1, 3)) p = int(c.below(i + 1)) - 1;
        s.parent.push_back(p); s.l.push_back(gen_spec(c, gen_kind(c, o), p < 0 ? s.in : s.l[size_t(p)].outs, "n" + std::to_string(i))); leaf.push_back(1); if (p >= 0) leaf[size_t(p)] = 0;
    }
    if (o.loss) { s.loss = int(c.below(2)); std::vector<size_t> ls; for (size_t i = 0; i < n; ++i) if (leaf[i]) ls.push_back(i); s.loss_of = c.pick(ls); s.batch = c.small(1, 4); s.tol = c.pick(Vec{0.1, 0.0, 0.5, 5}); if (s.loss == 1 && s.l[s.loss_of].kind != SOFT) s.loss = 0; }
    return s;
}
inline void note_structure(pbt::Case& c, const Structure& s) { std::ostringstream d; for (size_t i = 0; i < s.l.size(); ++i) d << (i ? " " : "") << (s.parent[i] == int(i) - 1 ? "" : "[from " + std::to_string(s.parent[i]) + "]") << show_spec(s.l[i]); if (s.loss >= 0) d << (s.loss ? " cce" : " mse") << " of " << s.loss_of << " batch " << s.batch << " tolerance " << s.tol; c.note(d.str()); }
struct Built { std::vector<std::shared_ptr<Layer>> l; std::shared_ptr<LossLayer> loss; };
inline Built build(Model& m, const Structure& s) {
    Built b; for (const auto& x : s.l) b.l.push_back(add_spec(m, x));
    if (s.loss == 0) b.loss = m.add_loss<MeanSquaredLossLayer>("loss", s.l[s.loss_of].osz, s.batch, s.tol); else if (s.loss == 1) b.loss = m.add_loss<CategoricalCrossEntropyLossLayer>("loss", s.l[s.loss_of].osz, s.batch);
    for (size_t i = 0; i < s.l.size(); ++i) if (s.parent[i] >= 0) m.create_edge(b.l[size_t(s.parent[i])], b.l[i]);
    if (b.loss) m.create_loss_edge(b.l[s.loss_of], b.loss);
    return b;
}
inline bool same_double(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool same_vec(const Vec& a, const Vec& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same_double(a[i], b[i])) return false; return true; }
#define CHECK_SAME(c, a, b, ...) do { const Vec _x = (a), _y = (b); if (!same_vec(_x, _y)) { std::ostringstream _s; _s << #a " == " #b ": got " << pbt::show(_x) << ", expected " << pbt::show(_y); pbt_msg(_s, ##__VA_ARGS__); (c).fail(_s.str()); } } while (0)
inline std::vector<Vec> model_params(const Model& m) { std::vector<Vec> v; for (const auto& l : m.layers()) v.push_back(params(*l)); return v; }
inline std::vector<Vec> model_grads(const Model& m) { std::vector<Vec> v; for (const auto& l : m.layers()) v.push_back(grads(*l)); return v; }
inline void set_model_params(pbt::Case& c, Model& m, double mag = 1) { for (const auto& l : m.layers()) set_params(c, *l, mag); }
inline void reset_states(Model& m) { for (const auto& l : m.layers()) if (auto r = std::dynamic_pointer_cast<RecurrentLayer>(l)) r->reset_hidden_state(); }
inline Vec gen_target(pbt::Case& c, const Structure& s) { size_t n = s.l[s.loss_of].osz; if (s.loss == 1) { Vec t(n, 0.0); t[c.below(n)] = 1; return t; } return c.nums(n, 2); }
#endif

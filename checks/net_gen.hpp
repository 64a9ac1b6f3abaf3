// Generated network descriptions, the layers they stand for, labelled data, and a reference trainer.
#ifndef VERIF_NET_GEN_HPP
#define VERIF_NET_GEN_HPP
#include "model_gen.hpp"
#include "middleware/fnn.hpp"
#include "data/dataset.hpp"
#include "dnn/gd_optimizer.hpp"
#include "dnn/adam_optimizer.hpp"
#include <iostream>
/// Silences the "step" lines of training.
struct Quiet { std::streambuf* b; Quiet() : b(std::cout.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(b); std::cout.clear(); } };
struct Net { NeuralNetworkDescriptor d; Structure s; };      // s: the layers as a chain (each description and its activation)
struct NetOpt { bool drop = true; size_t max_layers = 4; bool softmax_end = false; bool images = true; bool nonlinear = true; };
inline Net gen_net(pbt::Case& c, const NetOpt& o) {
    Net n; n.s.in = o.images ? gen_any_shape(c) : DLMath::Shape3d(c.small(1, 5)); bool vec = n.s.in.width() == 1 && n.s.in.channels() == 1;
    n.d.push_back(Input("in", vec && c.flip() ? LayerShape(n.s.in.size()) : LayerShape(n.s.in))); DLMath::Shape3d sh = n.s.in; size_t k = c.small(1, o.max_layers);
    for (size_t i = 0; i < k; ++i) {
        int kind = int(c.weighted({6, 3, 0, 1, 1})); if (o.drop && c.chance(1, 7)) kind = DROP; Spec a = gen_spec(c, kind, sh, "l" + std::to_string(i));
        bool last = i + 1 == k; ActivationType at = ActivationType::Linear; int ak = LINEAR; switch (o.softmax_end && last ? 4 : c.weighted({2, 2, 2, 2, 1, 2, 1})) { case 0: at = ActivationType::ReLU; ak = RELU; break; case 1: at = ActivationType::ELU; ak = ELU; break; case 2: at = ActivationType::TanH; ak = TANH; break; case 3: at = ActivationType::Sigmoid; ak = SIGM; break; case 4: at = ActivationType::Softmax; ak = SOFT; break; case 5: break; default: at = ActivationType::None; break; }
        Spec b; b.kind = ak; b.in = a.outs; b.outs = a.outs; b.isz = b.osz = a.osz; b.name = a.name;
        switch (kind) {
            case DENSE: n.d.push_back(Dense(a.name, a.osz, at)); break;
            case CONV: n.d.push_back(Conv(a.name, Conv::ConvSetting(a.f, DLMath::Shape2d(a.kh, a.kw), DLMath::Shape2d(a.sh, a.sw), DLMath::Shape2d(a.ph, a.pw)), at)); break;
            case MAXP: n.d.push_back(MaxPool(a.name, MaxPool::MaxPoolSetting(DLMath::Shape2d(a.kh, a.kw), DLMath::Shape2d(a.sh, a.sw)), at)); break;
            case AVGP: n.d.push_back(AvgPool(a.name, AvgPool::AvgPoolSetting(DLMath::Shape2d(a.kh, a.kw), DLMath::Shape2d(a.sh, a.sw)), at)); break;
            default: a.outs = DLMath::Shape3d(a.isz); b.in = b.outs = a.outs; n.d.push_back(Dropout(a.name, Dropout::DropoutSetting(a.p), at)); break;
        }
        n.s.parent.push_back(int(n.s.l.size()) - 1); n.s.l.push_back(a); n.s.parent.push_back(int(n.s.l.size()) - 1); n.s.l.push_back(b); sh = b.outs;
    }
    n.s.loss_of = n.s.l.size() - 1; return n;
}
inline size_t net_in(const Net& n) { return n.s.in.size(); }
inline size_t net_out(const Net& n) { return n.s.l.back().osz; }
/// Rows of inputs then labels; the labels are the last columns, or the first ones when `front`.
struct Data { std::vector<Vec> x, y; bool front = false; bool unlabelled = false;
    Dataset<double> set() const { std::vector<Vec> r; std::set<SizeType> l; for (size_t i = 0; i < x.size(); ++i) { Vec v; const Vec &a = front ? y[i] : x[i], &b = front ? x[i] : y[i]; v = a; v.insert(v.end(), b.begin(), b.end()); r.push_back(v); } if (!x.empty()) for (size_t k = 0; k < y[0].size(); ++k) l.insert(front ? k : x[0].size() + k); return Dataset<double>(r, 1, l); }
    Dataset<double> inputs() const { return Dataset<double>(x, 1, std::set<SizeType>()); } };
inline Data gen_labelled(pbt::Case& c, size_t in, size_t out, size_t lo, size_t hi, bool one_hot, double mag = 1) { Data d; d.front = c.chance(1, 4); size_t n = c.small(lo, hi); for (size_t i = 0; i < n; ++i) { d.x.push_back(c.nums(in, mag)); Vec y = c.nums(out, mag); if (one_hot) { y.assign(out, 0.0); y[c.below(out)] = 1; } d.y.push_back(y); } return d; }
inline std::shared_ptr<Optimizer> make_optimizer(bool adam, double lr) { if (adam) return std::make_shared<AdamOptimizer>(lr); return std::make_shared<GradientDescentOptimizer>(lr); }
/// The reference: every update uses the summed gradients of its entries at the parameters its group started with; updates of a group are applied in order.
inline void reference_train(Model& ref, const Structure& s, const Data& d, Optimizer& o, size_t epochs, size_t chunk, size_t chunks_per_group) {
    for (size_t e = 0; e < epochs; ++e) for (size_t i = 0; i < d.x.size();) {
        auto start = model_params(ref); std::vector<std::vector<Vec>> gs;
        for (size_t t = 0; t < chunks_per_group && i < d.x.size(); ++t) {
            Model k("k"); build(k, s); for (size_t l = 0; l < start.size(); ++l) for (size_t q = 0; q < start[l].size(); ++q) k.layers()[l]->param(q) = start[l][q];
            for (size_t b = 0; b < chunk && i < d.x.size(); ++b, ++i) k.step(d.x[i], d.y[i]); gs.push_back(model_grads(k));
        }
        for (auto& g : gs) { for (size_t l = 0; l < g.size(); ++l) for (size_t q = 0; q < g[l].size(); ++q) ref.layers()[l]->gradient(q) = g[l][q]; ref.train(o); }
    }
}
#endif

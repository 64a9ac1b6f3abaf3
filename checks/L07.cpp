// L07: the recurrent layer against a reference recurrence and back-propagation through time.
#include "dnn_gen.hpp"
const char* const PBT_RULE = "Histories over one recurrent layer (and copies of it): predictions, training passes with backward, state set or reset, sequence length changed, parameters changed, against a reference recurrence that carries its state and an independent back-propagation through time. "
    "Non-trivial: a backward pass over at least two time steps, or state carried from an earlier pass.";
struct Ref {
    size_t I, H, O, T; Vec wih, whh, bh, who, bo, state; std::vector<Vec> hs; Vec x;
    Vec forward(const Vec& in) {
        x = in; hs.assign(1, state); Vec y;
        for (size_t t = 0; t < T; ++t) { Vec h(H); for (size_t i = 0; i < H; ++i) { double s = bh[i]; for (size_t j = 0; j < I; ++j) s += wih[i * I + j] * x[t * I + j]; for (size_t j = 0; j < H; ++j) s += whh[i * H + j] * hs[t][j]; h[i] = std::tanh(s); }
            hs.push_back(h); for (size_t i = 0; i < O; ++i) { double s = bo[i]; for (size_t j = 0; j < H; ++j) s += who[i * H + j] * h[j]; y.push_back(s); } }
        state = hs.back(); return y;
    }
    Vec backward(const Vec& g, Vec& pg) {       // adds the parameter gradients in the layer's parameter order
        Vec dx(T * I, 0.0), next(H, 0.0); size_t a = 0, b = a + H * I, e = b + H * H, f = e + H, k = f + O * H;
        for (size_t t = T; t-- > 0;) {
            Vec dh = next; for (size_t i = 0; i < O; ++i) { pg[k + i] += g[t * O + i]; for (size_t j = 0; j < H; ++j) { pg[f + i * H + j] += g[t * O + i] * hs[t + 1][j]; dh[j] += who[i * H + j] * g[t * O + i]; } }
            Vec dz(H); for (size_t j = 0; j < H; ++j) dz[j] = dh[j] * (1 - hs[t + 1][j] * hs[t + 1][j]); next.assign(H, 0.0);
            for (size_t i = 0; i < H; ++i) { pg[e + i] += dz[i]; for (size_t j = 0; j < I; ++j) { pg[a + i * I + j] += dz[i] * x[t * I + j]; dx[t * I + j] += wih[i * I + j] * dz[i]; } for (size_t j = 0; j < H; ++j) { pg[b + i * H + j] += dz[i] * hs[t][j]; next[j] += whh[i * H + j] * dz[i]; } }
        }
        return dx;
    }
};
void property(pbt::Case& c) {
    Ref r; r.I = c.small(1, 5); r.H = c.small(1, 6); r.O = c.small(1, 4); r.T = c.small(1, 8); double mag = c.pick(Vec{0.5, 1.0, 3.0}), damp = 1; size_t maxT = 8;
    if (c.chance(1, 12)) { maxT = 60; r.T = c.usize(1, maxT); mag = 0.5; damp = c.uniform(0.5, 2); c.label("long_sequence"); }      // long chains with bounded sensitivity: rounding must not grow
    if (c.chance(1, 20)) { r.I = c.usize(1, 25); r.H = c.usize(1, 25); r.O = c.usize(1, 25); mag = 0.5; damp /= std::sqrt(double(r.H)); c.label("wide"); } else if (c.chance(1, 60)) { (c.below(3) == 0 ? r.I : c.flip() ? r.H : r.O) = c.usize(25, 90); if (r.T > 3) r.T = c.small(1, 3); maxT = 3; mag = 0.5; damp /= std::sqrt(double(r.H)); c.label("very_wide"); }
    auto layer = std::make_shared<RecurrentLayer>("r", r.I, r.O, r.H, r.T); std::shared_ptr<RecurrentLayer> l = layer; r.state.assign(r.H, 0.0);
    c.note("recurrent ", r.I, "->", r.O, " hidden ", r.H, " steps ", r.T);
    auto draw = [&] { r.wih.resize(r.H * r.I); r.whh.resize(r.H * r.H); r.bh.resize(r.H); r.who.resize(r.O * r.H); r.bo.resize(r.O); size_t k = 0; for (Vec* v : {&r.wih, &r.whh, &r.bh, &r.who, &r.bo}) for (auto& e : *v) { e = c.num(mag) * 0.4 * mag * damp; l->param(k++) = e; } CHECK_EQ(c, k, size_t(l->param_count())); };
    draw(); Vec pg(l->param_count(), 0.0); bool carried = false; std::vector<std::shared_ptr<Layer>> old;
    c.repeat(1, c.chance(1, 10) ? 50 : 12, [&] {
        switch (c.weighted({6, 3, 2, 1, 2, 1, 1})) {
            case 0: { Vec x = c.nums(r.T * r.I), g = c.nums(r.T * r.O), x0 = x, g0 = g; c.note("train x ", pbt::show(x), " g ", pbt::show(g)); Vec y = l->training_forward(x); CHECK_NEAR(c, y, r.forward(x), "training output"); Vec d = l->backward(g); CHECK_NEAR(c, d, r.backward(g, pg), "input gradient"); CHECK_NEAR(c, grads(*l), pg, "parameter gradients"); CHECK_EQ(c, x, x0); CHECK_EQ(c, g, g0); CHECK_NEAR(c, l->last_output(), y); c.nontrivial(r.T >= 2 || carried); c.label("trained"); c.label_if(r.T == 1, "one_step"); c.label_if(carried, "state_carried"); carried = true; break; }
            case 1: { Vec x = c.nums(r.T * r.I); c.note("predict ", pbt::show(x)); Vec y = l->forward(x); CHECK_NEAR(c, y, r.forward(x), "prediction"); CHECK_NEAR(c, l->last_output(), y); CHECK_NEAR(c, grads(*l), pg, "a prediction changed the gradients"); c.nontrivial(carried); c.label_if(carried, "predicted_on_state"); carried = true; break; }
            case 2: { size_t n = c.flip() ? r.H : c.below(r.H + 1); Vec h(n); for (auto& e : h) e = c.uniform(-1.5, 1.5); c.note("set state ", pbt::show(h)); l->hidden_state(h); std::copy(h.begin(), h.end(), r.state.begin()); c.label("state_set"); bool threw = false; try { l->hidden_state(Vec(r.H + 1 + c.below(3), 0.5)); } catch (const std::exception&) { threw = true; } CHECK(c, threw, "a state longer than the hidden size was accepted"); break; }
            case 3: c.note("reset state"); l->reset_hidden_state(); r.state.assign(r.H, 0.0); c.label("state_reset"); break;
            case 4: { r.T = c.small(1, maxT); c.note("time steps ", r.T); l->time_steps(r.T); CHECK_EQ(c, size_t(l->time_steps()), r.T); c.label("steps_changed"); break; }
            case 5: c.note("new parameters"); draw(); c.label("parameters_changed"); break;
            default: { c.note("clone"); auto k = l->clone(); old.push_back(l); l = std::dynamic_pointer_cast<RecurrentLayer>(k); CHECK(c, l != nullptr); c.label("cloned"); break; }
        }
    });
}

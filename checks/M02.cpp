// M02: model copies.
#include "model_gen.hpp"
#include "dnn/gd_optimizer.hpp"
#include <deque>
const char* const PBT_RULE = "Histories over a growing set of models of one or two structures: copies of copies, assignments, swaps, training steps, predictions, updates (also from another copy's gradients), initialisations, direct parameter writes, destructions; "
    "each model is shadowed by an independently built model that gets only its own operations. Non-trivial: a model was used after another one of its family was stepped, updated or destroyed.";
struct Entry { std::shared_ptr<Model> m, shadow; size_t family; bool ran = false; bool disturbed = false; };
template <class L> static std::vector<std::string> names(const L& ls) { std::vector<std::string> r; for (auto& l : ls) r.push_back(l->name()); return r; }
void property(pbt::Case& c) {
    size_t nf = c.small(1, 2); std::vector<Structure> st; for (size_t i = 0; i < nf; ++i) { GenOpt o; o.max_layers = 4; o.tree = c.chance(1, 4); o.loss = !c.chance(1, 5); c.label_if(!o.loss, "no_loss"); Structure s = gen_structure(c, o); for (auto& l : s.l) { if (l.kind == DROP) l.p = c.flip() ? 0.0 : 1.0; c.label(kind_name(l.kind)); } note_structure(c, s); st.push_back(s); }
    std::deque<Vec> keep; std::vector<Entry> e;
    auto fresh = [&](size_t f) { auto m = std::make_shared<Model>("m" + std::to_string(f)); build(*m, st[f]); return m; };
    auto put = [&](Model& to, const std::vector<Vec>& p) { for (size_t i = 0; i < p.size(); ++i) for (size_t k = 0; k < p[i].size(); ++k) to.layers()[i]->param(k) = p[i][k]; };
    auto spread = [&](size_t i) { auto p = model_params(*e[i].shadow); for (auto& x : e) if (x.family == e[i].family && x.shadow != e[i].shadow) put(*x.shadow, p); };
    auto clear = [&](Model& m) { for (auto& l : m.layers()) for (size_t k = 0; k < l->param_count(); ++k) l->gradient(k) = 0; m.reset_score(); reset_states(m); };
    // A copy may inherit gradients, scores and states or not; both are cleared before the comparison with a new shadow.
    auto normalise = [&](Entry& x, const std::vector<Vec>& p) { clear(*x.m); x.shadow = fresh(x.family); put(*x.shadow, p); x.ran = false; };
    auto verify = [&](const std::string& after) {
        for (size_t i = 0; i < e.size(); ++i) {
            auto& a = *e[i].m; auto& b = *e[i].shadow; CHECK_EQ(c, a.layers().size(), b.layers().size()); CHECK_EQ(c, names(a.loss_layers()), names(b.loss_layers()), "loss layers of model", i, "after", after); CHECK_EQ(c, names(a.input_layers()), names(b.input_layers()), "input layers of model", i, "after", after); CHECK_EQ(c, names(a.output_layers()), names(b.output_layers()), "output layers of model", i, "after", after); auto pa = model_params(a), pb = model_params(b), ga = model_grads(a), gb = model_grads(b);
            for (size_t k = 0; k < pa.size(); ++k) { CHECK_SAME(c, pa[k], pb[k], "parameters of layer", k, "of model", i, "after", after); CHECK_SAME(c, ga[k], gb[k], "gradients of layer", k, "of model", i, "after", after);
                if (e[i].ran && !std::dynamic_pointer_cast<LossLayer>(a.layers()[k])) CHECK_SAME(c, a.layers()[k]->last_output(), b.layers()[k]->last_output(), "activations of layer", k, "of model", i, "after", after); }
            CHECK(c, same_double(a.accuracy(), b.accuracy()) && same_double(a.avg_loss(), b.avg_loss()), "scores of model", i, "after", after, a.avg_loss(), b.avg_loss());
        }
    };
    for (size_t f = 0; f < nf; ++f) { Entry x; x.family = f; x.m = fresh(f); x.shadow = fresh(f); set_model_params(c, *x.m, 1); put(*x.shadow, model_params(*x.m)); e.push_back(x); }
    auto disturb = [&](size_t i) { for (size_t k = 0; k < e.size(); ++k) if (k != i && e[k].family == e[i].family) e[k].disturbed = true; };
    auto input = [&](size_t i) -> const Vec& { keep.push_back(c.nums(st[e[i].family].in.size())); return keep.back(); };
    c.repeat(2, c.tier ? 40 : 20, [&] {
        size_t i = c.below(e.size()), f = e[i].family; std::string op;
        switch (c.weighted({5, 6, 6, 4, 2, 1, 1, 1, 1, 1})) {
            case 0: { op = "copy " + std::to_string(i); c.note(op); if (e.size() >= 6) return; Entry x; x.family = f; auto g0 = model_grads(*e[i].m); x.m = std::make_shared<Model>(*e[i].m); CHECK_EQ(c, x.m->name(), e[i].m->name()); e.push_back(x);
                const Vec& in = input(i); bool first = c.flip(); Vec y; if (first) y = e.back().m->predict(in); Vec ya = e[i].m->predict(in), ys = e[i].shadow->predict(in); e[i].ran = true; if (!first) y = e.back().m->predict(in); CHECK_SAME(c, ya, ys, "model", i, "after a copy"); CHECK_SAME(c, y, ys, "the copy predicts alike");
                normalise(e.back(), model_params(*e[i].shadow)); c.label("copied"); break; }
            case 1: { op = "predict " + std::to_string(i); const Vec& in = input(i); c.note(op, " ", pbt::show(in)); if (c.chance(1, 3)) { reset_states(*e[i].m); reset_states(*e[i].shadow); } Vec a = e[i].m->predict(in), b = e[i].shadow->predict(in); e[i].ran = true; CHECK_SAME(c, a, b, "prediction of model", i); if (e[i].disturbed) c.nontrivial(); break; }
            case 2: { if (st[f].loss < 0) return; op = "step " + std::to_string(i); const Vec& in = input(i); keep.push_back(gen_target(c, st[f])); c.note(op, " ", pbt::show(in), " ", pbt::show(keep.back())); e[i].m->step(in, keep.back()); e[i].shadow->step(in, keep.back()); e[i].ran = true; if (e[i].disturbed) c.nontrivial(); disturb(i); c.label("stepped"); break; }
            case 3: { double lr = c.uniform(0, 0.3); size_t j = i; if (c.flip()) { std::vector<size_t> v; for (size_t k = 0; k < e.size(); ++k) if (e[k].family == f) v.push_back(k); j = c.pick(v); }
                op = "update " + std::to_string(i) + " from " + std::to_string(j); c.note(op, " rate ", lr); GradientDescentOptimizer o1(lr), o2(lr); if (i == j && c.flip()) e[i].m->train(o1); else e[i].m->train(o1, *e[j].m); e[j].shadow->train(o2); spread(j); disturb(i); c.label("updated"); c.label_if(i != j, "updated_from_copy"); break; }
            case 4: { auto& ls = e[i].m->layers(); size_t k = c.below(ls.size()); op = "write a parameter of " + std::to_string(i); c.note(op); if (!ls[k]->param_count()) return; size_t q = c.below(ls[k]->param_count()); double v = c.num(1); ls[k]->param(q) = v; e[i].shadow->layers()[k]->param(q) = v; spread(i); disturb(i); c.label("written"); break; }
            case 5: { op = "initialise " + std::to_string(i); c.note(op); size_t seed = c.below(1000) + 1; e[i].m->init(Model::InitializationFunction::XAVIER, Model::ProbabilityDensityFunction::UNIFORM, seed); e[i].shadow->init(Model::InitializationFunction::XAVIER, Model::ProbabilityDensityFunction::UNIFORM, seed); spread(i); disturb(i); c.label("initialised"); break; }
            case 6: { size_t n = 0; for (auto& x : e) n += x.family == f; if (n < 2) return; op = "destroy " + std::to_string(i); c.note(op); disturb(i); e.erase(e.begin() + long(i)); c.label("destroyed"); break; }
            case 7: { size_t j = c.below(e.size()); size_t n = 0; for (auto& x : e) n += x.family == f; if (n < 2 && e[j].family != f) return; op = "assign " + std::to_string(j) + " to " + std::to_string(i); c.note(op); *e[i].m = *e[j].m; c.label("assigned"); c.label_if(e[i].family != e[j].family, "assigned_other"); e[i].family = e[j].family; normalise(e[i], model_params(*e[j].shadow)); break; }
            case 8: { size_t j = c.below(e.size()); op = "swap " + std::to_string(i) + " and " + std::to_string(j); c.note(op); swap(*e[i].m, *e[j].m); std::swap(e[i].family, e[j].family); auto pi = model_params(*e[i].shadow), pj = model_params(*e[j].shadow); if (i != j) { normalise(e[i], pj); normalise(e[j], pi); c.label("swapped"); } else normalise(e[i], pi); break; }
            default: { op = "reset scores of " + std::to_string(i); c.note(op); e[i].m->reset_score(); e[i].shadow->reset_score(); break; }
        }
        verify(op);
    });
}

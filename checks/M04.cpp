// M04: sequential and threaded training against the reference updates.
#include "net_gen.hpp"
#include "betterthreads/task_manager.hpp"
const char* const PBT_RULE = "Generated networks without dropout, labelled data, batch sizes, worker counts, optimisers and epochs, trained sequentially or with per-entry or per-batch tasks whose order and moments are generated, or which are real threads under the race detector, "
    "against updates computed one by one on independently built models. Non-trivial: a group of at least two tasks (or a batch of two entries when sequential) with parameters that changed.";
using BetterThreads::StubState; using BetterThreads::StubMode;
template <class N> static std::vector<Vec> probe(N& net, const Data& p) { Data q = p; auto in = q.inputs(); auto r = net.predict(in); std::vector<Vec> v; for (size_t i = 0; i < r.size(); ++i) v.push_back(r.entry(i)); return v; }
template <ParallelizationLevel PL, LossType LT> static void through_net(pbt::Case& c, const Net& n, const Data& d, const Data& p, bool adam, size_t epochs, size_t batch, double lr, size_t seed, size_t chunk, size_t group, bool again) {
    EdgeFeedforwardNeuralNetwork<LT, InitType::AUTO, PL, double> net("net"); for (auto& x : n.d) net.add(x); auto set = d.set();
    Structure s = n.s; s.loss = LT == LossType::CCE; s.batch = batch; { Quiet q; if (again) net.fit(set, OptimizerType::ADAM, 1, batch + 1, 0.1, seed + 1); net.fit(set, adam ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT, epochs, batch, lr, seed); }
    Model ref("ref"); build(ref, s); ref.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, seed); auto o = make_optimizer(adam, lr); reference_train(ref, s, d, *o, epochs, chunk, group);
    auto got = probe(net, p); CHECK_EQ(c, got.size(), p.x.size()); for (size_t i = 0; i < got.size(); ++i) CHECK_NEAR(c, got[i], Vec(ref.predict(p.x[i])), "prediction after training");
}
template <ParallelizationLevel PL> static void through_model(pbt::Case& c, const Net& n, const Data& d, bool cce, bool adam, size_t epochs, size_t batch, double lr, size_t chunk, size_t group) {
    Structure s = n.s; s.loss = cce; s.batch = c.small(1, 4); Model m("m"), ref("ref"); build(m, s); build(ref, s); set_model_params(c, m, 1); for (size_t l = 0; l < m.layers().size(); ++l) for (size_t q = 0; q < m.layers()[l]->param_count(); ++q) ref.layers()[l]->param(q) = m.layers()[l]->param(q);
    auto p0 = model_params(m); auto o1 = make_optimizer(adam, lr), o2 = make_optimizer(adam, lr); auto set = d.set(); { Quiet q; Training<PL, double>::run(m, set, *o1, epochs, batch); } reference_train(ref, s, d, *o2, epochs, chunk, group);
    auto a = model_params(m), b = model_params(ref); for (size_t l = 0; l < a.size(); ++l) CHECK_NEAR(c, a[l], b[l], "parameters of layer", l); for (auto& g : model_grads(m)) for (double x : g) CHECK(c, x == 0, "gradients are left after training"); if (a != p0 && group * chunk > 1 && d.x.size() > 1) c.nontrivial();
    Dataset<double> before = d.set(); CHECK(c, set.data() == before.data(), "training changed the data");
}
void property(pbt::Case& c) {
    auto& st = StubState::get(); st = StubState(); struct Reset { ~Reset() { StubState::get() = StubState(); } } reset;
    NetOpt o; o.drop = false; o.max_layers = 3; o.softmax_end = c.chance(1, 3); bool cce = o.softmax_end; Net n = gen_net(c, o); n.s.loss = cce; bool many = c.chance(1, 10), longRun = !many && c.chance(1, 60); if (longRun) c.label("tens_of_epochs"); Data d = gen_labelled(c, net_in(n), net_out(n), many ? 20 : 1, many ? 100 : 9, cce); c.label_if(d.x.size() > 30, "many_entries");
    size_t batch = many && c.flip() ? 1 + c.below(110) : c.small(1, 5), epochs = longRun ? c.usize(20, 70) : c.small(1, c.chance(1, 8) ? 6 : 2), workers = c.chance(1, 8) ? c.small(1, 24) : c.small(1, 4); c.label_if(batch > 16, "large_batch"); c.label_if(workers > 8, "many_workers"); c.label_if(epochs > 3, "many_epochs"); bool adam = c.flip(); double lr = c.uniform(0.001, 0.2); int pl = int(c.below(3)); size_t mode = c.weighted({4, 2, 1}); bool viaNet = c.chance(1, 3);
    for (auto& l : n.s.l) c.label(kind_name(l.kind)); st.concurrency = workers; if (mode == 0) { st.mode = StubMode::Chosen; st.choose = [&](size_t k) { return c.below(k); }; } else if (mode == 1) st.mode = StubMode::Threads;
    note_structure(c, n.s); std::ostringstream ds; for (size_t i = 0; i < d.x.size(); ++i) ds << pbt::show(d.x[i]) << "->" << pbt::show(d.y[i]) << " "; static const char* pls[] = {"sequential", "per_entry", "per_batch"}; static const char* ms[] = {"chosen", "threads", "eager"};
    c.note(pls[pl], " ", ms[mode], " batch ", batch, " epochs ", epochs, " workers ", workers, adam ? " adam " : " gd ", lr, viaNet ? " through the network" : "", " data ", ds.str()); c.label(pls[pl]); if (pl) c.label(ms[mode]); c.label(cce ? "cce" : "mse"); c.label(adam ? "adam" : "gd"); c.label_if(d.x.size() % batch != 0, "partial_batch"); c.label_if(pl == 2 && d.x.size() % (batch * workers) != 0, "partial_group"); c.label_if(epochs > 1, "epochs");
    size_t chunk = pl == 1 ? 1 : batch, group = pl == 0 ? 1 : pl == 1 ? batch : workers;
    if (viaNet) {
        Data p = gen_labelled(c, net_in(n), net_out(n), 1, 2, false); size_t seed = c.below(1000) + 1; bool again = c.chance(1, 4); c.label("network"); c.label_if(again, "fitted_before"); c.nontrivial(group * chunk > 1 && d.x.size() > 1);
        constexpr auto S = ParallelizationLevel::SEQUENTIAL, E = ParallelizationLevel::THREAD_PARALLELISM_ON_DATA_ENTRY, B = ParallelizationLevel::THREAD_PARALLELISM_ON_DATA_BATCH; constexpr auto C = LossType::CCE, M = LossType::MSE;
        if (cce) { if (pl == 0) through_net<S, C>(c, n, d, p, adam, epochs, batch, lr, seed, chunk, group, again); else if (pl == 1) through_net<E, C>(c, n, d, p, adam, epochs, batch, lr, seed, chunk, group, again); else through_net<B, C>(c, n, d, p, adam, epochs, batch, lr, seed, chunk, group, again); }
        else { if (pl == 0) through_net<S, M>(c, n, d, p, adam, epochs, batch, lr, seed, chunk, group, again); else if (pl == 1) through_net<E, M>(c, n, d, p, adam, epochs, batch, lr, seed, chunk, group, again); else through_net<B, M>(c, n, d, p, adam, epochs, batch, lr, seed, chunk, group, again); }
    } else {
        if (pl == 0) through_model<ParallelizationLevel::SEQUENTIAL>(c, n, d, cce, adam, epochs, batch, lr, chunk, group); else if (pl == 1) through_model<ParallelizationLevel::THREAD_PARALLELISM_ON_DATA_ENTRY>(c, n, d, cce, adam, epochs, batch, lr, chunk, group); else through_model<ParallelizationLevel::THREAD_PARALLELISM_ON_DATA_BATCH>(c, n, d, cce, adam, epochs, batch, lr, chunk, group);
    }
    c.label_if(st.out_of_order > 0, "out_of_order"); CHECK(c, st.pending.empty(), "training returned before its tasks had run");
}

// K01: separate objects can be used from several threads at the same time.
#include "net_gen.hpp"
#include "json_gen.hpp"
#include "csv_gen.hpp"
#include "idx_gen.hpp"
#include "data/dataset.hpp"
#include <atomic>
#include <thread>
const char* const PBT_RULE = "2-4 threads, each with a list of generated jobs on objects of its own (documents, table files, digit files, data sets, generators of random numbers, models, networks) or on copies, made by the thread, of common objects: "
    "results equal to those of the same jobs run alone afterwards, names given to unnamed objects all different, and no conflicting accesses according to the race detector. Non-trivial: at least two threads with two jobs each.";
struct Null : std::streambuf { int overflow(int ch) override { return ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
struct Job { std::string what; std::function<std::string()> run; };
static std::string hex(const Vec& v) { std::string s; char b[40]; for (double x : v) { std::snprintf(b, sizeof b, "%a ", x); s += b; } return s + "\n"; }
static std::string hex(const std::vector<Vec>& v) { std::string s; for (auto& x : v) s += hex(x); return s; }
struct Common { Json doc; Dataset<double> set; std::shared_ptr<Model> model; Structure s; std::shared_ptr<CSV> csv; size_t rows = 0; };
using Names = std::vector<std::string>;

static Job gen_job(pbt::Case& c, const std::shared_ptr<Common>& all, const std::shared_ptr<Names>& names, const std::string& id) {
    uint64_t seed = 1 + c.below(1000);
    switch (c.weighted({3, 3, 3, 3, 3, 3, 2, 2, 3, 1})) {
        case 0: { Json j; DocOpt o; o.width = 3; Node n = gen_doc(c, j, c.small(0, 3), o); std::string text = n.render(); bool quoted = n.k != Node::Leaf || n.quoted; if (!quoted) text += ',';
            return {"json", [text] { std::stringstream s(text); Json a; s >> a; Json b(a); std::string r = print(a); JsonList l; l.append(a); l.append(b); b = Json(l); return r + print(b) + (a == b ? "=" : "!") + print(a); }}; }
        case 1: { Json extra; DocOpt o; gen_doc(c, extra, 1, o);   // a copy of the common document, changed
            std::string e = print(extra); return {"json_copy", [all, e] { Json a(all->doc); Json b; b = all->doc; JsonList l; l.append(a); l.append(Json(e.size())); std::string r = print(a) + (a == b ? "=" : "!") + (a == all->doc ? "=" : "!"); a = Json(l); return r + print(a) + print(b) + print(all->doc); }}; }
        case 2: { CsvFile f = gen_csv(c); std::string p = f.path + id; std::rename(f.path.c_str(), p.c_str()); char sep = f.sep; size_t n = f.lines.size();
            return {"csv", [=] { CSV t(p, {TypeChecker::Type::AUTO}, sep); std::string r; for (size_t k = 0; k < 4; ++k) r += t[(seed + 7 * k) % n].line() + "\n"; for (auto& row : t) r += row.line() + "\n"; for (auto& v : t.to_mat<double>()) r += hex(v); return r; }}; }
        case 3: return {"csv_copy", [=] { CSV t(*all->csv); std::string r; for (size_t k = 0; k < 4; ++k) r += t[(seed + 3 * k) % all->rows].line() + "\n"; for (auto& v : t.to_mat<std::string>()) for (auto& x : v) r += x + "|"; return r; }};
        case 4: { Data d = gen_labelled(c, c.small(1, 4), c.small(1, 3), 1, 12, c.flip());
            return {"data", [=] { auto s = d.set(); std::string r = hex(s.data()); s.shuffle(RneType(static_cast<RneType::result_type>(seed))); r += hex(s.data()); auto k = s.split(0.5); r += hex(k.training_set.data()) + hex(k.testing_set.data()) + hex(s.inputs().data()) + hex(s.labels().data()); s.min_max_normalization(); return r + hex(s.data()); }}; }
        case 5: return {"data_reads", [=] { const Dataset<double>& s = all->set; std::string r; for (size_t i = 0; i < s.size(); ++i) r += hex(s.entry(i)) + hex(s.input(i)) + hex(s.label(i)); r += hex(s.subdata(0, s.size()).data()) + hex(s.inputs().data()) + hex(s.labels().data()); Dataset<double> t(s); t.shuffle(RneType(static_cast<RneType::result_type>(seed + 1))); return r + hex(t.data()); }};
        case 6: { Net n = gen_net(c, NetOpt{}); Data d = gen_labelled(c, net_in(n), net_out(n), 1, 4, false); bool adam = c.flip(); size_t batch = c.small(1, 3);
            return {"network", [=]() -> std::string { EdgeFeedforwardNeuralNetwork<LossType::MSE, InitType::AUTO, ParallelizationLevel::SEQUENTIAL, double> net("n" + id); for (LayerDescriptor x : n.d) net.add(x); auto s = d.set(); net.fit(s, adam ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT, 2, batch, 0.01, seed); auto in = d.inputs(); auto e = net.evaluate(s, LossType::MSE); return hex(net.predict(in).data()) + hex(Vec{e.loss, e.accuracy, e.error_rate}); }}; }
        case 7: { MnistFiles f; size_t n = c.small(1, 3); for (size_t i = 0; i < n; ++i) { f.images.push_back(gen_pixels(c, 784)); f.labels.push_back(uint8_t(c.below(10))); } f.icount = f.lcount = uint32_t(n); std::string p = pbt::scratch() + "/m" + id; std::ofstream(p + "i", std::ios::binary) << f.ibytes(); std::ofstream(p + "l", std::ios::binary) << be32(0x801) + be32(uint32_t(n)) + std::string(f.labels.begin(), f.labels.end());
            return {"mnist", [=] { Mnist m(p + "i", p + "l"); std::string r; for (size_t i = n; i-- > 0;) r += hex(m.entry(i)); return r + hex(m.data_to_encoding(DatasetParser::LabelEncoding::ONE_HOT_ENCODING)); }}; }
        case 8: { GenOpt o; o.max_layers = 4; Structure s = gen_structure(c, o); for (auto& l : s.l) l.name = ""; Vec x = c.nums(s.in.size(), 1), y = gen_target(c, s);      // unnamed model and layers
            return {"model", [=] { Model m, k; build(m, s); build(k, s); m.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, SizeType(seed)); k.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::UNIFORM, SizeType(seed + 1));
                for (Model* q : {&m, &k}) { names->push_back(q->name()); for (auto& l : q->layers()) if (l->name() != "loss") names->push_back(l->name()); }
                std::string r; GradientDescentOptimizer gd(0.01); for (int i = 0; i < 2; ++i) { m.step(x, y); r += hex(model_grads(m)); m.train(gd); } r += hex(model_params(m)); reset_states(m); r += hex(m.predict(x));
                std::string p = pbt::scratch() + "/k" + id; { std::ofstream f(p); m.dump(f); } { std::ifstream f(p); k.load(f); } std::remove(p.c_str()); return r + hex(model_params(k)); }}; }
        default: { Vec x = c.nums(all->s.in.size(), 1), y = gen_target(c, all->s);       // a copy shares the parameters and has everything else of its own
            return {"model_copy", [=] { Model m(*all->model); reset_states(m); std::string r = hex(m.predict(x)); reset_states(m); m.step(x, y); r += hex(model_grads(m)); RneType g(static_cast<RneType::result_type>(seed)); r += hex(Vec{DLMath::rand<double>(-1, 1, g), double(DLMath::unique_rand_sequence(0, 9, g)[0]), DLMath::normal_pdf<double>(0, 1)(g)}); return r; }}; }
    }
}
void property(pbt::Case& c) {
    static Null null; static bool quiet = (std::cout.rdbuf(&null), true); (void) quiet;
    auto all = std::make_shared<Common>(); { DocOpt o; o.width = 3; gen_doc(c, all->doc, 3, o); Data d = gen_labelled(c, c.small(1, 4), c.small(1, 3), 1, 8, c.flip()); all->set = d.set(); GenOpt g; g.max_layers = 4; g.drop = false; all->s = gen_structure(c, g); all->model = std::make_shared<Model>("common"); build(*all->model, all->s); for (auto& l : all->model->layers()) set_params(c, *l);
        CsvFile f = gen_csv(c); std::string p = f.path + "c"; std::rename(f.path.c_str(), p.c_str()); all->csv = std::make_shared<CSV>(p, std::vector<TypeChecker::Type>{TypeChecker::Type::AUTO}, f.sep); all->rows = f.lines.size(); }
    size_t nt = 2 + c.below(3), jobs = c.small(1, 4); std::vector<std::vector<Job>> todo(nt); std::vector<std::shared_ptr<Names>> names(nt); std::vector<std::vector<std::string>> got(nt);
    for (size_t t = 0; t < nt; ++t) { names[t] = std::make_shared<Names>(); for (size_t k = 0; k < jobs; ++k) { todo[t].push_back(gen_job(c, all, names[t], "_" + std::to_string(t) + "_" + std::to_string(k))); c.label(todo[t].back().what); c.note("thread ", t, ": ", todo[t].back().what); } }
    c.nontrivial(jobs >= 2);
    std::atomic<size_t> waiting{nt}; std::vector<std::thread> ts;
    auto guarded = [](const Job& j) { try { return j.run(); } catch (const std::exception& e) { return std::string("error: ") + e.what(); } };
    for (size_t t = 0; t < nt; ++t) ts.emplace_back([&, t] { --waiting; while (waiting) std::this_thread::yield(); for (auto& j : todo[t]) got[t].push_back(guarded(j)); });
    for (auto& t : ts) t.join();
    std::set<std::string> distinct; size_t count = 0; for (auto& n : names) for (auto& x : *n) { ++count; CHECK(c, distinct.insert(x).second, "two unnamed objects are called", x); }
    c.label_if(count > 0, "names");
    for (size_t t = 0; t < nt; ++t) for (size_t k = 0; k < jobs; ++k) { std::string alone = guarded(todo[t][k]); CHECK(c, alone.rfind("error: ", 0) != 0, todo[t][k].what, "raises", alone); CHECK_EQ(c, got[t][k], alone, "job", k, "of thread", t, ":", todo[t][k].what); }
    for (auto& e : fs::directory_iterator(pbt::scratch())) fs::remove(e.path());
}

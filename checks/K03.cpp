// K03: from a file on disk to predictions: the whole way against plain tables and layers run one by one.
#include "net_gen.hpp"
#include "idx_gen.hpp"
#include "parser/csv.hpp"
const char* const PBT_RULE = "A table file or a pair of digit files, read into a data set (plain or one-hot labels at any columns), normalised, shuffled and split, a generated network fitted on one part, evaluated and run on the other, its trained parameters dumped and loaded: "
    "every stage against the written numbers, a reference trainer of single layers and the loss layers. Non-trivial: at least three entries, two of them trained on.";
template <LossType LT> static void pipeline(pbt::Case& c, const Net& n, const Dataset<double>& train, const Dataset<double>& test, const Data& td, const Data& sd, std::vector<std::shared_ptr<Layer>>* = nullptr) {
    size_t batch = c.small(1, 4), epochs = c.small(1, 3), seed = 1 + c.below(1000); bool adam = c.flip(), loader = c.flip(); double lr = c.uniform(0.001, 0.1);
    c.note("batch ", batch, " epochs ", epochs, adam ? " adam " : " gd ", lr, " seed ", seed); c.label(adam ? "adam" : "gd"); c.label(LT == LossType::CCE ? "cce" : "mse");
    constexpr auto S = ParallelizationLevel::SEQUENTIAL; Structure s = n.s; s.loss = LT == LossType::CCE; s.batch = batch;
    Model ref("ref"); build(ref, s); ref.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, seed); auto o = make_optimizer(adam, lr); reference_train(ref, s, td, *o, epochs, batch, 1);
    auto run = [&](auto& net, const auto& evaluate) {
        Dataset<double> a = train, b = test; { Quiet q; net.fit(a, adam ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT, epochs, batch, lr, seed); } CHECK(c, a.data() == train.data(), "fitting changed the data");
        for (const Dataset<double>* part : {&train, &test}) {
            const Data& d = part == &train ? td : sd; if (d.x.empty()) continue; Dataset<double> all = *part, in = all.inputs(); auto r = net.predict(in); CHECK_EQ(c, r.size(), d.x.size());
            std::shared_ptr<LossLayer> loss; if (LT == LossType::CCE) loss = std::make_shared<CategoricalCrossEntropyLossLayer>("l", net_out(n), 1); else loss = std::make_shared<MeanSquaredLossLayer>("l", net_out(n), 1, 0.5);
            for (size_t i = 0; i < d.x.size(); ++i) { Vec want = ref.predict(d.x[i]); CHECK_NEAR(c, r.entry(i), want, "prediction of entry", i); loss->set_target(d.y[i]); loss->forward(r.entry(i)); }
            auto e = evaluate(all); CHECK(c, pbt::near(e.loss, loss->avg_loss(), 1e-9, 1e-300) || same_double(e.loss, loss->avg_loss()), "loss", e.loss, "instead of", loss->avg_loss()); if (LT == LossType::CCE) CHECK(c, pbt::near(e.accuracy, loss->accuracy(), 1e-12, 1e-12), "accuracy", e.accuracy, "instead of", loss->accuracy());
        }
    };
    if (c.flip()) { EdgeFeedforwardNeuralNetwork<LT, InitType::AUTO, S, double> net("net"); for (LayerDescriptor x : n.d) net.add(x); CHECK_EQ(c, size_t(net.input_size()), net_in(n)); CHECK_EQ(c, size_t(net.output_size()), net_out(n)); run(net, [&](auto& d) { return net.evaluate(d, LT); }); }
    else { FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LT, InitType::AUTO, S, double> net(n.d, "net"); run(net, [&](auto& d) { return net.evaluate(d); }); c.label("by_description"); }
    // The trained parameters survive a file.
    bool finite = true; for (auto& v : model_params(ref)) for (double e : v) finite &= std::isfinite(e);      // a text of numbers has no place for others
    if (loader && finite) { std::string p = pbt::scratch() + "/model" + std::to_string(getpid()); { std::ofstream f(p); ref.dump(f); } Model back("back"); build(back, s); { std::ifstream f(p); back.load(f); } for (auto& x : td.x) CHECK_SAME(c, Vec(back.predict(x)), Vec(ref.predict(x)), "prediction of the loaded model"); c.label("loaded"); }
}
void property(pbt::Case& c) {
    bool cce = c.flip(), digits = c.chance(1, 12); NetOpt o; o.drop = false; o.max_layers = 3; o.softmax_end = cce; Net n; size_t in, out, rows; std::vector<Vec> recs; std::set<SizeType> labels; DatasetParser::LabelEncoding enc = DatasetParser::LabelEncoding::DEFAULT_ENCODING;
    std::unique_ptr<DatasetParser> parser; std::string base = pbt::scratch() + "/k" + std::to_string(getpid());
    if (digits) {
        cce = true; rows = c.small(2, 5); MnistFiles f; std::set<uint8_t> kinds; for (size_t i = 0; i < rows; ++i) { f.images.push_back(gen_pixels(c, 784)); f.labels.push_back(uint8_t(c.below(4) * 3)); kinds.insert(f.labels.back()); } f.icount = f.lcount = uint32_t(rows); in = 784; out = kinds.size();
        std::ofstream(base + "i", std::ios::binary | std::ios::trunc) << f.ibytes(); std::ofstream(base + "l", std::ios::binary | std::ios::trunc) << be32(0x801) + be32(uint32_t(rows)) + std::string(f.labels.begin(), f.labels.end());
        for (size_t i = 0; i < rows; ++i) { Vec r(f.images[i].begin(), f.images[i].end()); for (uint8_t k : kinds) r.push_back(k == f.labels[i]); recs.push_back(r); } for (size_t k = 0; k < out; ++k) labels.insert(in + k);
        enc = DatasetParser::LabelEncoding::ONE_HOT_ENCODING; parser = std::make_unique<Mnist>(base + "i", base + "l"); c.label("digits");
        n.s.in = DLMath::Shape3d(784); n.d.push_back(Input("in", LayerShape(size_t(784)))); n.d.push_back(Dense("d", out, ActivationType::Softmax)); Spec a; a.kind = DENSE; a.in = n.s.in; a.isz = 784; a.osz = out; a.outs = DLMath::Shape3d(out); a.name = "d"; Spec b; b.kind = SOFT; b.in = b.outs = a.outs; b.isz = b.osz = out; b.name = "d"; n.s.l = {a, b}; n.s.parent = {-1, 0}; n.s.loss_of = 1;
    } else {
        n = gen_net(c, o); in = net_in(n); out = net_out(n); bool block = cce && out > 1 && c.chance(2, 3); rows = std::max(c.small(2, 12), block ? out : size_t(1));
        size_t lab = block ? 1 : out, width = in + lab; std::vector<size_t> cols(width); std::iota(cols.begin(), cols.end(), 0); if (c.flip()) for (size_t i = width; i > 1; --i) std::swap(cols[i - 1], cols[c.below(i)]);
        std::vector<size_t> lc(cols.end() - std::ptrdiff_t(lab), cols.end()); std::sort(lc.begin(), lc.end()); std::set<size_t> lset(lc.begin(), lc.end()); char sep = ",;\t"[c.below(3)]; std::string text; for (size_t j = 0; j < width; ++j) { if (j) text += sep; text += "c" + std::to_string(j); } text += '\n';
        double first = double(c.range(0, 6)) - 3, step = c.pick(Vec{1, 0.5, 1e-9, 7});
        for (size_t i = 0; i < rows; ++i) {
            Vec y(out), row(width), rec; size_t k = block && i < out ? i : c.below(out); for (size_t j = 0; j < out; ++j) y[j] = cce ? double(j == k) : c.uniform(-1, 1); size_t q = 0;
            for (size_t j = 0; j < width; ++j) { if (!lset.count(j)) row[j] = c.uniform(-2, 2); else row[j] = block ? first + step * double(k) : y[q++]; char b[64]; std::snprintf(b, sizeof b, c.chance(1, 5) ? "%.17e" : "%.17g", row[j]); if (j) text += sep; text += b; } text += '\n';
            if (block) { for (size_t j = 0; j < width; ++j) if (!lset.count(j)) rec.push_back(row[j]); rec.insert(rec.end(), y.begin(), y.end()); } else rec = row; recs.push_back(rec);
        }
        if (c.flip()) text.pop_back(); std::ofstream(base + "t", std::ios::binary | std::ios::trunc) << text; parser = std::make_unique<CSV>(base + "t", std::vector<TypeChecker::Type>{TypeChecker::Type::AUTO}, sep, std::set<SizeType>(lc.begin(), lc.end())); c.label("table");
        if (block) { enc = DatasetParser::LabelEncoding::ONE_HOT_ENCODING; for (size_t k = 0; k < out; ++k) labels.insert(in + k); c.label("one_hot"); } else labels.insert(lc.begin(), lc.end());
    }
    c.note("entries ", rows, " inputs ", in, " outputs ", out); note_structure(c, n.s);
    auto d = Dataset<double>::parse(*parser, enc); auto rows_of = [](const Dataset<double>& q) { std::vector<Vec> v; for (size_t i = 0; i < q.size(); ++i) v.push_back(q.entry(i)); return v; };
    CHECK_EQ(c, size_t(d.size()), rows); CHECK(c, rows_of(d) == recs, "entries read", pbt::show(rows_of(d)), "instead of", pbt::show(recs)); std::vector<SizeType> want(labels.begin(), labels.end()); CHECK_EQ(c, d.label_idx(), want);
    if (digits || c.flip()) { // to 0..1, inputs only
        double lo = digits ? 0 : -2, hi = digits ? 255 : 2; auto ix = d.input_idx(); d.min_max_normalization(lo, hi, ix); for (auto& r : recs) for (size_t j : ix) r[j] = (r[j] - lo) / (hi - lo); auto got = rows_of(d); for (size_t i = 0; i < rows; ++i) CHECK_NEAR(c, got[i], recs[i], "normalised entry", i); recs = got; c.label("normalised"); }
    if (c.flip()) { d.shuffle(RneType(static_cast<RneType::result_type>(c.below(1000)))); auto got = rows_of(d), a = got, b = recs; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(c, a == b, "shuffled entries"); recs = got; c.label("shuffled"); }
    Dataset<double> train = d, test; if (c.flip()) { auto parts = d.split(c.uniform(0.3, 0.9)); train = parts.training_set; test = parts.testing_set; auto a = rows_of(train), b = rows_of(test); a.insert(a.end(), b.begin(), b.end()); CHECK(c, a == recs, "the parts of the split"); c.label("split"); }
    if (train.empty()) return;
    auto table = [&](const Dataset<double>& q) { Data t; for (auto& r : rows_of(q)) { Vec x, y; for (size_t j = 0; j < r.size(); ++j) (labels.count(j) ? y : x).push_back(r[j]); t.x.push_back(x); t.y.push_back(y); } return t; };
    c.nontrivial(rows >= 3 && train.size() >= 2);
    if (cce) pipeline<LossType::CCE>(c, n, train, test, table(train), table(test)); else pipeline<LossType::MSE>(c, n, train, test, table(train), table(test));
}

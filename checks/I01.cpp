// I01: MNIST files against the bytes they were written from.
#include "idx_gen.hpp"
using namespace EdgeLearning;
const char* const PBT_RULE = "An image/label file pair of 1-12 images (pixels random, constant, ramp or extreme) and a history of image/label/item/entry/text reads "
    "by index (repeated, backward, beyond the end). Non-trivial: at least 2 images and 3 reads.";

void property(pbt::Case& c) {
    MnistFiles f = gen_mnist(c);
    f.write();
    Mnist m(f.ipath, f.lpath);
    size_t n = f.images.size(), reads = 0;
    CHECK_EQ(c, m.size(), n); CHECK_EQ(c, m.side(), size_t(28)); CHECK_EQ(c, m.height(), size_t(28)); CHECK_EQ(c, m.width(), size_t(28));
    CHECK(c, m.shape() == std::make_tuple(size_t(28), size_t(28)));
    CHECK_EQ(c, m.entries_amount(), n); CHECK_EQ(c, m.feature_size(), size_t(785)); CHECK_EQ(c, m.labels_idx(), std::set<SizeType>{784});
    auto img = [&](const MnistImage& x, size_t i) { CHECK(c, x.data() == f.images[i], "pixels of image", i); CHECK_EQ(c, x.idx(), i); };
    auto lab = [&](const MnistLabel& x, size_t i) { CHECK_EQ(c, int(x.data()), int(f.labels[i]), "label", i); CHECK_EQ(c, x.idx(), i); };
    c.repeat(1, 12, [&] {
        size_t i = c.below(3) ? c.below(n) : c.below(4 * n); if (c.chance(1, 10)) { i = c.below(uint64_t(1) << c.usize(8, 63)); c.label("huge_index"); } size_t w = i % n; ++reads; c.label_if(i >= n, "wrapped");
        c.note("read ", i);
        switch (c.below(7)) {
            case 0: case 1: img(m.image(i), w); break;
            case 2: lab(m.label(i), w); break;
            case 3: { auto it = m[i]; img(it.image, w); lab(it.label, w); break; }
            case 4: { auto e = m.entry(i); CHECK_EQ(c, e.size(), size_t(785)); for (size_t k = 0; k < 784; ++k) CHECK_EQ(c, e[k], double(f.images[w][k]), "entry", i, "pixel", k); CHECK_EQ(c, e[784], double(f.labels[w])); break; }
            case 5: check_text(c, m.image(i), f.images[w], 28); c.label("text"); break;
            default: { CHECK_EQ(c, std::string(m.label(i)), std::to_string(int(f.labels[w]))); std::ostringstream os; os << m.label(i); CHECK_EQ(c, os.str(), std::to_string(int(f.labels[w]))); break; }
        }
    });
    if (c.chance(1, 3)) { DatasetParser& p = m; auto v = p.data_to_encoding(); CHECK_EQ(c, v.size(), n * 785);
        for (size_t i = 0; i < n; ++i) { for (size_t k = 0; k < 784; ++k) CHECK_EQ(c, v[i * 785 + k], double(f.images[i][k])); CHECK_EQ(c, v[i * 785 + 784], double(f.labels[i])); } }
    c.nontrivial(n >= 2 && reads >= 3);
}

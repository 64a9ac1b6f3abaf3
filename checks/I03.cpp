// I03: CIFAR files against the bytes they were written from.
#include "idx_gen.hpp"
using namespace EdgeLearning;
const char* const PBT_RULE = "A CIFAR-10 or CIFAR-100 batch of 1-6 images in either pixel order, metadata files with blank lines, and a history of image/label/item/entry/text reads "
    "(repeated, backward, wrapped, beyond the end of the short file), plus grey values of random colours. Non-trivial: at least 2 images and 3 reads of present entries.";

void property(pbt::Case& c) {
    CifarFile f; f.hundred = c.flip(); f.order = c.flip() ? CifarShapeOrder::ROW_COL_CHN : CifarShapeOrder::CHN_ROW_COL;
    c.label(f.hundred ? "cifar100" : "cifar10"); c.label(f.order == CifarShapeOrder::CHN_ROW_COL ? "planes" : "interleaved");
    c.repeat(1, 6, [&] { f.images.push_back(gen_pixels(c, 3072)); f.coarse.push_back(static_cast<uint8_t>(c.below(256))); f.fine.push_back(static_cast<uint8_t>(c.below(256))); });
    if (c.chance(1, 4)) f.tail = c.below(3073);
    std::string p = pbt::scratch() + "/c" + std::to_string(getpid());
    f.path = p + "b"; f.cpath = p + "c"; f.fpath = p + "f";
    std::ofstream(f.path, std::ios::binary | std::ios::trunc) << f.bytes();
    auto meta = [&](const std::string& path, std::vector<std::string>& names) {
        std::string s; size_t k = 0;
        c.repeat(0, 5, [&] { if (c.chance(1, 5)) s += "\n"; std::string w = "n" + std::to_string(k++) + (c.flip() ? " x" : ""); names.push_back(w); s += w + "\n"; });
        if (!s.empty() && c.chance(1, 3)) s.pop_back();
        std::ofstream(path, std::ios::binary | std::ios::trunc) << s; };
    meta(f.cpath, f.cnames); meta(f.fpath, f.fnames);
    size_t n = f.images.size();
    Cifar m(f.path, f.cpath, f.order, f.hundred ? CifarDataset::CIFAR_100 : CifarDataset::CIFAR_10, f.hundred ? fs::path(f.fpath) : fs::path());
    CHECK_EQ(c, m.label_names(), f.cnames); CHECK_EQ(c, m.coarse_label_names(), f.cnames);
    CHECK_EQ(c, m.fine_label_names(), f.hundred ? f.fnames : std::vector<std::string>{});
    CHECK_EQ(c, m.side(), size_t(32)); CHECK_EQ(c, m.height(), size_t(32)); CHECK_EQ(c, m.width(), size_t(32)); CHECK_EQ(c, m.channels(), size_t(3));
    CHECK(c, m.shape() == (f.order == CifarShapeOrder::CHN_ROW_COL ? std::make_tuple(size_t(3), size_t(32), size_t(32)) : std::make_tuple(size_t(32), size_t(32), size_t(3))));
    CHECK_EQ(c, m.feature_size(), size_t(3073)); CHECK_EQ(c, m.labels_idx(), std::set<SizeType>{3072}); CHECK_EQ(c, m.entries_amount(), m.size());
    size_t good = 0, missing = 0;
    auto img = [&](const CifarImage& x, size_t i) { auto d = x.data(); CHECK_EQ(c, d.size(), size_t(3072)); for (size_t k = 0; k < 3072; ++k) CHECK_EQ(c, double(d[k]), f.pixel(i, k), "image", i, "value", k); CHECK_EQ(c, x.idx(), i); };
    auto lab = [&](const CifarLabel& x, size_t i) { CHECK_EQ(c, int(x.coarse_label()), int(f.coarse[i]), "coarse label", i); CHECK_EQ(c, int(x.data()), int(f.coarse[i])); CHECK_EQ(c, int(x.fine_label()), f.hundred ? int(f.fine[i]) : 0, "fine label", i); CHECK_EQ(c, x.idx(), i); };
    auto grey = [](int r, int g, int b) { return 0.21 * r + 0.72 * g + 0.07 * b; };
    c.repeat(1, 10, [&] {
        size_t i = c.below(n);
        if (c.chance(1, 5)) { // beyond the end of the short file: never spoils a later read
            size_t far = c.flip() ? n + c.below(5) : n + c.below(m.size() - n); ++missing; c.note("read missing ", far);
            try { if (c.flip()) (void) m.image(far); else if (c.flip()) (void) m.label(far); else (void) m.entry(far); } catch (const std::exception&) {}
            return;
        }
        size_t a = c.chance(1, 5) ? i + m.size() * (1 + (c.flip() ? c.below(3) : c.below(size_t(1) << c.usize(3, 49)))) : i; c.label_if(a != i, "wrapped");
        c.note("read ", a); ++good; c.label_if(missing > 0, "present_after_missing");
        switch (c.below(6)) {
            case 0: img(m.image(a), i); break;
            case 1: lab(m.label(a), i); break;
            case 2: { auto it = m[a]; img(it.image, i); lab(it.label, i); break; }
            case 3: { auto e = m.entry(a); CHECK_EQ(c, e.size(), size_t(3073)); for (size_t k = 0; k < 3072; ++k) CHECK_EQ(c, e[k], f.pixel(i, k), "entry", i, "value", k);
                CHECK_EQ(c, e[3072], double(f.hundred ? f.fine[i] : f.coarse[i]), "entry label", i); break; }
            case 4: { Bytes g(1024); for (size_t k = 0; k < 1024; ++k) g[k] = static_cast<uint8_t>(grey(f.images[i][k], f.images[i][1024 + k], f.images[i][2048 + k])); check_text(c, m.image(a), g, 32, 2); c.label("text"); break; }
            default: { std::string s = m.label(a), w = std::to_string(int(f.coarse[i])); if (f.hundred) w = "(" + w + "," + std::to_string(int(f.fine[i])) + ")"; CHECK_EQ(c, s, w); break; }
        }
    });
    for (int k = 0; k < 4; ++k) { int r = static_cast<int>(c.below(256)), g = static_cast<int>(c.below(256)), b = static_cast<int>(c.below(256));
        double e = grey(r, g, b); double v = perception_brightness(static_cast<uint8_t>(r), static_cast<uint8_t>(g), static_cast<uint8_t>(b)); CHECK(c, std::fabs(v - e) <= 1.0, "grey of", r, g, b, "got", v, "want", e); }
    c.nontrivial(n >= 2 && good >= 3);
}

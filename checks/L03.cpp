// L03: convolution and pooling against direct sums over windows.
#include "pbt.hpp"
#include "dnn/dlmath.hpp"
#include "dnn/convolutional.hpp"
#include "dnn/max_pooling.hpp"
#include "dnn/avg_pooling.hpp"
#include <memory>
using namespace EdgeLearning;
const char* const PBT_RULE = "Convolutions (any kernel, stride, padding, channels, filters) and poolings, called as functions on exact-size heap arrays and through the layers (also after a later input-shape change), against direct sums, maxima and means over the zero-padded input; "
    "output shapes against the number of window positions. Non-trivial: at least two windows and a window of at least two elements.";
template <class T> struct Buf { std::unique_ptr<T[]> p; size_t n; Buf(const std::vector<T>& v) : p(new T[v.size()]), n(v.size()) { std::copy(v.begin(), v.end(), p.get()); } T* get() { return p.get(); } std::vector<T> vec() const { return {p.get(), p.get() + n}; } };
struct Conf { size_t h, w, ch, kh, kw, f, sh, sw, ph, pw, oh, ow; int kind; };   // kind 0 conv, 1 max, 2 avg
static size_t fits(size_t n, size_t k, size_t s, size_t p) { size_t c = 0; if (n == 0) return 0; for (size_t o = 0; o + k <= n + 2 * p; o += s) ++c; return c; }
static void dims(pbt::Case& c, Conf& q) {
    size_t m = c.tier ? 12 : 8; q.h = c.small(1, m); q.w = c.small(1, m); q.ch = c.small(1, 4);
    if (c.chance(1, 25)) { switch (c.below(3)) { case 0: q.h = c.usize(8, 40); break; case 1: q.w = c.usize(8, 40); break; default: q.h = c.usize(8, 20); q.w = c.usize(8, 20); } c.label("large_image"); }
    if (c.chance(1, 25)) { q.ch = c.usize(4, 20); if (c.chance(1, 3)) { q.ch = c.usize(20, 300); q.h = std::min<size_t>(q.h, 5); q.w = std::min<size_t>(q.w, 5); c.label("hundreds_of_channels"); } c.label("many_channels"); }
}
static Conf gen(pbt::Case& c) {
    Conf q; q.kind = int(c.weighted({2, 1, 1})); dims(c, q); q.kh = c.small(1, 5); q.kw = c.small(1, 5); if (c.chance(1, 25)) { q.kh = c.usize(1, 12); q.kw = c.usize(1, 12); c.label("large_kernel"); }
    if (c.chance(9, 10)) { q.kh = std::min(q.kh, q.h); q.kw = std::min(q.kw, q.w); }
    q.f = q.kind ? q.ch : c.small(1, 4); if (!q.kind && c.chance(1, 25)) { q.f = c.chance(1, 3) && q.ch < 20 && q.h * q.w < 100 ? c.usize(20, 300) : c.usize(4, 20); c.label_if(q.f > 100, "hundreds_of_filters"); c.label("many_filters"); } q.sh = c.small(1, 4); q.sw = c.small(1, 4); if (c.chance(1, 25)) { q.sh = c.usize(1, 12); q.sw = c.usize(1, 12); } q.ph = q.kind ? 0 : c.small(0, 3); q.pw = q.kind ? 0 : c.small(0, 3);
    if (q.kind == 0 && c.chance(1, 4)) { q.ph = q.kh + c.below(3); } return q;
}
static void shape(Conf& q) { q.oh = fits(q.h, q.kh, q.sh, q.ph); q.ow = fits(q.w, q.kw, q.sw, q.pw); }
static std::vector<double> want(const Conf& q, const std::vector<double>& x, const std::vector<double>& k, const std::vector<double>& b) {
    std::vector<double> r;
    for (size_t i = 0; i < q.oh; ++i) for (size_t j = 0; j < q.ow; ++j) for (size_t f = 0; f < q.f; ++f) {
        double s = 0, m = -std::numeric_limits<double>::infinity();
        for (size_t a = 0; a < q.kh; ++a) for (size_t e = 0; e < q.kw; ++e) {
            long y = long(i * q.sh + a) - long(q.ph), z = long(j * q.sw + e) - long(q.pw); bool in = y >= 0 && z >= 0 && y < long(q.h) && z < long(q.w);
            if (q.kind == 0) { for (size_t t = 0; t < q.ch; ++t) if (in) s += x[(size_t(y) * q.w + size_t(z)) * q.ch + t] * k[((a * q.kw + e) * q.ch + t) * q.f + f]; }
            else { double v = x[(size_t(y) * q.w + size_t(z)) * q.ch + f]; s += v; m = std::max(m, v); }
        }
        r.push_back(q.kind == 0 ? s + (b.empty() ? 0 : b[f]) : q.kind == 1 ? m : s / double(q.kh * q.kw));
    }
    return r;
}
static void compare(pbt::Case& c, const std::vector<double>& got, const std::vector<double>& w, bool exact, const char* how) {
    CHECK_EQ(c, got.size(), w.size(), how); for (size_t i = 0; i < w.size(); ++i) CHECK(c, exact ? got[i] == w[i] : pbt::near(got[i], w[i], 1e-10, 1e-10), how, "element", i, "got", got[i], "want", w[i]);
}
void property(pbt::Case& c) {
    Conf q = gen(c); shape(q); bool exact = c.flip(); auto vals = [&](size_t n) { std::vector<double> v(n); for (auto& e : v) e = exact && q.kind != 2 ? double(c.range(-9, 9)) : c.num(3); if (q.kind == 1 && c.chance(1, 3)) for (auto& e : v) e = -std::fabs(e) - 1; return v; };
    if (q.kind == 2) exact = false;
    DLMath::Shape2d ks(q.kh, q.kw), st(q.sh, q.sw), pd(q.ph, q.pw); size_t nw = q.kind ? 0 : q.kh * q.kw * q.ch * q.f;
    bool layer = c.flip(); Conf first = q;
    if (layer && c.chance(1, 3)) { dims(c, first); if (q.kind) { first.f = first.ch; } }      // constructed for another input shape, then changed
    auto note = [&] { c.note(q.kind == 0 ? "conv " : q.kind == 1 ? "max " : "avg ", q.h, "x", q.w, "x", q.ch, " kernel ", q.kh, "x", q.kw, " filters ", q.f, " stride ", q.sh, ",", q.sw, " padding ", q.ph, ",", q.pw, layer ? " layer" : " function"); };
    note();
    if (!layer) {
        auto x = vals(q.h * q.w * q.ch), k = vals(nw); auto w = want(q, x, k, {}); Buf<double> X(x), K(k), D(vals(w.size())); DLMath::Shape3d is(q.h, q.w, q.ch); double* r;
        if (q.kind == 0) { if (q.f == 1 && q.ch == 1 && c.flip()) r = DLMath::cross_correlation<double>(D.get(), X.get(), DLMath::Shape2d(q.h, q.w), K.get(), ks, st, pd); else if (q.f == 1 && c.flip()) r = DLMath::cross_correlation<double>(D.get(), X.get(), is, K.get(), ks, st, pd); else r = DLMath::cross_correlation<double>(D.get(), X.get(), is, K.get(), ks, q.f, st, pd); }
        else r = q.kind == 1 ? DLMath::max_pool<double>(D.get(), X.get(), is, ks, st) : DLMath::avg_pool<double>(D.get(), X.get(), is, ks, st);
        CHECK(c, r == D.get()); compare(c, D.vec(), w, exact, "function"); CHECK_EQ(c, X.vec(), x); CHECK_EQ(c, K.vec(), k);
    } else {
        DLMath::Shape3d is(first.h, first.w, first.ch); std::shared_ptr<FeedforwardLayer> l;
        if (q.kind == 0) l = std::make_shared<ConvolutionalLayer>("c", is, ks, q.f, st, pd); else if (q.kind == 1) l = std::make_shared<MaxPoolingLayer>("m", is, ks, st); else l = std::make_shared<AveragePoolingLayer>("a", is, ks, st);
        if (first.h != q.h || first.w != q.w || first.ch != q.ch) { l->input_shape(LayerShape(DLMath::Shape3d(q.h, q.w, q.ch))); c.label("input_shape_changed"); }
        auto os = l->output_shape().shape(); CHECK_EQ(c, size_t(os.height()), q.oh); CHECK_EQ(c, size_t(os.width()), q.ow); CHECK_EQ(c, size_t(os.channels()), q.f); CHECK_EQ(c, size_t(l->output_size()), q.oh * q.ow * q.f); CHECK_EQ(c, size_t(l->input_size()), q.h * q.w * q.ch);
        auto cs = q.kind == 0 ? ConvolutionalLayer::calculate_output_shape(DLMath::Shape3d(q.h, q.w, q.ch), ks, st, pd, q.f) : PoolingLayer::calculate_output_shape(DLMath::Shape3d(q.h, q.w, q.ch), ks, st);
        CHECK_EQ(c, size_t(cs.height()), q.oh); CHECK_EQ(c, size_t(cs.width()), q.ow); CHECK_EQ(c, size_t(cs.channels()), q.f);
        CHECK_EQ(c, size_t(l->param_count()), q.kind ? size_t(0) : nw + q.f);
        auto k = vals(nw); std::vector<double> b(q.kind ? 0 : q.f, 0.0);
        for (size_t i = 0; i < nw; ++i) l->param(i) = k[i]; for (size_t i = 0; i < b.size(); ++i) l->param(nw + i) = b[i] = exact ? double(c.range(-9, 9)) : c.num(3);
        for (size_t round = c.small(1, 3); round-- > 0;) { auto x = vals(q.h * q.w * q.ch), x0 = x; bool t = c.flip(); std::vector<double> y = t ? l->training_forward(x) : l->forward(x); compare(c, y, want(q, x, k, b), exact, "layer"); CHECK_EQ(c, x, x0); CHECK_EQ(c, l->last_output(), y); }
        c.label("layer");
    }
    bool none = q.oh * q.ow == 0; c.label_if(none, "kernel_too_large"); c.label_if(q.ph + q.pw > 0, "padding"); c.label_if(q.ph >= q.kh, "padding_beyond_kernel"); c.label_if(q.sh > q.kh || q.sw > q.kw, "stride_beyond_kernel"); c.label_if(q.h != q.w && q.kh != q.kw, "not_square");
    c.label(q.kind == 0 ? "conv" : q.kind == 1 ? "max" : "avg"); c.nontrivial(q.oh * q.ow >= 2 && q.kh * q.kw >= 2);
}

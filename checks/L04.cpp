// L04: concatenate, append, extract, separate.
#include "pbt.hpp"
#include "dnn/dlmath.hpp"
#include <memory>
using namespace EdgeLearning;
const char* const PBT_RULE = "Lists of tensors equal in shape except along a chosen axis (all axes, one to fifty operands, also empty ones), joined by the pair, list and append forms on exact-size heap arrays and separated again, slices extracted from tensors of one to five dimensions, "
    "compared index by index; mismatched shapes and axes out of range must be rejected without writing. Non-trivial: two operands that hold data, or a slice that is not the whole.";
struct Buf { std::unique_ptr<double[]> p; size_t n; explicit Buf(size_t k) : p(new double[k]), n(k) { for (size_t i = 0; i < k; ++i) p[i] = -1e99; } Buf(const std::vector<double>& v) : Buf(v.size()) { std::copy(v.begin(), v.end(), p.get()); } double* get() { return p.get(); } std::vector<double> vec() const { return {p.get(), p.get() + n}; } };
typedef DLMath::Shape3d S3;
static std::vector<double> seq(size_t n, double& k) { std::vector<double> v(n); for (auto& x : v) x = k += 1; return v; }

static void join(pbt::Case& c) {
    size_t axis = c.below(3), n = c.chance(1, 2) ? 2 : c.chance(1, 20) ? c.usize(8, 50) : c.small(1, 8); size_t base[3]; for (auto& b : base) b = c.small(1, 5);
    c.label_if(n > 8, "many_operands"); size_t side = 5; if (c.chance(1, 25)) { base[c.below(3)] = c.usize(5, 40); side = n > 8 ? 8 : 30; c.label("large_operands"); } if (c.chance(1, 20)) base[c.below(3)] = 0;
    std::vector<S3> sh; size_t total = 0; for (size_t i = 0; i < n; ++i) { size_t d[3] = {base[0], base[1], base[2]}; d[axis] = c.chance(1, 10) ? 0 : c.small(1, side); sh.push_back(S3(d[0], d[1], d[2])); total += d[axis]; }
    std::string desc; for (auto& s : sh) desc += std::to_string(s.height()) + "x" + std::to_string(s.width()) + "x" + std::to_string(s.channels()) + " "; 
    bool bad_axis = c.chance(1, 10), bad_shape = !bad_axis && n >= 2 && c.chance(1, 6); size_t ax = axis;
    if (bad_axis) ax = 3 + c.below(4); if (bad_shape) { size_t w = c.below(n), o = (axis + 1 + c.below(2)) % 3; sh[w][o] += 1 + c.below(3); }
    c.note("axis ", ax, " shapes ", desc, bad_shape ? "(one changed)" : "");
    double k = 0; std::vector<std::vector<double>> v; std::vector<double> all; for (auto& s : sh) { v.push_back(seq(s.size(), k)); all.insert(all.end(), v.back().begin(), v.back().end()); }
    size_t d[3] = {base[0], base[1], base[2]}; d[axis] = total; size_t rn = d[0] * d[1] * d[2];
    std::vector<double> want;
    if (!bad_axis && !bad_shape) for (size_t i = 0; i < d[0]; ++i) for (size_t j = 0; j < d[1]; ++j) for (size_t e = 0; e < d[2]; ++e) {
        size_t p[3] = {i, j, e}; size_t w = 0; while (p[axis] >= sh[w][axis]) p[axis] -= sh[w++][axis]; want.push_back(v[w][(p[0] * sh[w].width() + p[1]) * sh[w].channels() + p[2]]); }
    bool pair = n == 2 && c.flip(), threw = false; size_t room = bad_axis || bad_shape ? 0 : rn; Buf D(room), A(all); double* r = nullptr;   // a rejected call must not write
    Buf A0(v[0]), A1(n > 1 ? v[1] : std::vector<double>());
    try { r = pair ? DLMath::concatenate<double>(D.get(), A0.get(), sh[0], A1.get(), sh[1], ax) : DLMath::concatenate<double>(D.get(), A.get(), sh, ax); } catch (const std::exception&) { threw = true; }
    if (bad_axis || bad_shape) {
        CHECK(c, threw, "incompatible operands were joined"); threw = false; Buf O(0), O2(0), X(0);
        try { if (pair) DLMath::separate<double>(O.get(), sh[0], O2.get(), sh[1], X.get(), ax); else DLMath::separate<double>(O.get(), sh, X.get(), ax); } catch (const std::exception&) { threw = true; }
        CHECK(c, threw, "incompatible operands were separated"); c.label(bad_axis ? "bad_axis" : "bad_shape"); return;
    }
    CHECK(c, !threw, "compatible operands were rejected"); CHECK(c, r == D.get()); CHECK_EQ(c, D.vec(), want); CHECK_EQ(c, A.vec(), all);
    if (pair) { Buf O(v[0].size()), P(v[1].size()); DLMath::separate<double>(O.get(), sh[0], P.get(), sh[1], D.get(), ax); CHECK_EQ(c, O.vec(), v[0], "first operand"); CHECK_EQ(c, P.vec(), v[1], "second operand"); c.label("pair"); }
    else { Buf O(all.size()); double* q = DLMath::separate<double>(O.get(), sh, D.get(), ax); CHECK(c, q == O.get()); CHECK_EQ(c, O.vec(), all, "separated"); c.label("list"); }
    CHECK_EQ(c, D.vec(), want, "separating changed its source");
    size_t with = 0; for (auto& s : sh) with += s.size() > 0; c.nontrivial(with >= 2); c.label_if(with < n, "empty_operand"); c.label("axis" + std::to_string(axis)); c.label_if(n > 2, "many");
}
static void slice(pbt::Case& c) {
    size_t dims = c.usize(1, 5); std::vector<SizeType> sh(dims); for (auto& s : sh) s = c.small(1, dims > 3 ? 3 : 5); size_t axis = c.below(dims); if (c.chance(1, 15)) { sh[c.below(dims)] = c.usize(5, 60); c.label("large_slice"); } size_t full = sh[axis], len = c.below(full + 1), off = c.below(full - len + 1);
    std::vector<SizeType> part = sh; part[axis] = len; size_t outer = 1, inner = 1; for (size_t i = 0; i < dims; ++i) { if (i < axis) outer *= sh[i]; if (i > axis) inner *= sh[i]; }
    size_t n = outer * full * inner, pn = outer * len * inner; double k = 0; auto v = seq(n, k), w = seq(pn, k); c.note("tensor ", pbt::show(std::vector<size_t>(sh.begin(), sh.end())), " axis ", axis, " from ", off, " length ", len);
    auto at = [&](size_t o, size_t a, size_t i) { return (o * full + a) * inner + i; };
    bool chk = c.flip(); Buf X(v), D(pn), P(w);
    if (chk) DLMath::extract_check<double>(D.get(), part, X.get(), full, axis, off); else DLMath::extract<double>(D.get(), part, X.get(), full, axis, off);
    std::vector<double> want; for (size_t o = 0; o < outer; ++o) for (size_t a = 0; a < len; ++a) for (size_t i = 0; i < inner; ++i) want.push_back(v[at(o, off + a, i)]);
    CHECK_EQ(c, D.vec(), want, "extracted"); CHECK_EQ(c, X.vec(), v, "source changed");
    if (chk) DLMath::append_check<double>(X.get(), sh, P.get(), len, axis, off); else DLMath::append<double>(X.get(), sh, P.get(), len, axis, off);
    auto x = v; for (size_t o = 0, s = 0; o < outer; ++o) for (size_t a = 0; a < len; ++a) for (size_t i = 0; i < inner; ++i) x[at(o, off + a, i)] = w[s++];
    CHECK_EQ(c, X.vec(), x, "appended"); CHECK_EQ(c, P.vec(), w);
    if (c.chance(1, 5)) { size_t bad = dims + c.below(3); int t = 0; try { DLMath::extract_check<double>(D.get(), part, X.get(), full, bad, off); } catch (const std::exception&) { ++t; } try { DLMath::append_check<double>(X.get(), sh, P.get(), len, bad, off); } catch (const std::exception&) { ++t; } CHECK_EQ(c, t, 2, "axis out of range"); CHECK_EQ(c, X.vec(), x); c.label("bad_slice_axis"); }
    c.label("slice"); c.label_if(len == 0, "empty_slice"); c.label_if(dims > 3, "many_dimensions"); c.nontrivial(len > 0 && len < full);
}
void property(pbt::Case& c) { if (c.chance(2, 5)) slice(c); else join(c); }

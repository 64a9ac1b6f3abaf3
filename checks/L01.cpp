// L01: element-wise, reduction and matrix primitives.
#include "pbt.hpp"
#include "dnn/dlmath.hpp"
#include <memory>
using namespace EdgeLearning;
const char* const PBT_RULE = "One primitive of DLMath (element-wise sum or product, scalar form, maximum and its position, search, matrix-vector product, fully connected forward and backward kernels) over exact-size heap arrays of generated length, "
    "shape, element type and aliasing, against its definition; sources must stay unchanged and the sanitizer sees every access outside the arrays. Non-trivial: at least two elements.";

template <class T> struct Buf {           // exact-size heap block: any stray access is a sanitizer report
    std::unique_ptr<T[]> p; size_t n; explicit Buf(size_t k) : p(new T[k ? k : 0]), n(k) {}
    Buf(const std::vector<T>& v) : Buf(v.size()) { std::copy(v.begin(), v.end(), p.get()); }
    T* get() { return p.get(); } std::vector<T> vec() const { return std::vector<T>(p.get(), p.get() + n); }
};
template <class T> T value(pbt::Case& c, bool exact) {
    if (exact || !std::is_floating_point<T>::value) return static_cast<T>(c.range(-9, 9));
    switch (c.weighted({4, 1})) { case 0: return static_cast<T>(c.num(10)); default: return static_cast<T>(c.num(1) * std::ldexp(1.0, int(c.range(-20, 20)))); }
}
template <class T> std::vector<T> values(pbt::Case& c, size_t n, bool exact) { std::vector<T> v(n); for (auto& x : v) x = value<T>(c, exact); return v; }
template <class T> bool close(T got, long double want, long double mag) {    // mag: sum of the magnitudes of the terms
    if (!std::is_floating_point<T>::value) return static_cast<long double>(got) == want;
    return std::fabs(static_cast<long double>(got) - want) <= mag * 64 * std::numeric_limits<T>::epsilon();
}

static void sides(pbt::Case& c, size_t& a, size_t& b, size_t lo) {          // rows and columns: small, one side long, or both
    a = c.small(0, lo); b = c.small(0, lo); if (!c.chance(1, 6)) return;
    if (c.chance(1, 10)) { a = c.usize(150, 700); b = c.usize(1, 8); if (c.flip()) std::swap(a, b); c.label("huge_matrix"); return; }
    switch (c.below(3)) { case 0: a = c.usize(lo, 150); break; case 1: b = c.usize(lo, 150); break; default: a = c.usize(lo, 70); b = c.usize(lo, 70); } c.label("large_matrix");
}
template <class T> void run(pbt::Case& c) {
    bool exact = c.flip(); size_t op = c.below(9); size_t big = c.chance(1, 60) ? 6000 : c.tier ? 400 : 120; c.label_if(big > 1000, "long_arrays");
    if (op < 4) {
        size_t n = c.small(0, big); auto a = values<T>(c, n, exact), b = values<T>(c, n, exact); T s = value<T>(c, exact);
        size_t al = c.below(op % 2 ? 2 : 4);             // 0 separate, 1 dst is src1, 2 dst is src2, 3 all the same
        c.note("op ", op, " n ", n, " alias ", al, " a ", pbt::show(a), " b ", pbt::show(b), " s ", s);
        if (al == 3) b = a;
        Buf<T> A(a), B(b), D(n); T *pa = A.get(), *pb = al == 3 ? A.get() : B.get(), *pd = al == 0 ? D.get() : al == 2 ? pb : pa;
        T* r = op == 0 ? DLMath::arr_mul<T>(pd, pa, pb, n) : op == 1 ? DLMath::arr_mul<T>(pd, pa, s, n) : op == 2 ? DLMath::arr_sum<T>(pd, pa, pb, n) : DLMath::arr_sum<T>(pd, pa, s, n);
        CHECK(c, r == pd, "the destination is returned");
        for (size_t i = 0; i < n; ++i) {
            T o = op % 2 ? s : b[i]; T w = op < 2 ? T(a[i] * o) : T(a[i] + o);
            CHECK_EQ(c, pd[i], w, "element", i);
        }
        if (pd != pa) CHECK_EQ(c, A.vec(), a, "first operand changed"); if (pd != pb) CHECK_EQ(c, B.vec(), b, "second operand changed");
        c.label(op < 2 ? "product" : "sum"); c.label_if(al, "aliased"); c.label_if(n == 0, "empty"); c.nontrivial(n >= 2);
    } else if (op == 4) {
        size_t rows, cols; sides(c, rows, cols, 24); auto m = values<T>(c, rows * cols, exact), x = values<T>(c, cols, exact);
        c.note("matrix ", rows, "x", cols, " ", pbt::show(m), " vector ", pbt::show(x));
        Buf<T> M(m), X(x), D(values<T>(c, rows, exact)); bool nc = c.flip();
        T* r = nc ? DLMath::matarr_mul_no_check<T>(D.get(), M.get(), X.get(), rows, cols) : DLMath::matarr_mul<T>(D.get(), M.get(), X.get(), rows, cols);
        CHECK(c, r == D.get());
        for (size_t i = 0; i < rows; ++i) { long double w = 0, g = 0; for (size_t j = 0; j < cols; ++j) { long double t = static_cast<long double>(m[i * cols + j]) * static_cast<long double>(x[j]); w += t; g += std::fabs(t); }
            CHECK(c, close<T>(D.p[i], w, g), "row", i, "got", D.p[i], "want", double(w)); }
        CHECK_EQ(c, M.vec(), m); CHECK_EQ(c, X.vec(), x);
        if (rows == cols && rows) { bool threw = false; Buf<T> Y(x); try { DLMath::matarr_mul<T>(Y.get(), M.get(), Y.get(), rows, cols); } catch (const std::exception&) { threw = true; }
            CHECK(c, threw, "a destination that is the vector operand is rejected"); CHECK_EQ(c, Y.vec(), x); c.label("alias_rejected"); }
        c.label("matrix"); c.nontrivial(rows * cols >= 2);
    } else if (op == 5) {
        size_t n = c.small(1, big); auto a = values<T>(c, n, exact); if (c.chance(1, 3)) for (auto& x : a) x = -std::abs(x) - 1;
        c.note("extrema of ", pbt::show(a)); Buf<T> A(a);
        size_t k = 0; for (size_t i = 1; i < n; ++i) if (a[i] > a[k]) k = i;
        CHECK_EQ(c, DLMath::max<T>(A.get(), n), a[k]); CHECK_EQ(c, size_t(DLMath::argmax<T>(A.get(), n)), k, "first position of the maximum");
        auto both = DLMath::max_and_argmax<T>(A.get(), n); CHECK_EQ(c, T(std::get<0>(both)), a[k]); CHECK_EQ(c, size_t(std::get<1>(both)), k);
        CHECK_EQ(c, A.vec(), a); c.label("extremum"); size_t same = 0; for (auto x : a) same += x == a[k]; c.label_if(same > 1, "tie"); c.nontrivial(n >= 2);
    } else if (op == 6) {
        size_t n = c.small(0, 40); std::vector<T> a(n); for (auto& x : a) x = static_cast<T>(c.range(0, 12)); T e = static_cast<T>(c.range(0, 12));
        c.note("search ", e, " in ", pbt::show(a)); int64_t w = -1; for (size_t i = n; i-- > 0;) if (a[i] == e) w = int64_t(i);
        CHECK_EQ(c, int64_t(DLMath::index_of<T>(a, e)), w); c.label(w < 0 ? "not_found" : "found"); c.nontrivial(n >= 2);
    } else {
        size_t in, out; sides(c, in, out, 20);
        auto w = values<T>(c, in * out, exact), b = values<T>(c, out, exact), x = values<T>(c, in, exact), g = values<T>(c, out, exact);
        c.note("kernel ", in, "->", out, " w ", pbt::show(w), " b ", pbt::show(b), " x ", pbt::show(x), " g ", pbt::show(g));
        Buf<T> W(w), B(b), X(x), G(g);
        if (op == 7) {
            Buf<T> D(values<T>(c, out, exact)); bool simd = std::is_same<T, double>::value && c.flip(); T* r;
            if constexpr (std::is_same<T, double>::value) r = simd ? DLMath::dense_simd_opt(D.get(), X.get(), W.get(), B.get(), in, out) : DLMath::dense<T>(D.get(), X.get(), W.get(), B.get(), in, out);
            else r = DLMath::dense<T>(D.get(), X.get(), W.get(), B.get(), in, out);
            CHECK(c, r == D.get()); c.label_if(simd, "simd");
            for (size_t i = 0; i < out; ++i) { long double s = b[i], m = std::fabs(static_cast<long double>(b[i])); for (size_t j = 0; j < in; ++j) { long double t = static_cast<long double>(w[i * in + j]) * static_cast<long double>(x[j]); s += t; m += std::fabs(t); }
                CHECK(c, close<T>(D.p[i], s, m), "output", i, "got", D.p[i], "want", double(s)); }
            c.label("dense");
        } else {
            auto wg = values<T>(c, in * out, exact), bg = values<T>(c, out, exact); Buf<T> WG(wg), BG(bg), IG(values<T>(c, in, exact));
            T* r = DLMath::dense_1<T>(IG.get(), WG.get(), BG.get(), G.get(), X.get(), W.get(), in, out); CHECK(c, r == IG.get());
            for (size_t j = 0; j < in; ++j) { long double s = 0, m = 0; for (size_t i = 0; i < out; ++i) { long double t = static_cast<long double>(w[i * in + j]) * static_cast<long double>(g[i]); s += t; m += std::fabs(t); }
                CHECK(c, close<T>(IG.p[j], s, m), "input gradient", j, "got", IG.p[j], "want", double(s)); }
            for (size_t i = 0; i < out; ++i) { CHECK(c, close<T>(BG.p[i], static_cast<long double>(bg[i]) + g[i], std::fabs(static_cast<long double>(bg[i])) + std::fabs(static_cast<long double>(g[i]))), "bias gradient", i);
                for (size_t j = 0; j < in; ++j) { long double t = static_cast<long double>(g[i]) * static_cast<long double>(x[j]); CHECK(c, close<T>(WG.p[i * in + j], wg[i * in + j] + t, std::fabs(static_cast<long double>(wg[i * in + j])) + std::fabs(t)), "weight gradient", i, j); } }
            c.label("dense_1");
        }
        CHECK_EQ(c, W.vec(), w); CHECK_EQ(c, B.vec(), b); CHECK_EQ(c, X.vec(), x); CHECK_EQ(c, G.vec(), g); c.nontrivial(in * out >= 2);
    }
}
void property(pbt::Case& c) {
    switch (c.weighted({4, 1, 1})) { case 0: run<double>(c); break; case 1: run<float>(c); c.label("float_type"); break; default: run<int>(c); c.label("int_type"); }
}

// Generators of MNIST and CIFAR files with known bytes (I01, I02, I03, D07).
#ifndef VERIF_IDX_GEN_HPP
#define VERIF_IDX_GEN_HPP
#include "pbt.hpp"
#include "parser/mnist.hpp"
#include "parser/cifar.hpp"
#include <filesystem>
#include <fstream>
#include <unistd.h>

using Bytes = std::vector<uint8_t>;

inline Bytes gen_pixels(pbt::Case& c, size_t n) {
    Bytes b(n); uint64_t s = c.below(1 << 16);
    switch (c.below(4)) {
        case 0: for (auto& x : b) x = static_cast<uint8_t>(pbt::Case::mix(s)); break;
        case 1: for (size_t i = 0; i < n; ++i) b[i] = static_cast<uint8_t>(i + s); break;
        case 2: std::fill(b.begin(), b.end(), static_cast<uint8_t>(s)); break;
        default: for (auto& x : b) { static const uint8_t e[] = {0, 255, 10, 13, 26, 128, 127, 1}; x = e[pbt::Case::mix(s) % 8]; } break;
    }
    return b;
}
inline std::string be32(uint32_t v) { std::string s; for (int i = 3; i >= 0; --i) s += static_cast<char>(v >> (8 * i)); return s; }

struct MnistFiles {
    std::vector<Bytes> images; Bytes labels;
    uint32_t imagic = 0x803, lmagic = 0x801, icount = 0, lcount = 0, rows = 28, cols = 28;
    size_t icut = SIZE_MAX, lcut = SIZE_MAX;    // truncate the file
    std::string ipath, lpath;
    std::string ibytes() const { std::string s = be32(imagic) + be32(icount) + be32(rows) + be32(cols); for (auto& i : images) s.append(i.begin(), i.end()); return s.substr(0, icut); }
    std::string lbytes() const { std::string s = be32(lmagic) + be32(lcount); s.append(labels.begin(), labels.end()); return s.substr(0, lcut); }
    void write() {
        std::string p = pbt::scratch() + "/m" + std::to_string(getpid());
        ipath = p + "i"; lpath = p + "l";
        std::ofstream(ipath, std::ios::binary | std::ios::trunc) << ibytes();
        std::ofstream(lpath, std::ios::binary | std::ios::trunc) << lbytes();
    }
};
inline MnistFiles gen_mnist(pbt::Case& c, size_t lo = 1, size_t hi = 12) {
    MnistFiles f;
    c.repeat(lo, hi, [&] { f.images.push_back(gen_pixels(c, 784)); f.labels.push_back(static_cast<uint8_t>(c.below(3) ? c.below(10) : c.below(256))); });
    f.icount = f.lcount = static_cast<uint32_t>(f.images.size());
    c.note(f.images.size(), " images, labels ", pbt::show(std::vector<int>(f.labels.begin(), f.labels.end())));
    return f;
}

// Text rendering: one line per pixel row, two equal glyphs per pixel, and glyph density non-decreasing in brightness
// (the glyph list below runs from the densest to the lightest, see the map in the code's documentation order).
// Brightness here is `v`; the same brightness always gets the same glyph, a brighter pixel never a glyph from the other side.
template <class I>
void check_text(pbt::Case& c, const I& image, const Bytes& bright, size_t side, int tol = 0) {
    static const std::string glyphs = "$@B%8&WM#*oahkbdpqwmZO0QLCJUYXzcvunxrjft/\\|()1{}[]?-_+~<>i!lI;:,\"^`'. ";
    std::string s = image; std::ostringstream os; os << image; CHECK_EQ(c, os.str(), s);
    std::vector<std::string> lines; std::string cur;
    for (char ch : s) { if (ch == '\n') { lines.push_back(cur); cur.clear(); } else cur += ch; }
    CHECK(c, cur.empty());
    std::vector<std::string> body; for (auto& l : lines) if (!l.empty()) body.push_back(l);
    CHECK_EQ(c, body.size(), side, "lines of the rendering");
    std::vector<std::pair<int, long>> seen;
    for (size_t i = 0; i < side; ++i) {
        CHECK_EQ(c, body[i].size(), 2 * side, "glyphs in line", i);
        for (size_t j = 0; j < side; ++j) {
            CHECK_EQ(c, int(body[i][2 * j]), int(body[i][2 * j + 1]));
            size_t g = glyphs.find(body[i][2 * j]); CHECK(c, g != std::string::npos, "unknown glyph");
            seen.emplace_back(int(bright[i * side + j]), static_cast<long>(g));
        }
    }
    std::sort(seen.begin(), seen.end());
    // `tol`: how much darker a pixel must be for its glyph to be compared (rounding of computed grey values).
    long dark = -1; size_t done = 0;
    for (size_t k = 0; k < seen.size(); ++k) {
        while (done < seen.size() && seen[done].first + tol <= seen[k].first && (tol > 0 || done <= k)) dark = std::max(dark, seen[done++].second);
        CHECK(c, seen[k].second >= dark, "a brighter pixel got an earlier glyph; brightness", seen[k].first);
    }
    // The scale is used in full: darkest and brightest values get the two ends.
    if (seen.front().first == 0) CHECK(c, seen.front().second <= tol, "darkest glyph");
    if (seen.back().first == 255) CHECK(c, seen.back().second >= static_cast<long>(glyphs.size()) - 3, "brightest glyph", seen.back().second);
    // A large difference in brightness is visible.
    for (size_t k = 1; k < seen.size(); ++k) if (seen[k].first - seen[0].first >= 16) CHECK(c, seen[k].second > seen[0].second, "no visible difference");
}

struct CifarFile {
    bool hundred = false; EdgeLearning::CifarShapeOrder order = EdgeLearning::CifarShapeOrder::CHN_ROW_COL;
    std::vector<Bytes> images; Bytes coarse, fine; std::vector<std::string> cnames, fnames;
    std::string path, cpath, fpath; size_t tail = 0;
    std::string bytes() const {
        std::string s;
        for (size_t i = 0; i < images.size(); ++i) { s += static_cast<char>(coarse[i]); if (hundred) s += static_cast<char>(fine[i]); s.append(images[i].begin(), images[i].end()); }
        if (tail) s.append(tail, '\x5a');
        return s;
    }
    double pixel(size_t i, size_t k) const {   // k-th value of image i in the requested order
        if (order == EdgeLearning::CifarShapeOrder::CHN_ROW_COL) return images[i][k];
        return images[i][(k % 3) * 1024 + k / 3];
    }
};
#endif

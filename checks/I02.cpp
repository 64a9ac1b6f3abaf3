// I02: malformed MNIST files are rejected; damage stays local.
#include "idx_gen.hpp"
using namespace EdgeLearning;
const char* const PBT_RULE = "A file pair with one fault (wrong magic, cut header, missing file, count or shape mismatch, cut body, over-declared count) or none, "
    "and, if it opens, a history of accesses to present and missing entries. Non-trivial: a fault was present and the outcome was checked.";

void property(pbt::Case& c) {
    MnistFiles f = gen_mnist(c, 1, 8);
    size_t n = f.images.size();
    bool reject = false, zero = false;
    size_t kind = c.below(13);
    switch (kind) {
        case 0: { uint32_t d = c.flip() ? 1u << c.below(32) : 1u + static_cast<uint32_t>(c.below(0xffffffffu)); f.imagic ^= d; reject = true; break; }
        case 1: { uint32_t d = c.flip() ? 1u << c.below(32) : 1u + static_cast<uint32_t>(c.below(0xffffffffu)); f.lmagic ^= d; reject = true; break; }
        case 2: f.icut = c.below(16); reject = true; break;
        case 3: f.lcut = c.below(8); reject = true; break;
        case 4: f.lcount += c.flip() ? 1 + static_cast<uint32_t>(c.below(3)) : 1u << c.below(32); if (c.flip()) std::swap(f.icount, f.lcount); reject = true; break;
        case 5: { uint32_t v = c.flip() ? static_cast<uint32_t>(c.below(28)) : 29 + static_cast<uint32_t>(c.below(1000)); switch (c.below(4)) { case 0: f.rows = f.cols = v; break;
                    case 1: { static const uint32_t d[] = {1, 2, 4, 7, 8, 14, 16, 49, 56, 98, 112, 196, 392, 784}; f.rows = c.pick(std::vector<uint32_t>(d, d + 14)); f.cols = 784 / f.rows; c.label("shape_same_size"); break; }
                    case 2: (c.flip() ? f.rows : f.cols) ^= 1u << c.below(32); if (c.flip()) (c.flip() ? f.rows : f.cols) ^= v & 0xffff0000u; if (f.rows == 28 && f.cols == 28) f.rows = v; break;
                    default: (c.flip() ? f.rows : f.cols) = v; break; } reject = true; break; }
        case 12: if (c.flip()) std::swap(f.imagic, f.lmagic); else (c.flip() ? f.imagic : f.lmagic) = c.flip() ? 0x803 ^ 0x801 ^ f.imagic : f.imagic == 0x803 ? 0x01080000u : 0; reject = f.imagic != 0x803 || f.lmagic != 0x801; break;
        case 6: case 7: reject = true; break;                       // missing file, below
        case 8: f.icut = 16 + c.below(n * 784); break;              // image body cut
        case 9: f.lcut = 8 + c.below(n); break;                     // label body cut
        case 10: f.icount = f.lcount = static_cast<uint32_t>(n + 1 + c.below(c.flip() ? 5 : 100000)); if (c.chance(1, 3)) { f.icount = f.lcount = c.flip() ? (1u << c.usize(16, 31)) + uint32_t(c.below(20)) : 0xffffffffu - uint32_t(c.below(20)); c.label("huge_count"); } break;
        default: if (c.chance(1, 4)) { f.icount = f.lcount = 0; zero = true; if (c.flip()) { f.lcut = c.below(8); reject = true; } } break;
    }
    f.write();
    std::string ip = f.ipath, lp = f.lpath;
    if (kind == 6) { ip += c.flip() ? "_none" : "/none"; } 
    if (kind == 7) { lp += c.flip() ? "_none" : "/none"; }
    if ((kind == 6 || kind == 7) && c.chance(1, 4)) { (kind == 6 ? ip : lp) = pbt::scratch(); c.label("directory"); }
    static const char* names[] = {"image_magic", "label_magic", "image_header_cut", "label_header_cut", "counts", "shape", "no_image_file", "no_label_file", "image_body_cut", "label_body_cut", "over_declared", "well_formed", "magic_of_the_other"};
    c.label(names[kind]); c.note("fault: ", names[kind], " image cut ", f.icut, " label cut ", f.lcut, " counts ", f.icount, "/", f.lcount);
    std::unique_ptr<Mnist> m; bool threw = false;
    // Stale stack contents must not make up for missing header bytes.
    volatile uint32_t junk[64]; for (size_t i = 0; i < 64; ++i) junk[i] = i % 2 ? 0x03080000u : 0x1c000000u; (void) junk[3];
    try { m = std::make_unique<Mnist>(ip, lp); } catch (const std::exception&) { threw = true; }
    CHECK_EQ(c, threw, reject);
    c.nontrivial(kind != 11 || zero);
    if (!m) return;
    CHECK_EQ(c, m->size(), size_t(f.icount));
    size_t pi = std::min(n, f.icut == SIZE_MAX ? n : (f.icut - 16) / 784), pl = std::min(n, f.lcut == SIZE_MAX ? n : f.lcut - 8);
    if (zero) { // no entry at all: any access is an error, never a crash
        bool t = false; try { (void) m->image(c.below(3)); } catch (const std::exception&) { t = true; } CHECK(c, t);
        t = false; try { (void) m->label(c.below(3)); } catch (const std::exception&) { t = true; } CHECK(c, t);
        return;
    }
    size_t missing_seen = 0, good_after = 0;
    c.repeat(1, 14, [&] {
        size_t i = c.below(3) ? c.below(std::min<size_t>(f.icount, n + 2)) : c.below(f.icount);
        c.note("access ", i);
        bool want_i = c.flip();
        try {
            if (want_i || c.chance(1, 4)) { auto x = m->image(i); if (i < pi) { CHECK(c, x.data() == f.images[i], "image", i); good_after += missing_seen > 0; } }
            if (!want_i) { auto x = m->label(i); if (i < pl) { CHECK_EQ(c, int(x.data()), int(f.labels[i]), "label", i); good_after += missing_seen > 0; } }
            if (c.chance(1, 6)) { auto e = m->entry(i); if (i < pi && i < pl) { CHECK_EQ(c, e.size(), size_t(785)); for (size_t k = 0; k < 784; ++k) CHECK_EQ(c, e[k], double(f.images[i][k])); CHECK_EQ(c, e[784], double(f.labels[i])); } }
        } catch (const std::exception& e) { if (i < pi && i < pl) c.fail(std::string("present entry rejected: ") + e.what()); }
        if (i >= pi || i >= pl) ++missing_seen;
    });
    c.label_if(good_after > 0, "present_after_missing");
}

// Compression is lossless and decompression is safe.
#include "zipref.h"
#include "zip.h"
// a writer of bits, for streams built by hand
struct Bits { Str s; unsigned n = 0; void put(unsigned v, unsigned k) { for (unsigned i = 0; i < k; i++) { if (n % 8 == 0) s.push_back('\0'); s.back() |= (char)((i < 32 ? v >> i & 1 : 0) << n % 8); n++; } } };
static void round_trip(const Str &s) { Str a = s, c = npy::npy_deflate(std::move(a)), raw; size_t used = 0; vp_check(ref_inflate(c, raw, &used, s.size() + 1) == 0 && used == c.size(), "a complete DEFLATE stream"); vp_check(raw == s, "the stream stands for the original bytes"); vp_check(npy::npy_inflate(std::move(c)) == s, "decompressing gives back the original bytes"); }
// whatever the bytes: the result the format defines, or an exception
static void decode(const Str &c, size_t lim = 1 << 20) {
  Str strict, lax; int rs = ref_inflate(c, strict, 0, lim), rl = ref_inflate(c, lax, 0, lim, true); if (rs == 3 || rl == 3) { vp_end(); }
  vp_heap_limit((1 << 20) + 4096); // the result fits, so asking for more is running away
  Str got, d = c; int o = outcome([&] { got = npy::npy_inflate(std::move(d)); }); vp_check(!vp_heap_denied(), "decompressing short bytes ends"); vp_check(o != OTHER, "only standard exceptions are thrown");
  if (rs == 0) vp_check(o == 0 && got == strict, "a valid stream gives the bytes it stands for"); else if (o == 0) { vp_check(rl == 0, "no result for an invalid or incomplete stream"); vp_check(got == lax, "the result the format defines"); }
  vp_reach(rs == 0 ? "valid" : rs == 1 ? "incomplete" : "invalid"); observe("outcome", o); observe("size", got.size());
}
static Str filler(unsigned kind, size_t n) { Str s(n, 'a'); std::uint32_t x = 12345; if (kind == 1) for (size_t i = 0; i < n; i++) { x = x * 1664525 + 1013904223; s[i] = (char)(x >> 24); } else if (kind == 2) for (size_t i = 0; i < n; i++) s[i] = (char)("the quick brown fox "[i % 20] + (i / 20 % 7 == 3)); else if (kind == 3) for (size_t i = 0; i < n; i++) { x = x * 1664525 + 1013904223; s[i] = (char)(x >> 30); } return s; }
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0);
  if (mode == 0) { // any short bytes
    size_t n = vp_choose(vp_param("n", 4) + 1, "n"); Str s(n, '\0'); if (n) vp_sym(&s[0], n, "data"); round_trip(s); vp_reach("short");
  } else if (mode == 1) { // free bytes within bytes that repeat, or do not
    size_t n = vp_param("n", 40), w = vp_param("w", 1); Str s = filler(vp_param("kind", 2), n); size_t st = vp_param("step", 1), at = st * vp_choose((n - w) / st + 1, "at"); vp_sym(&s[at], w, "data"); round_trip(s); vp_reach("within");
  } else if (mode == 2) { // lengths around those of the internal buffers
    static const size_t B[13] = {257, 32768, 65535, 65536, 1 << 20, 2 << 20, 3 << 20, 4096, 31744, 98304, 131072, 85196, 33025}; size_t n = B[vp_param("base", 0)] - 2 + (vp_param("d", -1) >= 0 ? (size_t)vp_param("d", 0) : vp_choose(5, "length")); Str s = filler(vp_param("kind", 0), n); round_trip(s); vp_reach("around");
  } else if (mode == 3) { // any bytes
    size_t n = vp_param("n", 2); Str c(n, '\0'); if (n) vp_sym(&c[0], n, "bytes"); decode(c);
  } else if (mode == 4) { // a compressed stream with a window of any bytes, then cut
    Str c; unsigned k = vp_param("k", 0); if (k == 0) c = ref_deflate_fixed(Str("abcabcabcd")); else if (k == 1) c = ref_deflate_stored(Str("abcd")); else { Str s = k == 2 ? filler(2, 60) : filler(3, 90); c = npy::npy_deflate(std::move(s)); }
    size_t w = vp_param("w", 1), st = vp_param("step", 1), lo = vp_param("lo", 0), hi = vp_param("hi", 1000); if (hi > c.size() - w + 1) hi = c.size() - w + 1; if (lo >= hi) vp_end(); size_t at = lo + st * vp_choose((hi - lo + st - 1) / st, "at"); vp_sym(&c[at], w, "bytes"); if (vp_param("cut", 0)) c.resize(c.size() - vp_choose(vp_param("cut", 0), "cut")); decode(c);
  } else if (mode == 5) { // a block of the fixed codes: literals, then the codes above 279, or a length with any distance code, then anything
    Bits b; b.put(3, 3); for (unsigned i = 0; i < vp_param("lits", 2); i++) b.put(0x0c | 0x80, 8); unsigned k = vp_param("bits", 3); if (vp_param("sub", 0)) { b.put(0x40, 7); } else b.put(3, 5);
    unsigned char x[4]; vp_sym(x, 4, "codes"); for (unsigned i = 0; i < k; i++) b.put(x[i / 8] >> i % 8 & 1, 1); b.put(0, vp_param("tail", 19)); for (unsigned i = 0; i < vp_param("more", 0); i++) b.put(0x0c | 0x80, 8); b.put(0, 7); decode(b.s);
  } else if (mode == 7) { // a match at the end of the window: n stored bytes that do not repeat, then a length and a distance
    static const unsigned short LB[29] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}, DB[30] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577};
    static const unsigned short L[10] = {3, 4, 5, 8, 9, 10, 11, 17, 257, 258}, D[12] = {1, 2, 3, 7, 8, 9, 255, 258, 259, 4096, 32767, 32768};
    size_t n = (size_t)vp_param("base", 32768) - vp_choose(vp_param("count", 4), "before") * vp_param("step", 1); unsigned len = L[vp_choose(10, "length")], dist = D[vp_choose(12, "distance")]; if (dist > n) vp_end();
    Bits b; Str f = filler(1, n); for (size_t o = 0; o < n;) { size_t k = n - o < 65535 ? n - o : 65535; b.put(0, 3); while (b.n % 8) b.put(0, 1); b.put((unsigned)k, 16); b.put((unsigned)k ^ 0xffff, 16); b.s += f.substr(o, k); o += k; }
    auto code = [&](unsigned v, unsigned k) { for (unsigned i = k; i--;) b.put(v >> i & 1, 1); };
    b.put(3, 3); unsigned ls = 28; while (LB[ls] > len) ls--; unsigned le = ls < 8 || ls == 28 ? 0 : (ls - 4) / 4, sy = 257 + ls; if (sy < 280) code(sy - 256, 7); else code(sy - 280 + 0xc0, 8); b.put(len - LB[ls], le);
    unsigned ds = 29; while (DB[ds] > dist) ds--; unsigned de = ds < 4 ? 0 : (ds - 2) / 2; code(ds, 5); b.put(dist - DB[ds], de);
    code(0x30 + 'x', 8); code(0, 7); decode(b.s); Str want = f; for (unsigned i = 0; i < len; i++) want.push_back(want[want.size() - dist]); want.push_back('x'); vp_check(npy::npy_inflate(Str(b.s)) == want, "a match at the end of the window"); vp_reach("window");
  } else if (mode == 6) { // a block with its own codes: any lengths for a few symbols
    static const unsigned short sym[4] = {97, 256, 257, 285}; unsigned char len[288 + 32] = {0}; unsigned nl = 286, nd = vp_param("nd", 1), m = vp_param("syms", 2); std::uint32_t x;
    for (unsigned i = 0; i < m; i++) len[sym[i]] = (unsigned char)vp_choose(4, "length"); for (unsigned i = 0; i < nd; i++) len[nl + i] = (unsigned char)vp_choose(3, "distance");
    Bits b; b.put(1, 1); b.put(2, 2); b.put(nl - 257, 5); b.put(nd - 1, 5); b.put(15, 4); static const unsigned char ord[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}; for (unsigned i = 0; i < 19; i++) b.put(ord[i] < 16 ? 4 : 0, 3);
    for (unsigned i = 0; i < nl + nd; i++) { unsigned v = len[i], r = (v & 1) << 3 | (v & 2) << 1 | (v & 4) >> 1 | v >> 3; b.put(r, 4); }
    unsigned k = vp_param("bits", 8); x = (std::uint32_t)vp_range(0, ((std::uint64_t)1 << k) - 1, "codes"); b.put(x, k); b.put(0, vp_param("tail", 0)); decode(b.s);
  }
}

// The checksum is the ZIP CRC-32.
#include "zipref.h"
#include "miniz/miniz.h"
#include "zip.h"
static std::uint32_t upd(std::uint32_t crc, const Str &s) { std::uint32_t c = ~crc; for (unsigned char b : s) { c ^= b; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1))); } return ~c; }
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0);
  if (mode == 0) { // whole sequences
    size_t n = vp_choose(vp_param("n", 40) + 1, "n"); Str s(n, '\0'); if (n) vp_sym(&s[0], n, "data"); std::uint32_t c = npy::npy_crc32(s); vp_check(c == ref_crc(s), "the checksum is the CRC-32 of the bytes"); observe("crc", c); vp_reach("sequences");
  } else if (mode == 1) { // from every state, so for every length by induction
    std::uint32_t st; vp_sym(&st, 4, "state"); size_t n = vp_choose(vp_param("n", 9), "n"); Str s(n, '\0'); if (n) vp_sym(&s[0], n, "data");
    std::uint32_t c = (std::uint32_t)mz_crc32(st, (const unsigned char *)s.data(), n); vp_check(c == upd(st, s), "every state and next bytes give the next state"); vp_check(mz_crc32(0, nullptr, 0) == 0, "the initial state"); observe("crc", c); vp_reach("states");
  } else if (mode == 2) { // long sequences with a symbolic part anywhere (around the sizes of internal buffers and loop unrollings)
    static const size_t L[8] = {63, 127, 255, 256, 1000, 4095, 4097, 65537}; size_t n = L[vp_choose(8, "length")]; Str s(n, '\0'); for (size_t i = 0; i < n; i++) s[i] = (char)(i * 7 ^ i >> 8); size_t at[4] = {n < 300 ? 0 : n - 300, n < 300 ? n / 2 : n - 70, n - 9, n - 3}; size_t k = vp_choose(4, "at"), w = k == 3 ? 3 : k == 0 ? 4 : 9; vp_sym(&s[at[k]], w, "data"); vp_check(npy::npy_crc32(s) == ref_crc(s), "the checksum is the CRC-32 of the bytes"); vp_reach("long");
  } else if (mode == 4) { // every length, ending in two free bytes
    size_t lo = vp_param("lo", 2), hi = vp_param("hi", 1100), st = vp_param("step", 1); unsigned char e[2]; vp_sym(e, 2, "end"); std::uint32_t c = ref_crc(Str(lo - 2, 'q')); for (size_t n = lo; n < hi; n++) { if ((n - lo) % st == 0) { Str s(n, 'q'); s[n - 2] = (char)e[0]; s[n - 1] = (char)e[1]; vp_check(npy::npy_crc32(s) == upd(c, s.substr(n - 2)), "the checksum is the CRC-32 of the bytes"); } c = upd(c, "q"); } vp_reach("lengths");
  } else if (mode == 5) { // lengths at and around powers of two
    size_t k = vp_param("k", 16), n = ((size_t)1 << k) - 2 + vp_choose(5, "length"); Str s(n, 'z'); vp_sym(&s[n - 2], 2, "end"); vp_check(npy::npy_crc32(s) == ref_crc(s), "the checksum is the CRC-32 of the bytes"); vp_reach("powers");
  } else { // corruption confined to 32 consecutive bits is detected
    size_t n = vp_param("n", 12); Str s(n, '\0'); vp_sym(&s[0], n, "data"); Str t = s; size_t bit = vp_choose(8 * n - 31, "bit"); std::uint32_t x; vp_sym(&x, 4, "burst"); vp_assume(x != 0); for (int k = 0; k < 32; k++) t[(bit + k) / 8] ^= (char)((x >> k & 1) << (bit + k) % 8);
    vp_check(npy::npy_crc32(s) != npy::npy_crc32(t), "a burst of up to 32 bits changes the checksum"); vp_reach("bursts");
  }
}

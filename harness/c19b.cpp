// vp: stubs (the byte-wise checksum)
// The checksum of an entry of any size covers exactly its bytes, in order.
#include "common.h"
#include "zip.h"
static const char *g_next, *g_first; static unsigned long g_left, g_calls, g_crc;
extern "C" unsigned long mz_crc32(unsigned long crc, const unsigned char *p, size_t n) {
  if (!p) return 0; // the initial value
  if (!g_calls) { vp_check((const char *)p == g_first, "the checksum begins with the first byte"); vp_check(crc == 0, "the checksum begins with its initial value"); } else { vp_check((const char *)p == g_next, "the checksum goes on where it was"); vp_check(crc == g_crc, "the checksum goes on with the state it had"); }
  vp_check(n <= g_left, "no byte beyond the end"); g_left -= n; g_next = (const char *)p + n; return g_crc = 0x1000 + ++g_calls;
}
extern "C" void vp_harness() {
  unsigned long n; vp_sym(&n, 8, "size"); vp_assume(n < (1ul << 33)); std::string s; s.reserve(1ul << 33); g_first = s.data(); g_left = n; std::memcpy((char *)&s + 8, &n, 8);
  std::uint32_t c = npy::npy_crc32(s); std::memset((char *)&s + 8, 0, 8); vp_check(g_left == 0, "every byte is covered"); vp_check(c == (n ? g_crc : 0) || (n == 0 && c == g_crc), "the result is that of the whole"); vp_reach("checksum");
}

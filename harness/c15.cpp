// Reading an entry does not depend on what was read before.
#include "zipref.h"
template <class T> using TT = npy::tensor<T>;
static const char *const NAME[6] = {"a", "b.npy", "c", "d", "zz", ""};
template <class T> static Str dump(const TT<T> &t) { Str s = "tensor"; for (size_t d : t.shape()) s += "," + num(d); s += t.fortran_order() ? "F" : "C"; s += Str((const char *)t.data(), t.size() * sizeof(T)); return s; }
enum { NN = 5, NK = 5 };
// what one operation gives, as text
template <class R> static Str op(R &r, unsigned name, unsigned kind) {
  Str res; Str n = NAME[name];
  int o = outcome([&] {
    switch (kind) {
    case 0: res = dump(r.template read<TT<std::uint8_t>>(n)); break;
    case 1: res = dump(r.template read<std::int16_t, npy::tensor>(n)); break;
    case 2: { npy::header_info h = r.peek(n); res = "header " + num((size_t)h.dtype) + " " + num((size_t)h.endianness) + (h.fortran_order ? "F" : "C"); for (size_t d : h.shape) res += "," + num(d); break; }
    case 3: res = r.contains(n) ? "yes" : "no"; break;
    default: for (const Str &k : r.keys()) res += k + "|"; break;
    }
  });
  return Str(1, (char)('0' + o)) + res;
}
extern "C" void vp_harness() {
  bool file = vp_param("file", 0); unsigned steps = vp_param("n", 2), dmg = vp_param("d", 0); int first = (int)vp_param("first", -1);
  Str p(3, '\0'), q(4, '\0'), d(3, '\0'); vp_sym(&p[0], 3, "a"); vp_sym(&q[0], 4, "b"); vp_sym(&d[0], 3, "d");
  Str ha = small_npy(p), hb = ref_header(ref_dict(">i2", true, "(2, 1)"), 1, 0) + q, hc = ref_header(ref_dict("<i2", false, "(3,)"), 1, 0) + Str("\1\1\1\1\1\1", 6), hd = small_npy(d);
  if (dmg == 5) hd[0] = 'X'; else if (dmg == 6) hd.resize(hd.size() - 1); else if (dmg == 7) hd[hd.size() - 5] = 'x';
  std::vector<ZE> es = {z_stored("a.npy", ha), z_fixed("c.npy", hc), z_stored("b.npy", hb)};
  ZE e = dmg == 4 ? z_fixed("d.npy", hc) : dmg == 8 ? z_deflated("d.npy", hd) : z_stored("d.npy", hd); if (dmg == 4) e.data[0] = 7; if (dmg == 8) e.data[0] = 0; es.insert(es.begin() + vp_param("at", 3), e);
  size_t at = vp_param("at", 3); Zip z = z_build(es); Str &s = z.bytes; size_t cd = z.cd; for (size_t i = 0; i < at; i++) cd += 46 + 5;
  switch (dmg) {
  case 0: { unsigned char x; vp_sym(&x, 1, "x"); vp_assume(x != (unsigned char)s[z.data[at] + hd.size() - 2]); s[z.data[at] + hd.size() - 2] = (char)x; break; }   // checksum
  case 1: { unsigned char x; vp_sym(&x, 1, "x"); vp_assume(x != 3); s[z.local[at] + 2] = (char)x; break; }                                                             // signature
  case 2: s[cd + 42 + 3] = 1; break;                                                                                                                                  // offset beyond the end
  case 3: for (size_t f : {cd + 20, cd + 24, z.local[at] + 18, z.local[at] + 22}) { s[f] = (char)0x80; s[f + 1] = 1; } break;                                                                 // longer than the file
  case 9: { unsigned char x; vp_sym(&x, 1, "x"); vp_assume(x != 'd'); s[z.local[at] + 30] = (char)x; break; }                                                          // local name differs
  default: break;
  }
  const char *path = vp_path("a.npz"); if (file) put_file(path, s);
  auto fresh = [&](unsigned n, unsigned k) { if (file) { npy::npzfilereader r(path); return op(r, n, k); } npy::npzstringreader r(s); return op(r, n, k); };
  auto go = [&](auto &r) {
    bool failed = false;
    for (unsigned i = 0; i < steps; i++) {
      unsigned x = i == 0 && first >= 0 ? (unsigned)first : vp_choose((NN * (NK - 1)) + 1, "op"), n = x / (NK - 1), k = x == NN * (NK - 1) ? NK - 1 : x % (NK - 1); if (k == NK - 1) n = 0;
      Str a = op(r, n, k), b = fresh(n, k); vp_check(a == b, "the same result as on a fresh reader"); vp_check(a[0] != '0' + OTHER, "only standard exceptions are thrown");
      if (a[0] == '0' && failed && k < 3) vp_reach("read after failure"); if (a[0] != '0') failed = true; observe("result", a);
    }
  };
  if (file) { npy::npzfilereader r(path); go(r); } else { npy::npzstringreader r(s); go(r); }
  vp_reach("history");
}

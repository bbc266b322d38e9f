// A damaged NPZ archive never yields wrong data.
#include "zipref.h"
typedef npy::tensor<std::uint8_t> U8;
struct Base { Zip z; std::vector<Str> names, pay; };
static Base base(unsigned k, bool sym) {
  Base b; std::vector<ZE> es; auto add = [&](const Str &n, size_t len, bool defl) { Str p(len, '\0'); for (size_t i = 0; i < len; i++) p[i] = (char)(i * 3 + 1); if (sym && len) vp_sym(&p[0], len, "payload"); b.names.push_back(n); b.pay.push_back(p); es.push_back(defl ? z_deflated(n, small_npy(p)) : z_stored(n, small_npy(p))); };
  if (k == 0) { add("a.npy", 3, false); add("b.npy", 2, false); }
  else if (k == 1) { // compressed by the library itself
    npy::npzstringwriter w(CM::DEFLATED); for (int i = 0; i < 2; i++) { U8 t(Shape{size_t(4 + i)}); for (size_t j = 0; j < t.size(); j++) t.data()[j] = (unsigned char)(j * j + i); w.write(i ? "b" : "a", t); b.names.push_back(i ? "b.npy" : "a.npy"); b.pay.push_back(Str((char *)t.data(), t.size())); } w.close();
    b.z.bytes = w.str(); Str &s = b.z.bytes; b.z.end = s.size() - 22; b.z.cd = get_le(s, b.z.end + 16, 4); b.z.local = {0}; size_t q = 30 + 5; b.z.data = {q}; q += get_le(s, 18, 4); b.z.local.push_back(q); b.z.data.push_back(q + 35); return b;
  } else if (k == 2) { add("a.npy", 2, false); es[0].lz64 = es[0].cz64_sizes = es[0].cz64_off = true; es[0].comment = "hi"; es[0].lextra_after = Str("\7\0\2\0xy", 6); es[0].cextra_before = es[0].lextra_after; }
  else if (k == 4) { Str p = "\1\1\1\1\1\7"; b.names.push_back("a.npy"); b.pay.push_back(p); es.push_back(z_fixed("a.npy", small_npy(p))); }
  else { add("a.npy", 3, true); add("b.npy", 0, false); }
  b.z = z_build(es); return b;
}
static void read_all(const Str &s, const Base &b, bool file, bool strict, int affected) {
  const char *p = vp_path("a.npz"); if (file) put_file(p, s);
  auto go = [&](auto &r) {
    for (size_t i = 0; i < b.names.size(); i++) {
      int o = outcome([&] { U8 t = r.template read<U8>(b.names[i]); vp_check(t.shape() == Shape{b.pay[i].size()} && Str((char *)t.data(), t.size()) == b.pay[i], "whatever is returned is what was stored"); vp_check(!(strict && (int)i == affected), "damage to the entry is noticed"); vp_reach("returned"); });
      vp_check(o != OTHER, "only standard exceptions are thrown"); if (o) vp_reach("refused");
      o = outcome([&] { npy::header_info h = r.peek(b.names[i]); vp_check(h.dtype == DT::UINT8 && h.shape == Shape{b.pay[i].size()}, "peek returns what was stored"); }); vp_check(o != OTHER, "only standard exceptions are thrown");
    }
  };
  int o = outcome([&] { if (file) { npy::npzfilereader r(p); go(r); } else { npy::npzstringreader r(s); go(r); } }); vp_check(o != OTHER, "only standard exceptions are thrown"); if (o) vp_reach("not opened");
}
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0), k = vp_param("k", 0); bool file = vp_param("file", 0);
  if (mode == 0) { // any change of one byte anywhere
    Base b = base(k, false); Str s = b.z.bytes; size_t parts = vp_param("parts", 4), part = vp_param("part", 0), n = s.size(), lo = n * part / parts, hi = n * (part + 1) / parts; size_t step = vp_param("step", 1), at = lo + step * vp_choose((hi - lo + step - 1) / step, "at"); unsigned char v; vp_sym(&v, 1, "byte"); vp_assume(v != (unsigned char)s[at]); s[at] = (char)v;
    int aff = -1; for (size_t i = 0; i < b.z.data.size(); i++) { size_t e = i + 1 < b.z.local.size() ? b.z.local[i + 1] : b.z.cd; if (at >= b.z.data[i] && at < e) aff = (int)i; }
    vp_heap_limit(64 << 20); read_all(s, b, file, k == 0, aff);
  } else if (mode == 1) { // cut short anywhere
    Base b = base(k, true); Str s = b.z.bytes; size_t cut = vp_choose(s.size(), "cut"); s.resize(cut); int o = outcome([&] { if (file) { const char *p = vp_path("a.npz"); put_file(p, s); npy::npzfilereader r(p); } else npy::npzstringreader r(s); }); vp_check(o != OK_ && o != OTHER, "an archive cut short is refused with a standard exception"); vp_reach("cut");
  } else if (mode == 2) { // up to four adjacent bytes of a stored entry, its checksum or its size, whatever the contents
    Base b = base(k, true); Str s = b.z.bytes; size_t i = vp_choose(b.names.size(), "entry"), w = vp_param("w", 4), lo, len; unsigned f = vp_param("field", 0); size_t cd = b.z.cd; for (size_t j = 0; j < i; j++) cd += 46 + b.names[j].size();
    switch (f) {
    case 0: lo = b.z.data[i]; len = (i + 1 < b.z.local.size() ? b.z.local[i + 1] : b.z.cd) - lo; break; // contents
    case 1: lo = b.z.local[i] + 14; len = 4; break;   // CRC-32 in the local header
    case 2: lo = cd + 16; len = 4; break;             // CRC-32 in the directory
    case 3: lo = b.z.local[i] + 18; len = 8; break;   // sizes
    case 4: lo = cd + 20; len = 8; break;
    case 5: lo = b.z.local[i] + 30; len = 5; break;   // name
    case 6: lo = cd + 46; len = 5; break;
    default: lo = cd + 42; len = 4; break;            // offset
    }
    size_t at = lo + vp_choose(len - w + 1, "at"); Str old = s.substr(at, w); vp_sym(&s[at], w, "bytes"); vp_assume(s.substr(at, w) != old); vp_heap_limit(64 << 20); read_all(s, b, file, (k != 3 && k != 4) || f != 0, (int)i); vp_reach("adjacent");
  } else if (mode == 3) { // both copies of a field changed alike: only the data can tell
    Base b = base(0, true); Str s = b.z.bytes; size_t i = vp_choose(2, "entry"); size_t cd = b.z.cd; for (size_t j = 0; j < i; j++) cd += 46 + 5; unsigned f = vp_param("field", 0);
    if (f == 0) { std::uint32_t c; vp_sym(&c, 4, "crc"); vp_assume(c != get_le(s, cd + 16, 4)); for (int j = 0; j < 4; j++) s[b.z.local[i] + 14 + j] = s[cd + 16 + j] = (char)(c >> 8 * j); read_all(s, b, file, true, (int)i); }
    else if (f == 1) { unsigned char n; vp_sym(&n, 1, "size"); vp_assume(n != (unsigned char)s[cd + 20] && n >> 5 == vp_param("part", 0)); s[b.z.local[i] + 18] = s[cd + 20] = (char)n; s[b.z.local[i] + 22] = s[cd + 24] = (char)n; // the data taken is shorter or runs into what follows
      const char *p = vp_path("a.npz"); (void)p; npy::npzstringreader r(s); Str nm = b.names[i]; std::uint32_t crc = (std::uint32_t)get_le(s, cd + 16, 4); size_t av = s.size() - b.z.data[i]; Str taken = s.substr(b.z.data[i], n); taken.resize(n); (void)av; bool ok = ref_crc(taken) == crc;
      int o = outcome([&] { U8 t = r.read<U8>(nm); vp_check(ok, "data is returned only with the recorded checksum"); }); vp_check(o != OTHER, "only standard exceptions are thrown"); }
    else { unsigned char m; vp_sym(&m, 1, "method"); vp_assume(m != 0); s[b.z.local[i] + 8] = s[cd + 10] = (char)m; npy::npzstringreader r(s); int o = outcome([&] { U8 t = r.read<U8>(b.names[i]); vp_check(t.shape() == Shape{b.pay[i].size()} && Str((char *)t.data(), t.size()) == b.pay[i], "whatever is returned is what was stored"); }); vp_check(o != OTHER, "only standard exceptions are thrown"); }
    vp_reach("both");
  } else { // arbitrary bytes, or too few, are no archive
    size_t n = vp_choose(vp_param("n", 24), "n"); Str s(n, '\0'); if (n) vp_sym(&s[0], n, "bytes"); vp_assume(n < 22 || get_le(s, n - 14, 2) != 0 || get_le(s, n - 22, 4) != 0x06054b50); int o = outcome([&] { if (file) { const char *p = vp_path("a.npz"); put_file(p, s); npy::npzfilereader r(p); } else npy::npzstringreader r(s); }); vp_check(o != OK_ && o != OTHER, "arbitrary bytes are refused with a standard exception"); vp_reach("arbitrary");
  }
}

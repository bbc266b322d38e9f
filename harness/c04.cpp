// Malformed NPY input is refused.
#include "common.h"
static void agree(const npy::header_info &h, const RefHeader &r) {
  vp_check(h.dtype == (DT)r.t, "the type is the one in the header");
  if (r.t < NT && ISZ[r.t] > 1) vp_check(h.endianness == (r.big ? EN::BIG : EN::LITTLE), "the byte order is the one in the header");
  vp_check(h.fortran_order == r.fortran, "the storage order is the one in the header");
  vp_check(h.shape == r.shape, "the shape is the one in the header");
  vp_check(h.max_element_length == r.ulen, "the string length is the one in the header");
  observe("shape", h.shape.size()); for (size_t d : h.shape) observe("dim", d); observe("ulen", h.max_element_length);
}
static Str base_dict(unsigned k) {
  switch (k) {
  case 0: return "{'descr': '<f4', 'fortran_order': False, 'shape': (2, 3), }";
  case 1: return "{'descr': '|u1', 'fortran_order': True, 'shape': (), }";
  case 2: return "{'descr': '<U12', 'fortran_order': False, 'shape': (3,), }";
  case 3: return "{'shape': (12,), 'descr': '>c16', 'fortran_order': True}";
  default: return "{'descr':'|b1','fortran_order':False,'shape':(1,0,65)}";
  }
}
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0);
  if (mode == 0) {
    // a window of arbitrary bytes anywhere in a dictionary
    Str d = base_dict(vp_param("base", 0)); size_t w = vp_param("w", 2); size_t at = vp_param("at", -1) >= 0 ? vp_param("at", 0) + vp_choose(vp_param("span", 1), "at") : vp_choose(d.size() - w + 1, "at");
    if (at + w > d.size()) return;
    vp_sym(&d[at], w, "window");
    RefHeader r; bool ok = ref_parse_dict(d.data(), d.size(), r); if (ok) { r.t = code_type(r.code, r.big, r.ulen); ok = r.t != 99; }
    int o = outcome([&] { npy::header_info h(d); vp_check(ok, "a malformed dictionary is refused"); agree(h, r); vp_reach("accepted"); });
    vp_check(o != OTHER, "only standard exceptions are thrown"); if (o) vp_reach("refused");
  } else if (mode == 1) {
    // a dictionary cut short anywhere, or with a piece missing
    Str d = base_dict(vp_param("base", 0)); size_t from = vp_choose(d.size() + 1, "from"), len = 1 + vp_choose(d.size(), "len"); if (from + len > d.size()) return;
    d.erase(from, len);
    RefHeader r; bool ok = ref_parse_dict(d.data(), d.size(), r); if (ok) { r.t = code_type(r.code, r.big, r.ulen); ok = r.t != 99; }
    int o = outcome([&] { npy::header_info h(d); vp_check(ok, "an incomplete dictionary is refused"); agree(h, r); });
    vp_check(o != OTHER, "only standard exceptions are thrown"); if (o) vp_reach("incomplete");
  } else if (mode == 2) {
    // whole files: a window of arbitrary bytes in magic, version and length, then truncation anywhere
    unsigned ver = vp_param("ver", 1); Str f = ref_header(ref_dict("<u2", false, "(3,)"), ver) + "abcdef"; size_t w = vp_param("w", 1), at = vp_choose((ver == 1 ? 10 : 12) - w + 1, "at");
    vp_sym(&f[at], w, "window");
    RefHeader r = ref_parse(f.data(), f.size()); vp_heap_limit(1 << 20);
    std::istringstream i(f); int o = outcome([&] { npy::header_info h = npy::peek(i); vp_check(r.ok, "a malformed header is refused"); agree(h, r); vp_reach("accepted header"); });
    vp_check(o != OTHER, "only standard exceptions are thrown");
    std::istringstream j(f); o = outcome([&] { auto t = npy::load<npy::tensor<std::uint16_t>>(j); vp_check(r.ok && r.t == 3 && f.size() - r.data >= 2 * ref_count(r.shape), "input that ends early is refused"); vp_check(memcmp(t.data(), f.data() + r.data, 2 * t.size()) == 0, "the elements are those in the file"); });
    vp_check(o != OTHER, "only standard exceptions are thrown"); if (o) vp_reach("refused header");
  } else if (mode == 3) {
    // every prefix of a file of every type
    unsigned ty = vp_param("t", 0);
    with_type(ty, [&](auto tag) {
      typedef npy::tensor<typename decltype(tag)::type> TT; bool big = vp_choose(2, "big"); Shape sh{2, 2}; size_t ul = ty == T_STR ? 2 : 0, bytes = 4 * (ty == T_STR ? 8 : ISZ[ty]);
      Str pay(bytes, '\0'); vp_sym(&pay[0], bytes, "payload"); if (ty == T_BOOL) for (char c : pay) vp_assume((unsigned char)c <= 1);
      if (ty == T_STR) for (size_t k = 0; k < bytes; k += 4) vp_assume(pay[k] != 0);
      int ver = 1 + vp_choose(2, "version"); Str f = ref_header(ref_dict(ref_code(ty, big, ul), false, ref_shape(sh)), ver); size_t h = f.size(); f += pay;
      size_t cut = vp_choose(f.size() + 1, "cut"); Str g = f.substr(0, cut);
      std::istringstream a(g); bool t = throws([&] { npy::peek(a); }); vp_check(t == (cut < h), "a header is refused exactly when it is cut short");
      if (vp_choose(2, "file")) { const char *p = vp_path("a.npy"); put_file(p, g); t = throws([&] { npy::load<TT>(Str(p)); }); } else { std::istringstream b(g); t = throws([&] { npy::load<TT>(b); }); }
      vp_check(t == (cut < f.size()), "a file is refused exactly when it is cut short"); vp_reach("prefix");
    });
  } else if (mode == 4) {
    // shapes whose size overflows or exceeds memory
    static const char *const A[6] = {"(4294967296, 42949672", "(65536, 65536, 42949672", "(2, 92233720368547758", "(3, 61489146912365172", "(0, 42949672", "(8589934592, 2, 10737418"};
    static const unsigned tail[6] = {2, 2, 2, 2, 2, 2}; unsigned k = vp_choose(6, "base"); Str s = A[k]; size_t p = s.size(); s += Str(tail[k], '0'); vp_sym(&s[p], tail[k], "digits"); for (unsigned i = 0; i < tail[k]; i++) vp_assume(s[p + i] >= '0' && s[p + i] <= '9'); s += ")";
    Str f = ref_header(ref_dict("<f8", false, s)) + Str(64, 'x'); RefHeader r = ref_parse(f.data(), f.size());
    vp_heap_limit(1 << 16); std::istringstream i(f);
    int o = outcome([&] { auto t = npy::load<npy::tensor<double>>(i); bool zero = false; for (size_t d : r.shape) if (d == 0) zero = true; vp_check(r.ok && zero, "a shape that does not fit the data is refused"); vp_check(t.size() == 0, "an empty array is empty"); vp_reach("empty"); });
    vp_check(o != OTHER, "only standard exceptions are thrown"); if (o) vp_reach("overflow");
  } else if (mode == 5) {
    // a stream that is already exhausted or fails, and paths that are not there
    std::istringstream e; vp_check(throws([&] { npy::peek(e); }), "empty input is refused");
    vp_check(outcome([&] { npy::peek(vp_path("missing.npy")); }) == INVARG && outcome([&] { npy::load<npy::tensor<float>>(Str(vp_path("missing.npy"))); }) == INVARG && outcome([&] { npy::tensor<float>::from_file(vp_path("missing.npy")); }) == INVARG, "a missing file is reported");
    vp_check(throws([&] { npy::load<npy::tensor<float>>(e); }), "an exhausted stream is refused"); vp_reach("paths");
  } else if (mode == 6) {
    // a short dictionary of arbitrary bytes
    size_t n = vp_choose(vp_param("n", 4) + 1, "n"); Str d(n, '\0'); if (n) vp_sym(&d[0], n, "dict"); vp_check(throws([&] { npy::header_info h(d); }), "arbitrary short text is no header"); vp_reach("short");
  }
}

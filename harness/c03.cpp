// Conforming files get their numpy meaning.
#include "common.h"
static Str dict_variant(const Str &code, bool fortran, const Str &shape, unsigned perm, bool comma, unsigned ws) {
  static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  Str kv[3], b = ws == 0 ? "" : ws == 1 ? " " : "  ", a = ws == 2 ? " " : "";
  kv[0] = "'descr'" + a + ":" + b + "'" + code + "'"; kv[1] = "'fortran_order'" + a + ":" + b + (fortran ? "True" : "False"); kv[2] = "'shape'" + a + ":" + b + shape;
  Str s = "{" + a; for (int i = 0; i < 3; i++) { s += kv[P[perm][i]] + a; if (i < 2 || comma) s += "," + b; } return s + "}";
}
template <class T> static void check_payload(const npy::tensor<T> &t, const Str &pay, unsigned ty, bool big, size_t) {
  Str want = ref_unpack(pay.data(), t.size(), ty, big); vp_check(t.size() == 0 || memcmp(t.data(), want.data(), want.size()) == 0, "each element has the value its bytes denote");
}
static void check_payload(const npy::tensor<std::wstring> &t, const Str &pay, unsigned, bool big, size_t ul) {
  for (size_t i = 0; i < t.size(); i++) {
    std::wstring w; for (size_t j = 0; j < ul; j++) { std::uint32_t c = 0; for (int k = 0; k < 4; k++) c |= (std::uint32_t)(unsigned char)pay[(i * ul + j) * 4 + k] << 8 * (big ? 3 - k : k); w.push_back((wchar_t)c); }
    vp_check(rtrim(w) == t.data()[i], "each string is the one its characters denote");
  }
}
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0), ty = vp_param("t", 0);
  if (mode == 0 || mode == 1) {
    with_type(ty, [&](auto tag) {
      typedef typename decltype(tag)::type T; typedef npy::tensor<T> TT;
      Shape sh; unsigned perm = 0, ws = 1, ver = 1; int pad = -1; bool comma = true, nl = true;
      if (mode == 0) { sh = pick_shape(vp_param("nd", 3), 2, ty == T_STR ? 3 : 8); ver = 1 + vp_choose(2, "version"); }
      else { sh = Shape{2}; perm = vp_choose(6, "keys"); ws = vp_choose(3, "blanks"); ver = 1 + vp_choose(2, "version"); comma = vp_choose(2, "comma"); static const int PAD[5] = {-1, 0, 1, 37, 300}; pad = PAD[vp_choose(5, "padding")]; nl = vp_choose(2, "newline"); }
      bool fortran = vp_choose(2, "fortran"), big = vp_choose(2, "big"); size_t ul = ty == T_STR ? vp_choose(mode == 0 ? 4 : 2, "ulen") : 0;
      size_t n = ref_count(sh), bytes = n * (ty == T_STR ? ul * 4 : ISZ[ty]);
      Str pay(bytes, '\0'); if (bytes) vp_sym(&pay[0], bytes, "payload");
      if (ty == T_BOOL) for (char c : pay) vp_assume((unsigned char)c <= 1);
      Str f = ref_header(dict_variant(ref_code(ty, big, ul), fortran, ref_shape(sh), perm, comma, ws), ver, pad, nl) + pay;
      auto go = [&](TT t) {
        vp_check(t.shape() == sh, "the shape is the one in the file"); vp_check(t.fortran_order() == fortran, "the storage order is the one in the file"); vp_check(t.size() == n, "the number of elements is that of the shape");
        check_payload(t, pay, ty, big, ul); observe("t", t);
      };
      if (vp_choose(2, "file")) { const char *p = vp_path("a.npy"); put_file(p, f); go(npy::load<TT>(Str(p))); npy::header_info h = npy::peek(p); vp_check(h.shape == sh && h.dtype == (DT)ty && h.fortran_order == fortran && h.max_element_length == ul, "peeking reports the header"); if (ISZ[ty] > 1) vp_check(h.endianness == (big ? EN::BIG : EN::LITTLE), "peeking reports the byte order"); vp_reach("file"); }
      else { std::istringstream i(f + "rest"); go(npy::load<TT>(i)); Str rest; char c; while (i.get(c)) rest += c; vp_check(rest == "rest", "exactly the array was consumed"); vp_reach("stream"); }
    });
  } else if (mode == 2) {
    // every decimal number as a dimension
    unsigned nd = vp_param("nd", 1); size_t digits = 1 + vp_choose(vp_param("digits", 20), "digits");
    Str s = "("; Shape want; bool over = false;
    for (unsigned i = 0; i < nd; i++) { char d[24]; vp_sym(d, digits, "digit"); size_t v = 0; for (size_t k = 0; k < digits; k++) { unsigned x = d[k] & 15; vp_assume(x <= 9); d[k] = (char)('0' | x); if (k >= 19 && (v > SIZE_MAX / 10 || (v == SIZE_MAX / 10 && x > SIZE_MAX % 10))) over = true; v = v * 10 + x; } s += Str(d, digits); s += i + 1 < nd || nd == 1 ? ", " : ""; want.push_back(v); }
    s += ")";
    vp_assume(!over);
    npy::header_info h(ref_dict("<i2", false, s)); vp_check(h.shape.size() == nd, "number of dimensions"); for (unsigned i = 0; i < nd; i++) vp_check(h.shape[i] == want[i], "dimension"); vp_check(h.dtype == DT::INT16 && !h.fortran_order, "type and order"); vp_reach("digits");
  } else if (mode == 3) {
    // long headers, all four bytes of a version 2 header length
    static const int PADS[6] = {190, 400, 33000, 65300, 70000, 0x1010100}; unsigned k = vp_choose(vp_param("n", 5), "padding"); int ver = k < 4 ? 1 + vp_choose(2, "version") : 2;
    Str pay(4, '\0'); vp_sym(&pay[0], 4, "payload"); bool big = vp_choose(2, "big");
    Str f = ref_header(ref_dict(ref_code(3, big), false, "(2,)"), ver, PADS[k]); f += pay;
    std::istringstream i(f); auto t = npy::load<npy::tensor<std::uint16_t>>(i); vp_check(t.shape() == Shape{2}, "shape"); check_payload(t, pay, 3, big, 0); vp_reach("long");
  }
}

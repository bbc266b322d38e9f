// Saved bytes follow the NPY file format.
#include "common.h"
// The header of out: well-formed, and naming exactly this code, order and shape.  Returns its length.
static size_t check_header(const Str &out, const Str &code, bool fortran, const Shape &sh) {
  RefHeader r = ref_parse(out.data(), out.size());
  vp_check(r.ok, "the header is a valid NPY header"); if (!r.ok) vp_end();
  vp_check(r.data % 64 == 0, "the header size is a multiple of 64");
  vp_check(out[r.data - 1] == '\n', "the header ends in a newline");
  size_t off = out[6] == 1 ? 10 : 12, i = off; while (i < r.data && out[i] != '}') i++;
  bool blanks = true; for (size_t k = i + 1; k + 1 < r.data; k++) if (out[k] != ' ') blanks = false;
  vp_check(blanks, "the dictionary is padded with blanks");
  size_t keys = 0, colons = 0; for (size_t k = off; k <= i; k++) { if (out[k] == ':') colons++; if (out[k] == '\'') keys++; }
  vp_check(colons == 3 && keys == 8, "the dictionary holds three entries");
  vp_check(r.code == code, "the type code is that of the tensor");
  vp_check(r.fortran == fortran, "the storage order is that of the tensor");
  vp_check(r.shape.size() == sh.size(), "the number of dimensions is that of the tensor");
  bool same = r.shape.size() == sh.size(); for (size_t k = 0; same && k < sh.size(); k++) vp_check(r.shape[k] == sh[k], "the dimensions are those of the tensor");
  return r.data;
}
// A user's own tensor type, as in the README.
struct Mine {
  Shape sh; bool f; std::vector<unsigned char> v;
  size_t ndim() const { return sh.size(); } size_t shape(size_t i) const { return sh[i]; } bool fortran_order() const { return f; }
  Str dtype(EN) const { return "|u1"; }
  void save(std::basic_ostream<char> &o, EN) const { o.write((const char *)v.data(), v.size()); }
};
template <class T> struct MineT {
  Shape sh; bool f; std::vector<T> v;
  size_t ndim() const { return sh.size(); } size_t shape(size_t i) const { return sh[i]; } bool fortran_order() const { return f; }
  Str dtype(EN e) const { return npy::to_dtype(DT::UINT16, e); }
  void save(std::basic_ostream<char> &o, EN e) const { npy::write_values(o, v.data(), v.size(), e); }
};
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0), ty = vp_param("t", 0);
  if (mode == 0) {
    with_type(ty, [&](auto tag) {
      typedef typename decltype(tag)::type T; typedef npy::tensor<T> TT;
      Shape sh = pick_shape(vp_param("nd", 3), vp_param("lim", 2), ty == T_STR ? 4 : 8);
      bool fortran = vp_choose(2, "fortran"); EN e = ENDS[vp_choose(3, "endian")];
      TT a(sh, fortran); fill(a);
      Str out; bool file = vp_choose(2, "file");
      if (file) { const char *p = vp_path("a.npy"); npy::save(p, a, e); out = read_back(p); vp_reach("file"); } else { std::ostringstream o; npy::save(o, a, e); out = o.str(); vp_reach("stream"); }
      observe("out", out);
      Str pay; size_t ul; tensor_payload(pay, a, ty, is_big(e), ul);
      size_t h = check_header(out, ref_code(ty, is_big(e), ul), fortran, sh);
      vp_check(out.size() == h + pay.size(), "the payload has the size of the elements");
      vp_check(out.compare(h, Str::npos, pay) == 0, "the payload holds the elements in the declared byte order");
    });
  } else if (mode == 1) {
    // every 64-bit dimension
    ref_wrap = true; unsigned nd = vp_param("nd", 1); Shape sh; for (unsigned i = 0; i < nd; i++) sh.push_back(vp_range(0, ~0ul, "dim"));
    std::ostringstream o; bool f = vp_choose(2, "fortran"); npy::write_npy_header(o, "<f4", f, sh); Str out = o.str(); observe("out", out);
    vp_check(check_header(out, "<f4", f, sh) == out.size(), "nothing follows the header"); vp_reach("dims");
  } else if (mode == 2) {
    // headers of every length modulo 64, and long ones
    size_t n = vp_param("from", 0) + vp_choose(vp_param("n", 40), "ndim"); Shape sh(n, 7); if (n) { sh[n - 1] = vp_range(0, 9, "dim"); sh[0] = vp_choose(2, "two") ? 12 : 3; }
    std::ostringstream o; bool t = throws([&] { npy::write_npy_header(o, "<f4", false, sh); }); Str out = o.str();
    size_t len = ref_dict("<f4", false, ref_shape(sh)).size() + 1; bool fits = 10 + ((len + 10 + 63) / 64 * 64 - 10) <= 10 + 65535;
    if (fits) vp_check(!t, "a shape the format can express is written");
    if (!t) { vp_check(check_header(out, "<f4", false, sh) == out.size(), "nothing follows the header"); vp_reach("long"); }
    else { vp_check(out.empty(), "a refused header leaves nothing behind"); vp_reach("refused"); }
  } else if (mode == 3) {
    Mine m; m.f = vp_choose(2, "fortran"); size_t n = vp_choose(4, "n"); m.sh = Shape{n, 2}; m.v.resize(2 * n); if (n) vp_sym(m.v.data(), 2 * n, "el");
    EN e = ENDS[vp_choose(3, "endian")]; std::ostringstream o; npy::save(o, m, e); Str out = o.str();
    size_t h = check_header(out, "|u1", m.f, m.sh); vp_check(out.size() == h + 2 * n && memcmp(out.data() + h, m.v.data(), 2 * n) == 0, "payload of a custom tensor");
    const char *p = vp_path("m.npy"); npy::save(p, m, e); vp_check(read_back(p) == out, "the same bytes in a file");
    MineT<std::uint16_t> q; q.f = m.f; q.sh = Shape{n}; q.v.resize(n); if (n) vp_sym(q.v.data(), 2 * n, "el2");
    std::ostringstream o2; npy::save(o2, q, e); out = o2.str(); Str pay; ref_payload(pay, (const unsigned char *)q.v.data(), n, 3, is_big(e));
    h = check_header(out, ref_code(3, is_big(e)), q.f, q.sh); vp_check(out.size() == h + pay.size() && out.compare(h, Str::npos, pay) == 0, "payload of a custom tensor template"); vp_reach("custom");
  }
}

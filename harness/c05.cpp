// Peek and load agree; a wrong element type is refused.
#include "common.h"
static void check_peek(const npy::header_info &h, unsigned ty, bool big, bool fortran, const Shape &sh, size_t ul) {
  vp_check(h.dtype == (DT)ty, "peek reports the type"); vp_check(h.shape == sh, "peek reports the shape"); vp_check(h.fortran_order == fortran, "peek reports the storage order"); vp_check(h.max_element_length == ul, "peek reports the string length");
  if (ISZ[ty] > 1) vp_check(h.endianness == (big ? EN::BIG : EN::LITTLE), "peek reports the byte order");
}
template <class T> static size_t ulen_of(const npy::tensor<T> &) { return 0; }
static size_t ulen_of(const npy::tensor<std::wstring> &t) { return max_len(t.values()); }
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0), ty = vp_param("t", 0);
  with_type(ty, [&](auto tag) {
    typedef typename decltype(tag)::type T; typedef npy::tensor<T> TT;
    if (mode == 0) {
      Shape sh = pick_shape(3, 2, ty == T_STR ? 3 : 8); bool fortran = vp_choose(2, "fortran"); EN e = ENDS[vp_choose(3, "endian")];
      TT a(sh, fortran); fill(a); std::ostringstream o; npy::save(o, a, e); Str f = o.str(); size_t ul = ulen_of(a);
      std::istringstream i(f); npy::header_info h = npy::peek(i); check_peek(h, ty, is_big(e), fortran, sh, ul); observe("ulen", h.max_element_length);
      TT c = TT::load(i, h); check_same(a, c);   // what peek reported is what loading needs
      RefHeader r = ref_parse(f.data(), f.size()); const char *p = vp_path("a.npy"); put_file(p, f.substr(0, r.data));
      check_peek(npy::peek(p), ty, is_big(e), fortran, sh, ul); vp_reach("peek");
    } else if (mode == 1) {
      // through an archive
      Shape sh{vp_choose(3, "dim"), 2}; bool fortran = vp_choose(2, "fortran"); EN e = ENDS[vp_choose(2, "endian")]; auto m = vp_choose(2, "method") ? npy::compression_method_t::DEFLATED : npy::compression_method_t::STORED;
      TT a(sh, fortran); if (m == npy::compression_method_t::STORED) fill(a); size_t ul = ulen_of(a);
      npy::npzstringwriter w(m, e); w.write("a", a); w.close(); Str z = w.str();
      npy::npzstringreader r(z); check_peek(r.peek("a"), ty, is_big(e), fortran, sh, ul); check_same(a, r.read<TT>("a.npy"));
      const char *p = vp_path("a.npz"); put_file(p, z); npy::npzfilereader q(p); check_peek(q.peek("a.npy"), ty, is_big(e), fortran, sh, ul); check_same(a, q.read<T, npy::tensor>("a")); vp_reach("archive peek");
    } else {
      // every other element type is refused, through every way of loading
      TT a(Shape{2}, false); fill(a); std::ostringstream o; EN e = ENDS[vp_choose(2, "endian")]; npy::save(o, a, e); Str f = o.str(); npy::npzstringwriter w; w.write("a", a); w.close();
      const char *p = vp_path("a.npy"); put_file(p, f); const char *z = vp_path("a.npz"); put_file(z, w.str()); npy::npzstringreader r(w.str()); npy::npzfilereader q(z);
      for (unsigned u = 0; u < NT; u++) with_type(u, [&](auto tag2) {
        typedef npy::tensor<typename decltype(tag2)::type> UU; bool same = u == ty;
        std::istringstream i(f); vp_check(throws([&] { npy::load<UU>(i); }) != same, "loading succeeds exactly for the stored type");
        vp_check(throws([&] { UU::from_file(p); }) != same, "from a file as well");
        vp_check(throws([&] { r.read<UU>("a"); }) != same && throws([&] { q.read<UU>("a"); }) != same, "from an archive as well");
      });
      vp_reach("types");
    }
  });
}

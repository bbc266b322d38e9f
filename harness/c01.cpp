// Save then load gives the same tensor.
#include "common.h"
extern "C" void vp_harness() {
  unsigned ty = vp_param("t", 0);
  bool str = ty == T_STR;
  with_type(ty, [&](auto tag) {
    typedef typename decltype(tag)::type T; typedef npy::tensor<T> TT;
    Shape sh = pick_shape(vp_param("nd", 3), vp_param("lim", 2), str ? 4 : vp_param("total", 8));
    bool fortran = vp_choose(2, "fortran"); EN e = ENDS[vp_choose(3, "endian")];
    TT a(sh, fortran); fill(a);
    unsigned how = vp_choose(4, "how");
    if (how == 0) {
      std::stringstream s; npy::save(s, a, e); TT b = npy::load<TT>(s); check_same(a, b); observe("b", b); vp_reach("stream");
      s.peek(); vp_check(s.eof(), "everything was consumed");
    } else if (how == 1) {
      const char *p = vp_path("a.npy"); npy::save(p, a, e); TT b = npy::load<T, npy::tensor>(Str(p)); check_same(a, b); vp_reach("file");
    } else if (how == 2) {
      const char *p = vp_path("a.npy"); a.save(p, e); TT b = TT::from_file(p); check_same(a, b); vp_reach("member");
    } else {
      // two tensors one after the other in the same stream
      std::stringstream s; npy::save(s, a, e); npy::save(s, a, EN::BIG); TT b = npy::load<TT>(s); TT c = npy::load<TT>(s); check_same(a, b); check_same(a, c); vp_reach("sequence");
    }
  });
}

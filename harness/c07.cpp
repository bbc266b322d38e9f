// Type codes.
#include "common.h"
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0);
  if (mode == 0) {
    unsigned t = vp_choose(NT, "type"); EN e = ENDS[vp_choose(3, "endian")];
    vp_check(npy::native_endian() == (machine_big() ? EN::BIG : EN::LITTLE), "native order is that of the machine");
    if (t == T_STR) {
      vp_check(outcome([&] { npy::to_dtype(DT::UNICODE_STRING, e); }) == INVARG, "a Unicode code needs a length");
      npy::tensor<std::wstring> w(Shape{2}); fill(w);
      vp_check(w.dtype(e) == ref_code(t, is_big(e), max_len(w.values())), "Unicode code"); vp_check(w.dtype() == DT::UNICODE_STRING, "Unicode type");
      vp_reach("unicode"); return;
    }
    Str s = npy::to_dtype((DT)t, e); observe("code", s);
    vp_check(s == ref_code(t, is_big(e)), "the type has its numpy code");
    auto r = npy::from_dtype(s);
    vp_check(r.first == (DT)t, "the code names its type");
    if (ISZ[t] > 1) vp_check(r.second == (is_big(e) ? EN::BIG : EN::LITTLE), "the code names its byte order");
    with_type(t, [&](auto tag) { npy::tensor<typename decltype(tag)::type> x(Shape{}); vp_check(x.dtype() == (DT)t && x.dtype(e) == s, "the tensor of this type has this code"); });
    vp_reach("codes");
  } else {
    // an arbitrary code, before and after valid conversions
    size_t n = vp_choose(vp_param("n", 5), "n"); std::vector<char> c(n + 1); if (n) vp_sym(c.data(), n, "code");
    Str code(c.data(), n); bool big = false; size_t ul; unsigned want = 99;
    for (unsigned t = 0; t < NT - 1; t++) for (int b = 0; b < 2; b++) if (code == ref_code(t, b)) { want = t; big = b; }
    DT got = DT::INT8; EN ge = EN::NATIVE;
    int r = outcome([&] { auto q = npy::from_dtype(code); got = q.first; ge = q.second; });
    if (want == 99) { vp_check(r == STDEXC || r == INVARG, "an unknown code is refused"); vp_reach("unknown"); }
    else { vp_check(r == OK_ && got == (DT)want, "a known code is accepted with its type"); if (ISZ[want] > 1) vp_check(ge == (big ? EN::BIG : EN::LITTLE), "with its byte order"); vp_reach("known"); }
    (void)ul;
    vp_check(throws([&] { auto q = npy::from_dtype(code); (void)q; }) == (r != OK_), "asking again gives the same answer");
    for (unsigned t = 0; t < NT - 1; t++) for (int b = 0; b < 2; b++) { auto q = npy::from_dtype(ref_code(t, b)); vp_check(q.first == (DT)t, "later conversions are unaffected"); }
  }
}

// Tensors and booleans behave as values.
#include "common.h"
#include <limits>
template <class TT> static void same(const TT &a, const Shape &sh, bool f, unsigned ty, const std::vector<typename TT::value_type> &v, const char *what) {
  vp_check(a.shape() == sh && a.ndim() == sh.size(), what); for (size_t i = 0; i < sh.size(); i++) vp_check(a.shape((int)i) == sh[i], what);
  vp_check(a.fortran_order() == f && a.dtype() == (DT)ty && a.size() == ref_count(sh) && a.values().size() == a.size() && v.size() == a.size(), what);
  bool ok = true; for (size_t i = 0; i < v.size(); i++) ok = ok & same_bits(a.data()[i], v[i]) & same_bits(a.values()[i], v[i]); vp_check(ok, what);
  size_t n = 0; for (auto it = a.begin(); it != a.end(); ++it, ++n) vp_check(&*it == a.data() + n, what); vp_check(n == a.size(), what);
  // every element under its index
  std::vector<std::int32_t> ix(sh.size(), 0); std::vector<size_t> ux(sh.size(), 0);
  for (size_t k = 0; k < a.size(); k++) {
    size_t lin = 0, stride = 1; for (size_t d = 0; d < sh.size(); d++) { size_t j = f ? d : sh.size() - 1 - d; lin += ux[j] * stride; stride *= sh[j]; }
    vp_check(&a.get(ix) == a.data() + lin && &a(ux) == a.data() + lin, what);
    for (size_t d = sh.size(); d-- > 0;) { ux[d]++; ix[d]++; if (ux[d] < sh[d]) break; ux[d] = 0; ix[d] = 0; }
  }
}
template <class T> struct Gen { // distinct symbolic or fixed elements
  static void one(T &v, const char *n) { vp_sym(&v, sizeof v, n); }
};
template <> struct Gen<npy::boolean> { static void one(npy::boolean &v, const char *n) { unsigned char b; vp_sym(&b, 1, n); vp_assume(b <= 1); memcpy(&v, &b, 1); } };
template <> struct Gen<std::wstring> { static void one(std::wstring &v, const char *n) { v = sym_wstring(vp_choose(2, "len") * 5, n); } }; // short and on the heap
struct Truthy { int x; operator bool() const { return x > 3; } };
struct Explicit { int x; explicit operator bool() const { return x > 3; } };
template <class V> static void truth(const V &v, bool want, const char *what) {
  npy::boolean a(v), c; c = v; npy::boolean d(true), e(false); d = v; e = v; npy::boolean f(a); npy::boolean g; g = a;
  for (const npy::boolean *p : {&a, &c, &d, &e, &f, &g}) { unsigned char raw; memcpy(&raw, p, 1); vp_check(raw == (want ? 1 : 0), what); vp_check((bool)*p == want, what); }
  npy::tensor<npy::boolean> t(Shape{2}); t(1) = v; vp_check(t.data()[1].value == (want ? 1 : 0) && t.data()[0].value == 0, what); t.set({0}, v); vp_check((bool)t(0) == want, what);
}
template <class V> static void number(const char *what) { V v; vp_sym(&v, sizeof v, "v"); truth(v, v != 0, what); }
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0), ty = vp_param("t", 0);
  if (mode == 0) with_type(ty, [&](auto tag) {
    typedef typename decltype(tag)::type T; typedef npy::tensor<T> TT; typedef std::vector<T> VT;
    bool str = ty == T_STR; unsigned lim = vp_param("lim", 2), tot = str ? 2 : vp_param("total", 6); Shape sh = pick_shape(vp_param("nd", 2), lim, tot), sh2 = vp_choose(2, "other") ? Shape{2, 1} : Shape{3}; bool f = vp_choose(2, "order");
    bool deflt = !f && vp_choose(2, "default"); TT a = deflt ? TT(sh) : TT(sh, f); size_t n = ref_count(sh); same(a, sh, f, ty, VT(n), "a new tensor has default elements");
    VT v(n); for (T &x : v) Gen<T>::one(x, "v"); VT w(6); for (T &x : w) x = T(); Gen<T>::one(w[0], "w"); const T neu = w[0];
    // filling
    unsigned op = vp_choose(6, "op"); size_t m = n;
    if (op == 0) { a.copy_from(v.data(), n); } else if (op == 1) { a.copy_from(v); } else if (op == 2) { VT u = v; a.move_from(std::move(u)); } else if (op == 3) { for (size_t i = 0; i < n; i++) a.data()[i] = v[i]; } else if (op == 4) { std::copy(v.begin(), v.end(), a.begin()); } else { size_t i = 0; for (T &x : a) x = v[i++]; }
    same(a, sh, f, ty, v, "a filled tensor holds its source");
    // filling from another size changes nothing
    unsigned bad = vp_choose(3, "bad"); if (bad == 0) { vp_sym(&m, 8, "nitems"); vp_assume(m != n); vp_check(outcome([&] { a.copy_from(w.data(), m); }) == INVARG, "another size is refused"); } else { m = vp_choose(n + 3, "m"); if (m == n) vp_end(); VT u(m, neu); vp_check(outcome([&] { if (bad == 1) a.copy_from(u); else a.move_from(std::move(u)); }) == INVARG, "another size is refused"); }
    same(a, sh, f, ty, v, "a refused source changes nothing");
    // copies
    unsigned how = vp_choose(5, "copy"); TT other(sh2, !f); for (size_t i = 0; i < other.size(); i++) other.data()[i] = neu; VT vo = other.values();
    auto indep = [&](TT &b) {
      same(b, sh, f, ty, v, "a copy equals its source"); VT v2 = v; if (n) { b.data()[n - 1] = neu; v2[n - 1] = neu; } same(a, sh, f, ty, v, "changing a copy leaves its source"); same(b, sh, f, ty, v2, "a copy can be changed");
      if (n) { a.data()[0] = neu; same(b, sh, f, ty, v2, "changing the source leaves its copy"); }
    };
    if (how == 0) { TT b(a); indep(b); } else if (how == 1) { other = a; indep(other); } else if (how == 2) { TT &r = a; a = r; same(a, sh, f, ty, v, "self assignment changes nothing"); }
    else if (how == 3) { TT b(std::move(a)); same(b, sh, f, ty, v, "a moved tensor keeps its elements"); } else { other = std::move(a); same(other, sh, f, ty, v, "a moved tensor keeps its elements"); a = TT(sh2); same(a, sh2, false, ty, VT(ref_count(sh2)), "a moved-from tensor can be assigned"); }
    vp_reach("tensor");
  });
  else if (mode == 1) {
    vp_check(sizeof(npy::boolean) == 1, "a boolean occupies one byte"); npy::boolean d; vp_check(!d, "booleans start false");
    number<std::int8_t>("int8"); number<std::uint8_t>("uint8"); number<std::int16_t>("int16"); number<std::uint16_t>("uint16"); number<std::int32_t>("int32"); number<std::uint32_t>("uint32"); number<std::int64_t>("int64"); number<std::uint64_t>("uint64"); number<char>("char"); number<wchar_t>("wchar_t"); number<long>("long"); number<unsigned long long>("unsigned long long"); vp_reach("integers");
  } else if (mode == 2) {
    { unsigned u; vp_sym(&u, 4, "f"); float x; memcpy(&x, &u, 4); truth(x, (u & 0x7FFFFFFF) != 0, "float"); } { std::uint64_t u; vp_sym(&u, 8, "d"); double x; memcpy(&x, &u, 8); truth(x, (u << 1) != 0, "double"); } vp_reach("floats");
  } else {
    unsigned char b; vp_sym(&b, 1, "b"); vp_assume(b <= 1); truth((bool)b, b, "bool"); npy::boolean q; memcpy(&q, &b, 1); truth(q, b, "boolean"); Truthy t; vp_sym(&t.x, 4, "x"); truth(t, t.x > 3, "class"); Explicit e; vp_sym(&e.x, 4, "y"); truth(e, e.x > 3, "class"); int k; truth(&k, true, "pointer"); truth((int *)0, false, "null pointer"); truth(nullptr, false, "null"); std::vector<bool> vb(3); vb[1] = b; npy::boolean z(vb[1]); vp_check((bool)z == (bool)b, "bit reference"); enum En { A, B, C }; truth(A, false, "enum"); truth(C, true, "enum"); vp_reach("classes");
  }
}

// Indexing reaches exactly the numpy element.
#include "common.h"
typedef npy::tensor<std::int32_t> TT;
static size_t place(const Shape &sh, const std::vector<size_t> &ix, bool fortran) {
  size_t o = 0, m = 1;
  if (fortran) for (size_t i = 0; i < sh.size(); i++) { o += ix[i] * m; m *= sh[i]; }
  else for (size_t i = sh.size(); i-- > 0;) { o += ix[i] * m; m *= sh[i]; }
  return o;
}
template <class X> static void variadic(TT &t, const std::vector<std::int32_t> &ix, X use) {
  switch (ix.size()) {
  case 1: use([&]() -> const std::int32_t & { return t(ix[0]); }, [&]() -> const std::int32_t & { const TT &c = t; return c(ix[0]); }); break;
  case 2: use([&]() -> const std::int32_t & { return t(ix[0], ix[1]); }, [&]() -> const std::int32_t & { const TT &c = t; return c(ix[0], ix[1]); }); break;
  case 3: use([&]() -> const std::int32_t & { return t(ix[0], ix[1], ix[2]); }, [&]() -> const std::int32_t & { const TT &c = t; return c(ix[0], ix[1], ix[2]); }); break;
  case 4: use([&]() -> const std::int32_t & { return t(ix[0], ix[1], ix[2], ix[3]); }, [&]() -> const std::int32_t & { const TT &c = t; return c(ix[0], ix[1], ix[2], ix[3]); }); break;
  }
}
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0);
  if (mode == 0) {
    // signed indices
    unsigned nd = vp_param("nd", 2); Shape sh; for (unsigned i = 0; i < nd; i++) sh.push_back(vp_choose(vp_param("lim", 3) + 1, "dim"));
    bool fortran = vp_param("f", 2) < 2 ? vp_param("f", 0) : vp_choose(2, "fortran"); TT t(sh, fortran); for (size_t i = 0; i < t.size(); i++) t.data()[i] = (std::int32_t)i;
    vp_check(t.size() == ref_count(sh), "the number of elements is that of the shape");
    unsigned part = vp_param("part", 2), k = vp_choose(nd + 2, "arity"); std::vector<std::int32_t> ix(k); if (k) vp_sym(ix.data(), 4 * k, "index");
    bool ok = k == nd; std::vector<size_t> abs(k); for (unsigned i = 0; i < k && i < nd; i++) { long v = ix[i]; if (v < 0) v += (long)sh[i]; if (v < 0 || v >= (long)sh[i]) ok = false; abs[i] = (size_t)v; }
    const std::int32_t *got = 0; int r = outcome([&] { got = &t.get(ix); });
    vp_check(r == (ok ? OK_ : INVARG), "an index is accepted exactly when it is in range");
    size_t want = 0;
    if (ok) { want = place(sh, abs, fortran); vp_check(got == t.data() + want, "the element is the one numpy names"); vp_reach("in range"); } else vp_reach("out of range");
    size_t at = 0; r = outcome([&] { at = t.ravel(ix); }); vp_check(r == (ok ? OK_ : INVARG) && (!ok || at == want), "ravel agrees");
    if (part != 1) variadic(t, ix, [&](auto f, auto g) { const std::int32_t *p = 0; int q = outcome([&] { p = &f(); }); vp_check(q == (ok ? OK_ : INVARG) && (!ok || p == t.data() + want), "operator() agrees"); q = outcome([&] { p = &g(); }); vp_check(q == (ok ? OK_ : INVARG) && (!ok || p == t.data() + want), "operator() const agrees"); });
    if (part == 0) return;
    std::int32_t val; vp_sym(&val, 4, "value"); r = outcome([&] { t.set(ix, val); }); vp_check(r == (ok ? OK_ : INVARG), "set agrees");
    if (t.size()) { size_t j = vp_range(0, t.size() - 1, "element"); vp_check(t.data()[j] == (ok && j == want ? val : (std::int32_t)j), "set changes exactly that element"); }
    if (ok) { observe("want", want); vp_check(t.get(ix) == val, "get returns what was set"); }
  } else if (mode == 1) {
    // unsigned indices
    unsigned nd = vp_param("nd", 2); Shape sh; for (unsigned i = 0; i < nd; i++) sh.push_back(vp_choose(vp_param("lim", 3) + 1, "dim"));
    bool fortran = vp_choose(2, "fortran"); TT t(sh, fortran); for (size_t i = 0; i < t.size(); i++) t.data()[i] = (std::int32_t)i; const TT &c = t;
    unsigned k = vp_choose(nd + 2, "arity"); std::vector<size_t> ix(k); if (k) vp_sym(ix.data(), 8 * k, "index");
    bool ok = k == nd; for (unsigned i = 0; i < k && i < nd; i++) if (ix[i] >= sh[i]) ok = false;
    const std::int32_t *p = 0, *q = 0; int r = outcome([&] { p = &t(ix); }), r2 = outcome([&] { q = &c(ix); }); size_t at = 0; int r3 = outcome([&] { at = t.ravel(ix); });
    vp_check(r == (ok ? OK_ : INVARG) && r2 == r && r3 == r, "an index is accepted exactly when it is in range");
    if (ok) { size_t want = place(sh, ix, fortran); vp_check(p == t.data() + want && q == p && at == want, "the element is the one numpy names"); vp_reach("unsigned in range"); } else vp_reach("unsigned out of range");
  } else if (mode == 2) {
    // distinct indices reach distinct elements, and every element has one (decided over the indices)
    unsigned nd = vp_param("nd", 2); Shape sh; for (unsigned i = 0; i < nd; i++) sh.push_back(1 + vp_choose(vp_param("lim", 3), "dim"));
    bool fortran = vp_choose(2, "fortran"); TT t(sh, fortran); std::vector<size_t> a(nd), b(nd); bool same = true;
    for (unsigned i = 0; i < nd; i++) { a[i] = vp_range(0, sh[i] - 1, "a"); b[i] = vp_range(0, sh[i] - 1, "b"); same = same & (a[i] == b[i]); }
    size_t x = t.ravel(a), y = t.ravel(b); vp_check(x < t.size(), "the element lies in the buffer"); vp_check((x == y) == same, "distinct indices reach distinct elements"); vp_reach("bijection");
  } else if (mode == 3) {
    // large dimensions: arithmetic beyond 32 bits
    static const size_t D[4][3] = {{50000, 50000, 1}, {1, 50000, 50000}, {3000000000ul, 1, 1}, {2000, 1500, 1000}};
    unsigned k = vp_choose(4, "shape"); Shape sh(D[k], D[k] + 3); bool fortran = vp_choose(2, "fortran"); npy::tensor<std::int8_t> t(sh, fortran);
    std::vector<std::int32_t> ix(3); std::vector<size_t> abs(3); bool ok = true; for (int i = 0; i < 3; i++) { vp_sym(&ix[i], 4, "index"); long v = ix[i]; if (v < 0) v += (long)sh[i]; if (v < 0 || v >= (long)sh[i]) ok = false; abs[i] = (size_t)v; }
    size_t at = 0; int r = outcome([&] { at = t.ravel(ix); }); vp_check(r == (ok ? OK_ : INVARG), "an index is accepted exactly when it is in range");
    if (ok) { vp_check(at == place(sh, abs, fortran), "the element is the one numpy names"); vp_check(at < t.size(), "the element lies in the buffer"); vp_reach("large"); }
    r = outcome([&] { at = t.ravel(abs); }); vp_check(!ok || (r == OK_ && at == place(sh, abs, fortran)), "unsigned indices agree");
  } else if (mode == 4) {
    // shapes whose number of elements does not fit in 64 bits
    static const size_t F[8] = {2, 1ul << 32, 1ul << 61, 3, (1ul << 32) + 1, 0xFFFFFFFFFFFFFFFFul, 6700417, 0}; unsigned f = vp_choose(8, "factor"); size_t a = F[f], top = a ? ~0ul / a : 0;
    // every second dimension for the powers of two; around the limit for the others
    size_t b = f < 3 || f == 7 ? vp_range(0, ~0ul, "dim") : vp_choose(2, "high") ? vp_range(top > 8 ? top - 8 : 0, top < ~0ul - 8 ? top + 8 : ~0ul, "dim") : vp_range(0, 3, "dim"); unsigned __int128 p = (unsigned __int128)a * b;
    bool third = vp_choose(2, "third"); size_t c = third ? 3 : 1; if (third) p = (p >> 64) ? p : (unsigned __int128)((size_t)p) * 3;
    Shape sh{a, b}; if (third) sh.push_back(c); vp_heap_limit(4096); bool big = (p >> 64) != 0 || (size_t)p > 4096;
    vp_assume(big || b <= 3);
    int r = outcome([&] { npy::tensor<std::int8_t> t(sh); vp_check(!((p >> 64) != 0) && t.size() == (size_t)p, "the number of elements is that of the shape"); });
    vp_check(r != OTHER, "only standard exceptions are thrown"); if ((p >> 64) != 0) { vp_check(r != OK_, "a shape that overflows is refused"); vp_reach("overflow"); } else vp_reach("fits");
  }
}

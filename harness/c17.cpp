// Separate objects can be used from separate threads.
#include "zipref.h"
typedef npy::tensor<std::uint8_t> U8;
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0), ty = vp_param("t", 0); const char *path = vp_path("a.npz");
  vp_global_watch(1); // from here on nothing that exists already may be written
  if (mode == 0) { // tensors of every type through streams and files
    with_type(ty, [&](auto tag) {
      typedef typename decltype(tag)::type T; typedef npy::tensor<T> TT; EN e = ENDS[vp_choose(3, "endian")]; Shape sh = vp_choose(2, "shape") ? Shape{2, 1} : Shape{}; TT t(sh, vp_choose(2, "order")); fill(t);
      std::stringstream s; npy::save(s, t, e); TT u = npy::load<TT>(s); check_same(TT(t), TT(u)); npy::save(path, t, e); TT v = npy::load<TT>(path); npy::header_info h = npy::peek(Str(path)); vp_check(h.shape == sh, "peek");
      std::vector<std::int32_t> i(sh.size(), 0); vp_check(same_bits(canon(t.get(i)), u.get(i)), "element"); u.set(i, t.get(i)); v.copy_from(t.values()); v = t; TT w(std::move(v)); vp_check(w.size() == t.size(), "size"); Str d = t.dtype(e); vp_check(!d.empty(), "code"); { std::ostringstream o; o << t.dtype() << e; } vp_reach("tensors");
    });
  } else if (mode == 1) { // type codes, any string
    Str s(vp_choose(vp_param("n", 5), "n"), '\0'); if (s.size()) vp_sym(&s[0], s.size(), "code"); int o = outcome([&] { auto p = npy::from_dtype(s); Str c = npy::to_dtype(p.first, p.second); vp_check(c == s, "code"); }); vp_check(o != OTHER, "only standard exceptions are thrown");
    for (unsigned t = 0; t < NT - 1; t++) for (EN e : ENDS) { Str c = npy::to_dtype((DT)t, e); auto p = npy::from_dtype(c); vp_check(p.first == (DT)t, "type"); } vp_reach("codes");
  } else if (mode == 2) { // NPY data with any piece of it replaced
    Str h = ref_header(ref_dict(ty == T_STR ? "<U2" : ty == 1 ? "|u1" : ">f8", true, "(1, 2)"), (int)vp_param("ver", 1), 0) + Str(16, '\1'); size_t w = vp_param("w", 1), at = vp_choose(h.size() - w, "at"); vp_sym(&h[at], w, "bytes"); if (vp_choose(2, "cut")) h.resize(h.size() - 1); vp_heap_limit(1 << 20);
    int o = outcome([&] { std::istringstream s(h); if (ty == T_STR) npy::load<npy::tensor<std::wstring>>(s); else if (ty == 1) npy::load<U8>(s); else npy::load<npy::tensor<double>>(s); }); vp_check(o != OTHER, "only standard exceptions are thrown"); o = outcome([&] { std::istringstream s(h); npy::peek(s); }); vp_reach(o ? "refused" : "accepted");
  } else if (mode == 3) { // archives, written and read
    CM m = vp_choose(2, "method") ? CM::DEFLATED : CM::STORED; bool file = vp_choose(2, "file"); U8 t(Shape{4}); if (m == CM::STORED) fill(t); else memset(t.data(), 3, 4); Str n = "a"; if (m == CM::STORED) vp_sym(&n[0], 1, "name");
    Str z; auto put = [&](auto &w) { w.write(n, t); w.write("bb.npy", npy::tensor<std::wstring>(Shape{1})); Str big(0x10000, 'x'); outcome([&] { w.write(big, t); }); w.close(); outcome([&] { w.write(n, t); }); };
    auto get = [&](auto &r) { vp_check(r.keys().size() == 2, "keys"); check_same(t, r.template read<U8>(n)); r.peek("bb"); vp_check(!r.contains("zz"), "contains"); vp_check(outcome([&] { r.template read<U8>("bb"); }) == STDEXC, "type"); vp_check(outcome([&] { r.template read<U8>("zz"); }) == INVARG, "missing"); };
    if (file) { { npy::npzfilewriter w(path, m); put(w); } npy::npzfilereader r(path); get(r); r.close(); } else { { npy::npzstringwriter w(m); put(w); z = w.str(); } npy::npzstringreader r(z); get(r); } vp_reach("archives");
  } else if (mode == 4) { // damaged archives
    std::vector<ZE> es = {z_stored("a.npy", small_npy("abc")), z_fixed("b.npy", small_npy("\1\1\1\1\1\7")), z_deflated("c.npy", small_npy(""))}; es[0].lz64 = es[0].cz64_sizes = es[0].cz64_off = true; Zip z = z_build(es); size_t n = z.bytes.size(), parts = vp_param("parts", 8), part = vp_param("part", 0), lo = n * part / parts, hi = n * (part + 1) / parts, at = lo + vp_choose(hi - lo, "at"); Str old = z.bytes;
    vp_sym(&z.bytes[at], 1, "byte"); bool file = vp_choose(2, "file"); if (file) put_file(path, z.bytes); vp_heap_limit(64 << 20);
    auto all = [&](auto &r) { for (const char *k : {"a", "b", "c.npy"}) { outcome([&] { U8 t = r.template read<U8>(k); }); outcome([&] { r.peek(k); }); } }; int o = outcome([&] { if (file) { npy::npzfilereader r(path); all(r); } else { npy::npzstringreader r(z.bytes); all(r); } }); vp_reach(o ? "not opened" : "damaged");
  }
  vp_global_watch(0);
}

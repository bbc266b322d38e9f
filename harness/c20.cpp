// Failed operations release everything they acquired.
#include "zipref.h"
#include "zip.h"
typedef npy::tensor<std::uint8_t> U8;
static const char *path;
// f is run once beforehand, so that what is kept for good on first use does not count
template <class F> static void balanced(F f) { f(); unsigned long m = vp_heap_mark(); f(); vp_heap_check(m, "everything acquired is released"); }
struct Failing { Str dtype(EN) const { return "|u1"; } bool fortran_order() const { return false; } size_t ndim() const { return 1; } size_t shape(size_t) const { return 2000; } void save(std::ostream &o, EN) const { o.write("xyz", 3); throw std::runtime_error("no"); } };
template <class F> static int std_only(F f) { int o = outcome(f); vp_check(o != OTHER, "only standard exceptions are thrown"); return o; }
// operations that succeed unless memory runs out
static void scenario(unsigned k, unsigned ty) {
  CM m = k & 1 ? CM::DEFLATED : CM::STORED;
  switch (k) {
  case 0: with_type(ty, [&](auto tag) { typedef typename decltype(tag)::type T; typedef npy::tensor<T> TT; TT t(Shape{2, 2}, true); if constexpr (std::is_same_v<T, std::wstring>) for (auto &w : t) w = L"longer than the short one"; std::stringstream s; npy::save(s, t, EN::BIG); if (!s) return; TT u = npy::load<TT>(s); check_same(t, u); TT v(u); v = t; s.clear(); s.seekg(0); npy::header_info h = npy::peek(s); vp_check(h.shape == t.shape(), "peek"); }); break;
  case 1: with_type(ty, [&](auto tag) { typedef npy::tensor<typename decltype(tag)::type> TT; TT t(Shape{3, 1}); npy::save(Str(path), t); TT u = npy::load<TT>(Str(path)); check_same(t, u); npy::header_info h = npy::peek(Str(path)); vp_check(h.shape == t.shape(), "peek"); }); break;
  case 2: case 3: { U8 t(Shape{300}), u(Shape{2}); for (size_t i = 0; i < 300; i++) t.data()[i] = (unsigned char)(i * i); npy::npzstringwriter w(m); w.write("a_name_that_is_long_enough", t); w.write("b", u); w.close(); Str z = w.str(); npy::npzstringreader r(z); check_same(t, r.read<U8>("a_name_that_is_long_enough")); check_same(u, r.read<U8>("b.npy")); vp_check(r.peek("b").shape == u.shape(), "peek"); vp_check(r.keys().size() == 2, "keys"); break; }
  case 4: case 5: { U8 t(Shape{300}); for (size_t i = 0; i < 300; i++) t.data()[i] = (unsigned char)(i * i); { npy::npzfilewriter w(path, m); w.write("a_name_that_is_long_enough", t); w.close(); } npy::npzfilereader r(path); check_same(t, r.read<U8>("a_name_that_is_long_enough")); vp_check(r.peek("a_name_that_is_long_enough").shape == t.shape(), "peek"); break; }
  case 6: { npy::npzstringwriter w; w.write("a", U8(Shape{2})); } { npy::npzfilewriter w(path); w.write("a", U8(Shape{2})); } break; // closed by their destructors
  case 7: { Str s(2000, 'x'), t = s; for (size_t i = 0; i < 2000; i++) t[i] = s[i] = (char)(i * i >> 3); Str c = npy::npy_deflate(std::move(s)); vp_check(npy::npy_inflate(std::move(c)) == t, "contents"); break; }
  default: break;
  }
}
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0), ty = vp_param("t", 1); path = vp_path("a.npz");
  if (mode == 0) { // NPY data with any piece replaced or missing
    Str h = ref_header(ref_dict(ty == T_STR ? "<U2" : ty == 1 ? "|u1" : ">f8", true, "(1, 2)"), (int)vp_param("ver", 1), 0) + Str(16, '\1'); size_t w = vp_param("w", 1), st = vp_param("step", 1), at = vp_param("off", 0) + st * vp_choose((h.size() - w - vp_param("off", 0)) / st, "at"); vp_sym(&h[at], w, "bytes"); if (vp_choose(2, "cut")) h.resize(h.size() - 1 - vp_choose(3, "by") * 7); if (vp_param("file", 0)) { put_file(path, h); }
    vp_heap_limit(1 << 20); int o = 0; bool file = vp_file_size(path) > 0;
    balanced([&] { o = std_only([&] { std::istringstream s(h); if (ty == T_STR) { file ? npy::load<npy::tensor<std::wstring>>(Str(path)) : npy::load<npy::tensor<std::wstring>>(s); } else if (ty == 1) { file ? npy::load<U8>(Str(path)) : npy::load<U8>(s); } else { file ? npy::load<npy::tensor<double>>(Str(path)) : npy::load<npy::tensor<double>>(s); } }); std_only([&] { std::istringstream s(h); file ? npy::peek(Str(path)) : npy::peek(s); }); }); vp_reach(o ? "refused" : "accepted");
  } else if (mode == 1) { // archives with any byte changed
    std::vector<ZE> es = {z_stored("a.npy", small_npy("abc")), z_fixed("b.npy", small_npy("\1\1\1\1\1\7")), z_deflated("c.npy", small_npy(""))}; if (vp_param("plain", 0)) es = {es[0], z_stored("c.npy", small_npy(""))}; es[0].lz64 = es[0].cz64_sizes = es[0].cz64_off = true; Zip z = z_build(es); size_t n = z.bytes.size(), parts = vp_param("parts", 8), part = vp_param("part", 0), step = vp_param("step", 1), lo = n * part / parts, hi = n * (part + 1) / parts, at = lo + step * vp_choose((hi - lo + step - 1) / step, "at");
    vp_sym(&z.bytes[at], 1, "byte"); bool file = vp_param("file", 0); if (file) put_file(path, z.bytes); vp_heap_limit(64 << 20); int o = 0;
    auto all = [&](auto &r) { for (const char *k : {"a", "b", "c.npy"}) { outcome([&] { U8 t = r.template read<U8>(k); }); outcome([&] { npy::tensor<float> t = r.template read<npy::tensor<float>>(k); }); outcome([&] { r.peek(k); }); } };
    balanced([&] { o = std_only([&] { if (file) { npy::npzfilereader r(path); all(r); } else { npy::npzstringreader r(z.bytes); all(r); } }); }); vp_reach(o ? "not opened" : "opened");
  } else if (mode == 2) { // archives cut short
    std::vector<ZE> es = {z_stored("a.npy", small_npy("abc")), z_fixed("b.npy", small_npy("\1\1\1\1\1\7"))}; Zip z = z_build(es); z.bytes.resize(vp_choose(z.bytes.size(), "cut")); bool file = vp_choose(2, "file"); if (file) put_file(path, z.bytes); balanced([&] { std_only([&] { if (file) { npy::npzfilereader r(path); } else npy::npzstringreader r(z.bytes); }); }); vp_reach("cut");
  } else if (mode == 3) { // writers that fail
    CM m = (CM)vp_choose(9, "method"); bool file = vp_choose(2, "file"), close = vp_choose(2, "close"); U8 t(Shape{3}); size_t lim = vp_choose(30, "limit") * 40; unsigned how = vp_choose(4, "how"); Str bad(0x10000, 'n');
    auto put = [&](auto &w) { std_only([&] { w.write("a", t); }); std_only([&] { if (how == 0) w.write("b", Failing()); else if (how == 1) w.write(bad, t); else w.write("c", t); }); if (close) { std_only([&] { w.close(); }); std_only([&] { w.write("d", t); }); } };
    balanced([&] { if (file) { if (how == 3) vp_disk_limit(lim); { npy::npzfilewriter w(how == 2 ? Str(path) + "/no" : Str(path), m); put(w); } vp_disk_limit(~0ul); } else { npy::npzstringwriter w(m); put(w); } }); vp_reach("writers");
  } else if (mode == 4) { // compressed data with any byte changed, or arbitrary
    Str c; unsigned k = vp_param("k", 0); if (k == 0) c = ref_deflate_fixed(Str("aaaaaaaaaabbb")); else if (k == 1) c = ref_deflate_stored(Str("abcd")); else if (k == 2) { Str s; for (int i = 0; i < 60; i++) s += (char)(i * i % 7); c = npy::npy_deflate(std::move(s)); } else c = Str(vp_param("n", 2), '\0');
    if (k < 3) { size_t st = vp_param("step", 1), at = st * vp_choose((c.size() + st - 1) / st, "at"); vp_sym(&c[at], 1, "byte"); c.resize(c.size() - vp_choose(3, "cut")); } else vp_sym(&c[0], c.size(), "bytes");
    int o = 0; balanced([&] { Str d = c; o = std_only([&] { Str r = npy::npy_inflate(std::move(d)); }); }); vp_reach(o ? "invalid stream" : "valid stream");
  } else { // memory runs out at any one request
    unsigned k = vp_param("k", 0), lo = vp_param("from", 1), n = vp_param("n", 60); scenario(k, ty); unsigned long first = vp_symbolic() ? lo + vp_choose(n, "request") : 1, last = vp_symbolic() ? first : 400;
    for (unsigned long i = first; i <= last; i++) { unsigned long mk = vp_heap_mark(); vp_fail_alloc(i); int o = std_only([&] { scenario(k, ty); }); vp_fail_alloc(0); vp_heap_check(mk, "everything acquired is released"); if (!o) vp_trace("completed", i); }
    vp_reach("memory");
  }
}

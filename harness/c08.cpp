// NPZ write then read gives back every tensor under its name.
#include "zipref.h"
typedef npy::tensor<std::uint8_t> U8;
template <class R> static void check_names(R &r, std::vector<Str> names) {
  std::sort(names.begin(), names.end()); vp_check(r.keys() == names, "the names are listed, sorted and complete");
}
template <class F> static void open(bool file, const Str &z, const char *path, F f) {
  if (file) { npy::npzfilereader r(path); vp_check(r.is_open(), "the reader is open"); f(r); } else { npy::npzstringreader r(z); f(r); }
}
static Str sym_name(size_t n, const char *tag) { Str s(n, '\0'); if (n) vp_sym(&s[0], n, tag); return s; }
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0);
  if (mode == 0) {
    // one entry under any name; any queried name
    Str name = sym_name(vp_param("len", 2), "name"); bool file = vp_choose(2, "file"); CM m = vp_choose(2, "method") ? CM::DEFLATED : CM::STORED; const char *path = vp_path("a.npz"); U8 a(Shape{2}); if (m == CM::STORED) fill(a); else memset(a.data(), 7, 2);
    Str z; if (file) { npy::npzfilewriter w(path, m); vp_check(w.is_open(), "the writer is open"); w.write(name, a); } else { npy::npzstringwriter w(m); w.write(name, a); w.close(); z = w.str(); }
    Str full = full_name(name), q = sym_name(vp_choose(vp_param("qlen", 3) + 1, "qlen"), "query"); if (vp_choose(2, "suffix")) q += ".npy";
    open(file, z, path, [&](auto &r) {
      check_names(r, {full}); vp_check(r.contains(full), "the entry is contained"); vp_check(r.contains(q) == (q == full), "only listed names are contained");
      check_same(a, r.template read<U8>(full)); if (!(full.substr(0, full.size() - 4) == full)) check_same(a, r.template read<U8>(full.substr(0, full.size() - 4))); check_same(a, r.template read<U8>(name));
      bool there = q == full || q + ".npy" == full; int o = outcome([&] { check_same(a, r.template read<U8>(q)); }); vp_check(o == (there ? OK_ : INVARG), "a missing name is reported, a present one is read"); o = outcome([&] { r.peek(q); }); vp_check(o == (there ? OK_ : INVARG), "peek agrees"); vp_reach(there ? "present" : "absent");
    });
  } else if (mode == 1) {
    // several entries
    unsigned n = vp_param("n", 2); bool file = vp_choose(2, "file"), big = vp_choose(2, "big"); const char *path = vp_path("a.npz"); std::vector<Str> names, full; std::vector<npy::tensor<std::int16_t>> ts;
    for (unsigned i = 0; i < n; i++) { names.push_back(sym_name(vp_param("len", 1), "name") + (vp_choose(2, "suffix") ? ".npy" : "")); full.push_back(full_name(names[i])); for (unsigned j = 0; j < i; j++) vp_assume(full[i] != full[j]); ts.emplace_back(Shape{i}); fill(ts[i]); }
    Str z; EN e = big ? EN::BIG : EN::LITTLE;
    if (file) { npy::npzfilewriter w(Str(path), CM::STORED, e); for (unsigned i = 0; i < n; i++) w.write(names[i], ts[i]); w.close(); } else { npy::npzstringwriter w(CM::STORED, e); for (unsigned i = 0; i < n; i++) w.write(names[i], ts[i]); w.close(); z = w.str(); }
    open(file, z, path, [&](auto &r) { check_names(r, full); for (unsigned i = 0; i < n; i++) { vp_check(r.contains(full[i]), "every entry is contained"); check_same(ts[i], r.template read<npy::tensor<std::int16_t>>(names[i])); } if (n) { auto k = r.keys(); for (unsigned i = 0; i + 1 < n; i++) vp_check(k[i] < k[i + 1], "the names are sorted"); } });
    if (n) vp_reach("several"); else vp_reach("none");
  } else if (mode == 3) {
    // names with the suffix elsewhere than at the end, parts of it, other case, long names
    static const char *mid[] = {".npy", "npy", ".np", ".NPY", ".npy.npy", "/", "x.npz"}; unsigned k = vp_choose(vp_param("deep", 0) ? 10 : 8, "form"); bool file = vp_choose(2, "file"); const char *path = vp_path("a.npz");
    Str name = k < 7 ? sym_name(vp_choose(2, "before"), "before") + mid[k] + sym_name(vp_choose(3, "after"), "after") : sym_name(1, "before") + Str(k == 7 ? 254 + vp_choose(3, "len") : k == 8 ? 1000 : 65526 + vp_choose(3, "len"), 'n') + sym_name(1, "after"), full = full_name(name); npy::tensor<std::int16_t> a(Shape{1}), b(Shape{}); fill(a); fill(b);
    vp_assume(full != "b.npy"); Str z; auto put = [&](auto &w) { w.write(name, a); w.write("b", b); w.close(); }; if (file) { npy::npzfilewriter w(path); put(w); } else { npy::npzstringwriter w; put(w); z = w.str(); }
    open(file, z, path, [&](auto &r) { check_names(r, {full, "b.npy"}); vp_check(r.contains(full), "the entry is contained"); vp_check(r.contains(name) == (name == full), "only listed names are contained"); check_same(a, r.template read<npy::tensor<std::int16_t>>(name)); check_same(a, r.template read<npy::tensor<std::int16_t>>(full)); check_same(b, r.template read<npy::tensor<std::int16_t>>("b")); vp_check(outcome([&] { r.peek(full + "x"); }) == INVARG, "a missing name is reported"); }); vp_reach("odd names");
  } else if (mode == 4) {
    // many entries, and entries beyond 64 KiB
    unsigned n = vp_param("n", 300), at = vp_choose(3, "which"), sz = vp_param("sz", 0); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; bool file = vp_choose(2, "file"); CM m = vp_param("m", 0) ? CM::DEFLATED : CM::STORED; const char *path = vp_path("a.npz"); std::vector<Str> full; U8 s(Shape{1}), t(Shape{sz}); *s.data() = 9; if (sz) { memset(t.data(), 3, sz); t.data()[sz / 2] = 1; if (m == CM::STORED) vp_sym(t.data() + sz - 2, 2, "data"); } else if (m == CM::STORED) { t = U8(Shape{1}); fill(t); }
    Str z; auto nm = [](unsigned i) { return "e" + std::to_string(i * 7919 % 100003); }; auto put = [&](auto &w) { for (unsigned i = 0; i < n; i++) { w.write(nm(i), i == at ? t : s); full.push_back(nm(i) + ".npy"); } w.close(); }; if (file) { npy::npzfilewriter w(path, m); put(w); } else { npy::npzstringwriter w(m); put(w); z = w.str(); }
    open(file, z, path, [&](auto &r) { check_names(r, full); for (unsigned i = 0; i < n; i += i + 2 < n && i != at ? (at > i && at - i < 37 ? at - i : 37) : 1) check_same(i == at ? t : s, r.template read<U8>(nm(i))); }); vp_reach("many");
  } else if (mode == 2) {
    // every element type, both methods, both media, three entries of different shapes
    unsigned ty = vp_param("t", 0);
    with_type(ty, [&](auto tag) {
      typedef npy::tensor<typename decltype(tag)::type> TT; bool file = vp_choose(2, "file"); CM m = vp_param("m", 0) ? CM::DEFLATED : CM::STORED; EN e = ENDS[vp_choose(3, "endian")]; const char *path = vp_path("a.npz");
      TT a(Shape{2, 3}, false), b(Shape{}, true), c(Shape{3, 0}, true), d(Shape{2, 2}, true);
      if (m == CM::STORED) { if constexpr (!std::is_same_v<TT, npy::tensor<std::wstring>>) { fill(a); fill(b); fill(d); } else { TT x(Shape{2}, true); fill(x); a.data()[0] = x.data()[0]; a.data()[1] = L"ab"; a.data()[4] = x.data()[1]; *b.data() = L"\x10ffff"; d.data()[3] = L"e\x301 z"; } }
      else { // contents of the compressed entries are fixed, with runs and without
        Str p; for (unsigned i = 0; i < 6 * sizeof(*a.data()); i++) p.push_back((char)(ty == T_BOOL ? i & 1 : i < 9 ? i * 37 + ty : 5)); if constexpr (std::is_same_v<TT, npy::tensor<std::wstring>>) { for (size_t i = 0; i < 6; i++) a.data()[i] = std::wstring(i % 3, (wchar_t)(0x10000 + i)); d.data()[1] = L"xyz"; } else { memcpy((void *)a.data(), p.data(), p.size()); memcpy((void *)b.data(), p.data() + 1, sizeof(*b.data())); memcpy((void *)d.data(), p.data(), 4 * sizeof(*d.data())); }
      }
      Str z; auto put = [&](auto &w) { w.write("a", a); w.write("dir/b.npy", b); w.write("c", c); w.write("d.npy", d); };
      if (file) { npy::npzfilewriter w(std::filesystem::path(path), m, e); put(w); w.close(); } else { npy::npzstringwriter w(m, e); put(w); w.close(); z = w.str(); }
      open(file, z, path, [&](auto &r) { check_names(r, {"a.npy", "dir/b.npy", "c.npy", "d.npy"}); check_same(a, r.template read<TT>("a")); check_same(d, r.template read<TT>("d")); check_same(b, r.template read<typename decltype(tag)::type, npy::tensor>("dir/b")); check_same(c, r.template read<TT>("c.npy")); check_same(a, r.template read<TT>("a.npy")); });
      vp_reach(m == CM::STORED ? "stored types" : "deflated types");
    });
  }
}

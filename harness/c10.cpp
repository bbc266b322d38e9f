// Any conforming NPZ archive is readable.
#include "zipref.h"
typedef npy::tensor<std::uint8_t> U8;
static Str sym_bytes(size_t n, const char *tag) { Str s(n, '\0'); if (n) vp_sym(&s[0], n, tag); return s; }
static Str other_field(size_t n) { std::uint16_t tag; vp_sym(&tag, 2, "tag"); vp_assume(tag != 1); Str x; le(x, tag, 2); le(x, n, 2); return x + sym_bytes(n, "field"); }
static void describe(ZE &e) {
  vp_sym(&e.made, 2, "made"); vp_sym(&e.need, 2, "need"); vp_sym(&e.lneed, 2, "lneed"); vp_assume(e.need <= 45 && e.lneed <= 45);
  vp_sym(&e.flags, 2, "flags"); vp_assume((e.flags & 0x2069) == 0); vp_sym(&e.lflags, 2, "lflags"); vp_assume((e.lflags & 0x2069) == 0); // not encrypted, patched, masked or with a trailing data descriptor
  vp_sym(&e.time, 4, "time"); vp_sym(&e.ltime, 4, "ltime"); vp_sym(&e.iattr, 2, "iattr"); vp_sym(&e.eattr, 4, "eattr");
}
static void forms(ZE &e) { unsigned f = vp_choose(8, "form"); e.lz64 = f & 1; e.cz64_sizes = f & 2; e.cz64_off = f & 4; }
template <class F> static void open(bool file, const Str &z, F f) { if (file) { const char *p = vp_path("a.npz"); put_file(p, z); npy::npzfilereader r(p); f(r); } else { npy::npzstringreader r(z); f(r); } }
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0); bool file = vp_param("file", 0); std::vector<ZE> es; std::vector<Str> pay; std::vector<size_t> order;
  auto add = [&](const Str &name, size_t n, bool deflated) { Str p = sym_bytes(n, "payload"); pay.push_back(p); es.push_back(deflated ? z_deflated(name, small_npy(p)) : z_stored(name, small_npy(p))); };
  if (mode == 0) { // descriptive fields take any value
    bool d = vp_choose(2, "deflated"); add("a.npy", 2, d); describe(es[0]); add("b.npy", 1, false); describe(es[1]);
  } else if (mode == 1) { // sizes and offset in any form
    add("a.npy", 2, vp_choose(2, "deflated")); forms(es[0]); add("bb.npy", 1, false); forms(es[1]);
  } else if (mode == 2) { // a ZIP64 field that holds more than is needed, or nothing needed
    add("x.npy", 1, false); add("a.npy", 2, false); forms(es[1]); es[1].z64_only_field = true; es[1].lpad = 8 * vp_choose(4, "local"); es[1].cpad = 4 * vp_choose(7, "central");
  } else if (mode == 3) { // other extra fields and comments
    add("a.npy", 2, false); forms(es[0]); unsigned w = vp_choose(5, "where"), n = vp_choose(vp_param("n", 4), "size"); ZE &e = es[0]; Str x = other_field(n); if (w == 4) x += other_field(1);
    if (w == 0) e.lextra_before = x; if (w == 1) e.lextra_after = x; if (w == 2) e.cextra_before = x; if (w == 3) e.cextra_after = x; if (w == 4) { e.lextra_before = e.lextra_after = e.cextra_before = e.cextra_after = x; }
    e.comment = sym_bytes(vp_choose(3, "comment"), "comment"); add("b.npy", 1, false); es[1].comment = sym_bytes(vp_choose(2, "comment"), "comment");
  } else if (mode == 4) { // any order of the directory, any number of entries, names of any bytes
    unsigned n = vp_choose(4, "entries"); for (unsigned i = 0; i < n; i++) { add(Str(1, (char)('a' + i)) + (i == 1 ? "/q" : "") + ".npy", i, i == 2); }
    std::vector<size_t> left; for (unsigned i = 0; i < n; i++) left.push_back(i); while (!left.empty()) { size_t k = vp_choose(left.size(), "order"); order.push_back(left[k]); left.erase(left.begin() + (long)k); }
  } else if (mode == 5) { // names that do not end in .npy, and of any bytes
    Str nm = sym_bytes(1 + vp_choose(vp_param("len", 3), "len"), "name"); add(nm, 2, false); vp_assume(nm != "z"); add("z", 1, true);
  } else { // gaps between entries and data before the first one
    add("a.npy", 2, false); add("b.npy", 1, true);
  }
  Zip z = z_build(es, order); Str bytes = z.bytes;
  open(file, bytes, [&](auto &r) {
    std::vector<Str> names; for (auto &e : es) names.push_back(e.name); std::sort(names.begin(), names.end()); vp_check(r.keys() == names, "all names are listed");
    for (size_t i = 0; i < es.size(); i++) {
      npy::header_info h = r.peek(es[i].name); vp_check(h.dtype == DT::UINT8 && h.shape == Shape{pay[i].size()}, "the entry's header is read");
      U8 t = r.template read<U8>(es[i].name); vp_check(t.shape() == Shape{pay[i].size()} && Str((const char *)t.data(), t.size()) == pay[i], "the entry yields its bytes"); observe("t", t);
    }
    if (es.empty()) vp_reach("empty");
  });
  static const char *const R[] = {"descriptive", "zip64", "unneeded zip64", "extra fields", "order", "names", "gaps"}; vp_reach(R[mode]);
}

// vp: stubs (the codec and the checksum are C12 and C13; here entries are gigabytes of zeros)
// Sizes and offsets beyond 32 bits survive.
#include <algorithm>
#include <array>
#include <cassert>
#include <complex>
#include <cstdint>
#include <cstring>
#include <exception>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#define private public
#include "npy/npy.h"
#undef private
#include "zipref.h"
#include "zip.h"
typedef std::uint64_t U64;
static const U64 PH = 0xFFFFFFFF;
static U64 g_m; static Str g_raw;
static std::uint32_t stub_crc(U64 n) { return (std::uint32_t)(n ^ n >> 32 ^ 0x5a5a5a5a); }
namespace npy {
std::uint32_t npy_crc32(const std::string &b) { return stub_crc(b.size()); }
std::string npy_deflate(std::string &&) { return Str(g_m, '\0'); }
std::string npy_inflate(std::string &&b) { vp_check(b.size() == g_m, "the compressed bytes are those of the entry"); return g_raw; }
}
// an array of n bytes: zeros, then E
struct Big {
  U64 n = 0, seen = 0; char last = 0;
  std::string dtype(EN) const { return "|u1"; }
  npy::data_type_t dtype() const { return DT::UINT8; }
  bool fortran_order() const { return false; }
  size_t ndim() const { return 1; }
  size_t shape(size_t) const { return n; }
  void save(std::ostream &o, EN) const { Str z(n < (64u << 20) ? n : 64u << 20, '\0'); for (U64 k = n - 1; k;) { U64 c = k < z.size() ? k : z.size(); o.write(z.data(), (std::streamsize)c); k -= c; } o.put('E'); }
  template <class I> static Big load(I &in, const npy::header_info &h) { Big b; b.n = h.shape.at(0); std::streamoff at = in.tellg(); in.seekg(0, std::ios::end); b.seen = (U64)((std::streamoff)in.tellg() - at); in.seekg(-1, std::ios::end); b.last = (char)in.get(); return b; }
};
static Str big_raw(U64 n) { std::ostringstream o; Big b; b.n = n; npy::save<Big>(o, b); return o.str(); }
struct Ent { Str name; unsigned method; std::uint32_t crc; U64 c, u, off; };
// the archive says what the entries are, in the forms of APPNOTE 4.3.9, 4.3.12 and 4.5.3
static void sizes(const Str &a, size_t at, size_t len, bool local, U64 &u, U64 &c, U64 &o, unsigned need) {
  unsigned want = (u == PH) + (c == PH) + (!local && o == PH), seen = 0; size_t end = at + len;
  while (at + 4 <= end) {
    U64 tag = get_le(a, at, 2), n = get_le(a, at + 2, 2); at += 4; vp_check(at + n <= end, "extra fields have the lengths they state");
    if (tag == 1) { seen++; vp_check(n == 8 * want, "the ZIP64 field has a value for every placeholder"); size_t p = at; if (u == PH) { u = get_le(a, p, 8); p += 8; } if (c == PH) { c = get_le(a, p, 8); p += 8; } if (!local && o == PH) o = get_le(a, p, 8); }
    at += n;
  }
  vp_check(at == end, "extra fields fill their length"); vp_check(want ? seen == 1 : seen == 0, "a ZIP64 field where there are placeholders"); if (want) vp_check(need >= 45, "ZIP64 needs version 4.5"); if (local && want) vp_check(want == 2, "a local header has both sizes in the ZIP64 field");
}
static void parse(const Str &a, const std::vector<Ent> &es) {
  size_t e = a.size() - 22; vp_check(a.size() >= 22 && get_le(a, e, 4) == 0x06054b50 && get_le(a, e + 8, 2) == es.size() && get_le(a, e + 10, 2) == es.size() && get_le(a, e + 20, 2) == 0, "the end of the directory");
  size_t at = get_le(a, e + 16, 4); vp_check(at + get_le(a, e + 12, 4) == e, "the directory lies where the end record says");
  for (const Ent &x : es) {
    vp_check(at + 46 <= e && get_le(a, at, 4) == 0x02014b50, "a directory entry"); U64 c = get_le(a, at + 20, 4), u = get_le(a, at + 24, 4), o = get_le(a, at + 42, 4); size_t nl = get_le(a, at + 28, 2), xl = get_le(a, at + 30, 2), cl = get_le(a, at + 32, 2); vp_check(nl == x.name.size() && a.compare(at + 46, nl, x.name) == 0, "the name in the directory");
    vp_check(get_le(a, at + 10, 2) == x.method && get_le(a, at + 16, 4) == x.crc, "method and checksum in the directory"); sizes(a, at + 46 + nl, xl, false, u, c, o, (unsigned)get_le(a, at + 6, 2)); vp_check(u == x.u, "the uncompressed size in the directory"); vp_check(c == x.c, "the compressed size in the directory"); vp_check(o == x.off, "the offset in the directory"); at += 46 + nl + xl + cl;
    size_t l = x.off; vp_check(get_le(a, l, 4) == 0x04034b50 && get_le(a, l + 8, 2) == x.method && get_le(a, l + 14, 4) == x.crc, "a local header"); c = get_le(a, l + 18, 4); u = get_le(a, l + 22, 4); nl = get_le(a, l + 26, 2); xl = get_le(a, l + 28, 2); vp_check(nl == x.name.size() && a.compare(l + 30, nl, x.name) == 0, "the name in the local header");
    sizes(a, l + 30 + nl, xl, true, u, c, o, (unsigned)get_le(a, l + 4, 2)); vp_check(u == x.u, "the uncompressed size in the local header"); vp_check(c == x.c, "the compressed size in the local header");
    size_t next = l + 30 + nl + xl + x.c; size_t k = &x - &es[0]; vp_check(next == (k + 1 < es.size() ? (size_t)es[k + 1].off : (size_t)get_le(a, e + 16, 4)), "the entry's bytes fill the space between headers");
  }
  vp_check(at == e, "the directory has no more");
}
template <class W> static auto put(W &w, const Str &n, Str &&b, int) -> decltype(w.write_file(n, std::move(b)), true) { w.write_file(n, std::move(b)); return true; }
template <class W> static bool put(W &, const Str &, Str &&, long) { return false; }
// what the reader and the writer hold, if they hold it under these names
template <class R> static auto entry_is(R &r, const Str &n, U64 c, U64 u, U64 o, int) -> decltype(r.m_entries.at(n).compressed_size == r.m_entries.at(n).uncompressed_size && r.m_entries.at(n).offset == 0) { auto &e = r.m_entries.at(n); vp_check(e.compressed_size == c, "the compressed size is read"); vp_check(e.uncompressed_size == u, "the uncompressed size is read"); vp_check(e.offset == o, "the offset is read"); return true; }
template <class R> static bool entry_is(R &, const Str &, U64, U64, U64, long) { return false; }
template <class W> static auto entry_set(W &w, U64 c, U64 u, U64 o, int) -> decltype(w.m_entries.at(0).compressed_size = c, w.m_entries.at(0).uncompressed_size = u, w.m_entries.at(0).offset = o, true) { auto &e = w.m_entries.at(0); e.compressed_size = c; e.uncompressed_size = u; e.offset = o; return true; }
template <class W> static bool entry_set(W &, U64, U64, U64, long) { return false; }
static Str central(const Str &name, U64 method, std::uint32_t crc, U64 c, U64 u, U64 o, bool zs, bool zo) {
  Str x, r; if (zs || zo) { le(x, 1, 2); le(x, (zs ? 16 : 0) + (zo ? 8 : 0), 2); if (zs) { le(x, u, 8); le(x, c, 8); } if (zo) le(x, o, 8); }
  r = "PK\1\2"; le(r, 45, 2); le(r, 45, 2); le(r, 0, 2); le(r, method, 2); le(r, 0x210000, 4); le(r, crc, 4); le(r, zs ? PH : c, 4); le(r, zs ? PH : u, 4); le(r, name.size(), 2); le(r, x.size(), 2); le(r, 0, 2); le(r, 0, 4); le(r, 0, 4); le(r, zo ? PH : o, 4); return r + name + x;
}
static Str local(const Str &name, U64 method, std::uint32_t crc, U64 c, U64 u, bool zs) {
  Str x, r; if (zs) { le(x, 1, 2); le(x, 16, 2); le(x, u, 8); le(x, c, 8); }
  r = "PK\3\4"; le(r, 45, 2); le(r, 0, 2); le(r, method, 2); le(r, 0x210000, 4); le(r, crc, 4); le(r, zs ? PH : c, 4); le(r, zs ? PH : u, 4); le(r, name.size(), 2); le(r, x.size(), 2); return r + name + x;
}
static Str fin(U64 n, U64 size, U64 off) { Str r = "PK\5\6"; le(r, 0, 4); le(r, n, 2); le(r, n, 2); le(r, size, 4); le(r, off, 4); le(r, 0, 2); return r; }
static void sym_le(Str &s, size_t at, const char *name) { vp_sym(&s[at], 8, name); }
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0);
  if (mode == 0) { // an entry far into the file: the directory comes first, then zeros, the entry and the end
    static const U64 P[14] = {0x7FFFFFFE, 0x80000000, 0x8FFFFFFF, 0x90000000, 0xFFFFFFFE, 0xFFFFFFFF, 0x100000000, 0x100000001, 0x123456789, 0x17FFFFFFF, 0x180000000, 0x1FFFFFFFF, 0x200000000, 0x234567891};
    U64 p = P[vp_param("p", 0)]; unsigned how = vp_param("how", 0); // 0 right, 1 one bit of the offset wrong, 2 any offset beyond the end
    bool zo = p >= PH || how == 2 || vp_choose(2, "zip64 offset"); Str raw = small_npy("xyE"); Str lo = local("a.npy", 0, stub_crc(raw.size()), raw.size(), raw.size(), false); U64 size = p + lo.size() + raw.size() + 22, o = p;
    if (how == 1) o ^= (U64)1 << vp_choose(zo ? 64 : 32, "bit");
    Str cd = central("a.npy", 0, stub_crc(raw.size()), raw.size(), raw.size(), o, false, zo); if (how == 2) { sym_le(cd, cd.size() - 8, "offset"); U64 v = get_le(cd, cd.size() - 8, 8); vp_assume(v >= size); }
    const char *f = vp_path("far.npz"); vp_make_file(f, size); Str tail = lo + raw + fin(1, cd.size(), 0); vp_patch_file(f, 0, cd.data(), cd.size()); vp_patch_file(f, p, tail.data(), tail.size());
    npy::npzfilereader r(f); Big b; int k = outcome([&] { b = r.read<Big>("a"); }); vp_check(k != OTHER, "only standard exceptions are thrown");
    if (how == 0) vp_check(k == OK_ && b.seen == 3 && b.last == 'E', "an entry beyond 32 bits is read from where it is"); else vp_check(k != OK_, "no entry is read from another place"); vp_reach(how == 0 ? "far" : how == 1 ? "wrong offset" : "beyond the end"); observe("outcome", k);
  } else if (mode == 1) { // sizes of 64 bits in both headers
    Str raw = small_npy("xyE"); unsigned which = vp_param("which", 0); U64 n = raw.size(); std::uint32_t crc = stub_crc(n);
    Str a = local("a.npy", 0, crc, n, n, true); size_t at = 30 + 5 + 4 + (which ? 8 : 0); sym_le(a, at, "local size"); U64 x = get_le(a, at, 8); a += raw; U64 cd = a.size(); a += central("a.npy", 0, crc, n, n, 0, true, false); at = cd + 46 + 5 + 4 + (which ? 8 : 0); U64 y = n;
    if (vp_param("both", 0)) { sym_le(a, at, "directory size"); y = get_le(a, at, 8); vp_assume((x == n) + (y == n) == 1 || x == y); if (which) vp_assume(y == n); } U64 e = a.size(); a += fin(1, e - cd, cd);
    vp_heap_limit(1 << 20); Big b; int k = outcome([&] { npy::npzstringreader r(a); b = r.read<Big>("a"); }); vp_check(k != OTHER, "only standard exceptions are thrown");
    if (x == n && y == n) vp_check(k == OK_ && b.seen == 3 && b.last == 'E', "an entry with sizes in ZIP64 form is read"); else if (x != y) vp_check(k != OK_, "sizes that differ are refused"); vp_reach(x == y ? "equal sizes" : "other sizes"); observe("outcome", k);
  } else if (mode == 2) { // an entry of more than 32 bits: the directory, the entry, the end
    static const U64 N[8] = {0x8FFFFFFF, 0x90000000, 0xFFFFFFFE, 0xFFFFFFFF, 0x100000000, 0x100000001, 0x123456789, 0x180000000}; U64 n = N[vp_param("size", 0)]; bool z = n >= PH || vp_choose(2, "zip64 sizes"); bool def = vp_param("method", 0); U64 c = def ? 1000 : n; g_m = c;
    Str h = small_npy("", 0); { std::ostringstream o; Big b; b.n = 1; npy::save<Big>(o, b); h = o.str(); h.pop_back(); } size_t q = h.find("(1,)"); Str d = num(n - h.size()); Str hh = h; hh.replace(q, 4, "(" + d + ",)"); for (size_t i = 1; i < d.size(); i++) hh.erase(hh.size() - 2, 1); vp_check(hh.size() == h.size(), "harness");
    const char *f = vp_path("large.npz"); Str lo = local("a.npy", def ? 8 : 0, stub_crc(n), c, n, z), cd = central("a.npy", def ? 8 : 0, stub_crc(n), c, n, 0, z, false); cd = central("a.npy", def ? 8 : 0, stub_crc(n), c, n, cd.size(), z, false); Str e = fin(1, cd.size(), 0);
    U64 size = cd.size() + lo.size() + c + e.size(); vp_make_file(f, size); Str head = cd + lo + (def ? Str() : hh); vp_patch_file(f, 0, head.data(), head.size()); Str tail = (def ? Str(1, '\0') : Str("E")) + e; vp_patch_file(f, size - tail.size(), tail.data(), tail.size());
    if (def) { g_raw = Str(n, '\0'); for (size_t i = 0; i < hh.size(); i++) g_raw[i] = hh[i]; g_raw.back() = 'E'; }
    npy::npzfilereader r(f); Big b; int k = outcome([&] { b = r.read<Big>("a"); }); vp_check(k == OK_ && b.n == n - h.size() && b.seen == b.n && b.last == 'E', "an entry of more than 32 bits is read whole"); vp_reach("large entry"); observe("size", b.seen);
  } else if (mode == 3) { // writing: an entry of n bytes (compressed to m), then a small one
    static const U64 N[9] = {0x7FFFFFFF, 0x8FFFFFFF, 0x90000000, 0xF0000000, 0xFFFFFFFE, 0xFFFFFFFF, 0x100000000, 0x123456789, 0x180000000}, M[3] = {1000, 0x8FFFFFFF, 0x90000000}; U64 n = N[vp_param("size", 0)]; bool def = vp_param("method", 0); unsigned pre = vp_param("pre", 0);
    U64 h = big_raw(1).size() - 1; npy::npzstringwriter w(def ? CM::DEFLATED : CM::STORED); Big one, big; one.n = 1; big.n = n - h; std::vector<Ent> es; U64 at = 0; bool z = false; auto add = [&](const Str &name, const Big &b, U64 m) { g_m = m; U64 u = b.n + h, c = def ? m : u; w.write(name, b); es.push_back({name + ".npy", def ? 8u : 0u, stub_crc(u), c, u, at}); z = u > 0x8FFFFFFF || c > 0x8FFFFFFF; at += 30 + name.size() + 4 + c; };
    if (pre) add("b", one, 77); U64 m = M[vp_param("m", 0)]; add("a", big, m); // the size of the extra field is the library's choice
    U64 room = (U64)w.m_output.tellp() - at; vp_check(room == 0 || room == 20, "room for the ZIP64 field"); at += room; if (n < 0xF0000000 || def) add("c", one, 78);
    int k = outcome([&] { w.close(); }); vp_check(k != OTHER, "only standard exceptions are thrown"); if (at > PH) { vp_check(k != OK_, "a directory out of reach is refused"); vp_reach("refused"); return; }
    vp_check(k == OK_, "the archive is finished"); const Str a = w.str(); parse(a, es);
    npy::npzstringreader r(a); if (def) { g_m = m; g_raw = big_raw(n - h); } Big b = r.read<Big>("a"); vp_check(b.n == n - h && b.seen == b.n && b.last == 'E', "a large entry is read back"); for (const Ent &x : es) if (x.name != "a.npy") { if (def) { g_m = x.c; g_raw = big_raw(1); } b = r.read<Big>(x.name); vp_check(b.n == 1 && b.seen == 1 && b.last == 'E', "a small entry is read back"); } vp_reach(z ? "written" : "written");
  } else if (mode == 4) { // writing: every uncompressed size below 8 GiB (the bytes themselves do not matter to anyone but the codec)
    U64 u; vp_sym(&u, 8, "size"); vp_assume(u < (U64)8 << 30); Str s; s.reserve((U64)8 << 30); std::memcpy((char *)&s + 8, &u, 8); g_m = vp_choose(2, "compressed") ? 5 : 0; npy::npzstringwriter w(CM::DEFLATED);
    bool done = put(w, "a.npy", std::move(s), 0); u &= ((U64)1 << 40) - 1; std::memset((char *)&s + 8, 0, 8); if (!done) vp_end(); w.close(); Str a = w.str(); parse(a, {{"a.npy", 8, stub_crc(u), g_m, u, 0}}); vp_reach("any size");
  } else if (mode == 6) { // reading the directory: every 64-bit size and offset, in every form that can say it
    U64 c, u, o; vp_sym(&c, 8, "compressed"); vp_sym(&u, 8, "uncompressed"); vp_sym(&o, 8, "offset"); bool zu = vp_choose(2, "zip64 uncompressed"), zc = vp_choose(2, "zip64 compressed"), zo = vp_choose(2, "zip64 offset"), other = vp_choose(2, "other field"); if (!zu) vp_assume(u < PH); if (!zc) vp_assume(c < PH); if (!zo) vp_assume(o < PH);
    Str x, a; if (other) { le(x, 0x5455, 2); le(x, 3, 2); x += "abc"; } if (zu || zc || zo) { le(x, 1, 2); le(x, 8 * (zu + zc + zo), 2); if (zu) le(x, u, 8); if (zc) le(x, c, 8); if (zo) le(x, o, 8); }
    a = "PK\1\2"; le(a, 45, 2); le(a, 45, 2); le(a, 0, 2); le(a, 0, 2); le(a, 0x210000, 4); le(a, 0x12345678, 4); le(a, zc ? PH : c, 4); le(a, zu ? PH : u, 4); le(a, 5, 2); le(a, x.size(), 2); le(a, 0, 2); le(a, 0, 4); le(a, 0, 4); le(a, zo ? PH : o, 4); a += "a.npy" + x; a += fin(1, a.size(), 0);
    npy::npzstringreader r(a); vp_check(r.keys().size() == 1 && r.keys()[0] == "a.npy", "the entry is listed"); if (!entry_is(r, "a.npy", c, u, o, 0)) vp_end(); vp_reach("directory read");
  } else if (mode == 7) { // writing the directory: every 64-bit size and offset
    npy::npzstringwriter w; Big b; b.n = 1; w.write("a", b); U64 c, u, o, h = big_raw(1).size(); vp_sym(&c, 8, "compressed"); vp_sym(&u, 8, "uncompressed"); vp_sym(&o, 8, "offset"); if (!entry_set(w, c, u, o, 0)) vp_end(); w.close(); Str a = w.str(); size_t e = a.size() - 22, at = get_le(a, e + 16, 4);
    vp_check(at == 30 + 5 + h && at + get_le(a, e + 12, 4) == e && at + 46 + 5 <= e && get_le(a, at, 4) == 0x02014b50, "a directory of one entry"); U64 wc = get_le(a, at + 20, 4), wu = get_le(a, at + 24, 4), wo = get_le(a, at + 42, 4); size_t xl = (size_t)vp_concretize(get_le(a, at + 30, 2)); vp_check(at + 46 + 5 + xl == e, "a directory of one entry"); sizes(a, at + 46 + 5, xl, false, wu, wc, wo, (unsigned)get_le(a, at + 6, 2));
    vp_check(wu == u, "the uncompressed size in the directory"); vp_check(wc == c, "the compressed size in the directory"); vp_check(wo == o, "the offset in the directory"); vp_reach("directory written");
  } else if (mode == 5) { // more entries and longer names than the format has room for
    unsigned n = vp_param("n", 65535), k0 = vp_param("name", 0); npy::npzstringwriter w; Big b; b.n = 1; int k = OK_;
    if (k0) { Str name(k0 - 4, 'n'); k = outcome([&] { w.write(name, b); }); vp_check(k != OTHER, "only standard exceptions are thrown"); if (k0 > 0xFFFF) { vp_check(k != OK_, "a name the format has no room for is refused"); w.write("b", b); w.close(); npy::npzstringreader r(w.str()); vp_check(r.keys().size() == 1 && r.read<Big>("b").last == 'E', "the rest of the archive is whole"); } else { vp_check(k == OK_, "a long name is written"); w.close(); npy::npzstringreader r(w.str()); vp_check(r.keys().size() == 1 && r.keys()[0] == name + ".npy" && r.read<Big>(name).last == 'E', "a long name is read back"); } vp_reach("names"); return; }
    for (unsigned i = 0; i < n; i++) w.write(num(i), b); k = outcome([&] { w.close(); }); vp_check(k != OTHER, "only standard exceptions are thrown");
    if (n > 0xFFFF) vp_check(k != OK_, "more entries than the format has room for are refused"); else { vp_check(k == OK_, "the archive is finished"); npy::npzstringreader r(w.str()); vp_check(r.keys().size() == n && r.read<Big>(num(n - 1)).last == 'E', "every entry is there"); } vp_reach("entries");
  }
}

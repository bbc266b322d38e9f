// Shared by the harnesses: element types, reference encodings and reference parsers.  Nothing in
// here calls the library except where a name says so.
#ifndef VP_COMMON_H
#define VP_COMMON_H
#include "npy/npy.h"
#include "vp.h"
#include <complex>
#include <cstdint>
#include <cstring>
#include <exception>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

typedef std::string Str;
typedef std::vector<size_t> Shape;
typedef npy::data_type_t DT;
typedef npy::endian_t EN;
template <class T> struct Tag { typedef T type; };

enum { NT = 14, T_BOOL = 12, T_STR = 13 };
static const char *const KIND[NT] = {"i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "b1", "U"};
static const unsigned ISZ[NT] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 8, 16, 1, 4};   // bytes per element (per character)
static const unsigned UNIT[NT] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 4, 8, 1, 4};   // bytes swapped together
static const EN ENDS[3] = {EN::LITTLE, EN::BIG, EN::NATIVE};

template <class F> static inline void with_type(unsigned t, F f) {
  switch (t) {
  case 0: f(Tag<std::int8_t>()); break;
  case 1: f(Tag<std::uint8_t>()); break;
  case 2: f(Tag<std::int16_t>()); break;
  case 3: f(Tag<std::uint16_t>()); break;
  case 4: f(Tag<std::int32_t>()); break;
  case 5: f(Tag<std::uint32_t>()); break;
  case 6: f(Tag<std::int64_t>()); break;
  case 7: f(Tag<std::uint64_t>()); break;
  case 8: f(Tag<float>()); break;
  case 9: f(Tag<double>()); break;
  case 10: f(Tag<std::complex<float>>()); break;
  case 11: f(Tag<std::complex<double>>()); break;
  case 12: f(Tag<npy::boolean>()); break;
  case 13: f(Tag<std::wstring>()); break;
  }
}
static inline bool machine_big() { std::uint16_t v = 0x0102; unsigned char c; memcpy(&c, &v, 1); return c == 1; }
static inline bool is_big(EN e) { return e == EN::NATIVE ? machine_big() : e == EN::BIG; }

// Runs f and says how it ended.
enum { OK_ = 0, STDEXC = 1, OTHER = 2, INVARG = 3 };
template <class F> static inline int outcome(F f) {
  try { f(); return OK_; } catch (const std::invalid_argument &) { return INVARG; } catch (const std::exception &) { return STDEXC; } catch (...) { return OTHER; }
}
template <class F> static inline bool throws(F f) { int r = outcome(f); vp_check(r != OTHER, "only standard exceptions are thrown"); return r != OK_; }

static inline Str num(size_t v) { char b[24]; int i = 24; do { b[--i] = (char)('0' + v % 10); v /= 10; } while (v); return Str(b + i, 24 - i); }

// ------------------------------------------------------------------ reference NPY encoding
static inline Str ref_code(unsigned t, bool big, size_t ulen = 0) {
  Str s(1, ISZ[t] == 1 ? '|' : big ? '>' : '<'); s += KIND[t]; if (t == T_STR) s += num(ulen); return s;
}
static inline Str ref_shape(const Shape &sh) {
  Str s = "("; for (size_t i = 0; i < sh.size(); i++) { s += num(sh[i]); if (i + 1 < sh.size()) s += ", "; } if (sh.size() == 1) s += ","; return s + ")";
}
static inline Str ref_dict(const Str &code, bool fortran, const Str &shape) { return "{'descr': '" + code + "', 'fortran_order': " + (fortran ? "True" : "False") + ", 'shape': " + shape + ", }"; }
// magic, version, length and dictionary; pad < 0: numpy's padding to 64, else that many blanks
static inline Str ref_header(const Str &dict, int version = 1, int pad = -1, bool newline = true) {
  size_t fixed = version == 1 ? 10 : 12, n = dict.size() + (newline ? 1 : 0);
  size_t p = pad >= 0 ? (size_t)pad : (64 - (fixed + n) % 64) % 64;
  n += p;
  Str h("\x93NUMPY", 6); h += (char)version; h += '\0'; h += (char)(n & 255); h += (char)((n >> 8) & 255);
  if (version == 2) { h += (char)((n >> 16) & 255); h += (char)((n >> 24) & 255); }
  h += dict; h += Str(p, ' '); if (newline) h += '\n'; return h;
}
static inline size_t ref_count(const Shape &s) { size_t n = 1; for (size_t d : s) n *= d; return n; }
// payload of n elements given as machine-order bytes
static inline void ref_payload(Str &out, const unsigned char *p, size_t n, unsigned t, bool big) {
  size_t u = UNIT[t], total = n * ISZ[t];
  for (size_t i = 0; i < total; i += u) for (size_t k = 0; k < u; k++) out.push_back((char)p[big == machine_big() ? i + k : i + (u - 1 - k)]);
}
static inline size_t max_len(const std::vector<std::wstring> &v) { size_t m = 0; for (auto &s : v) if (s.size() > m) m = s.size(); return m; }
static inline void ref_payload_str(Str &out, const std::vector<std::wstring> &v, size_t m, bool big) {
  for (auto &s : v) for (size_t j = 0; j < m; j++) { std::uint32_t c = j < s.size() ? (std::uint32_t)s[j] : 0; for (int k = 0; k < 4; k++) out.push_back((char)(c >> 8 * (big ? 3 - k : k))); }
}

// ------------------------------------------------------------------ reference NPY header parser
struct RefHeader { bool ok = false; Str code; bool fortran = false; Shape shape; size_t data = 0; bool overflow = false; unsigned t = 99; bool big = false; size_t ulen = 0; };
static bool ref_wrap = false; // do not look for numbers above 64 bits
static inline bool rws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static inline unsigned code_type(const Str &c, bool &big, size_t &ulen) {
  if (c.size() < 3) return 99;
  for (unsigned t = 0; t < NT - 1; t++) {
    if (c.compare(1, Str::npos, KIND[t]) != 0) continue;
    if (ISZ[t] == 1) return c[0] == '|' ? t : 99;
    if (c[0] == '<' || c[0] == '>') { big = c[0] == '>'; return t; }
    return 99;
  }
  if (c[1] == 'U' && (c[0] == '<' || c[0] == '>')) { big = c[0] == '>'; ulen = 0; for (size_t i = 2; i < c.size(); i++) { if (c[i] < '0' || c[i] > '9' || ulen > 300000000) return 99; ulen = ulen * 10 + (c[i] - '0'); } if (ulen > 2147483647) return 99; return T_STR; }
  return 99;
}
// Python literal dictionary with the three keys.  lenient: also accepts what is not canonical but
// still unambiguous (surrounding blanks, missing trailing comma, repeated keys: last one wins).
static inline bool ref_parse_dict(const char *p, size_t n, RefHeader &r) {
  size_t i = 0; int have = 0;
  auto ws = [&] { while (i < n && rws(p[i])) i++; };
  auto lit = [&](const char *s) { size_t k = strlen(s); if (i + k > n) return false; for (size_t j = 0; j < k; j++) if (p[i + j] != s[j]) return false; i += k; return true; };
  auto str = [&](Str &s) { if (i >= n || p[i] != '\'') return false; i++; s.clear(); while (i < n && p[i] != '\'') s.push_back(p[i++]); if (i >= n) return false; i++; return true; };
  if (!lit("{")) return false;
  ws();
  while (i < n && p[i] != '}') {
    Str key; if (!str(key)) return false;
    ws(); if (!lit(":")) return false; ws();
    if (key == "descr") { if (!str(r.code)) return false; have |= 1; }
    else if (key == "fortran_order") { if (lit("True")) r.fortran = true; else if (lit("False")) r.fortran = false; else return false; have |= 2; }
    else if (key == "shape") {
      if (!lit("(")) return false;
      ws(); r.shape.clear(); bool comma = true;
      while (i < n && p[i] != ')') {
        if (!comma) return false;
        size_t v = 0, k = 0; while (i < n && p[i] >= '0' && p[i] <= '9') { size_t d = (size_t)(p[i] - '0'); if (!ref_wrap && k >= 19 && (v > SIZE_MAX / 10 || (v == SIZE_MAX / 10 && d > SIZE_MAX % 10))) r.overflow = true; v = v * 10 + d; i++; k++; }
        if (!k) return false;
        r.shape.push_back(v); ws(); comma = i < n && p[i] == ','; if (comma) { i++; ws(); }
      }
      if (!lit(")")) return false;
      if (r.shape.size() == 1 && !comma) return false;
      have |= 4;
    } else return false;
    ws();
    if (i < n && p[i] != '}') { if (!lit(",")) return false; ws(); }
  }
  if (!lit("}")) return false;
  return have == 7 && !r.overflow;
}
static inline RefHeader ref_parse(const char *b, size_t n) {
  RefHeader r; const unsigned char *u = (const unsigned char *)b;
  if (n < 10 || u[0] != 0x93 || memcmp(b + 1, "NUMPY", 5)) return r;
  size_t len, off;
  if (u[6] == 1 && u[7] == 0) { len = u[8] | u[9] << 8; off = 10; }
  else if (u[6] == 2 && u[7] == 0) { if (n < 12) return r; len = u[8] | u[9] << 8 | u[10] << 16 | (size_t)u[11] << 24; off = 12; }
  else return r;
  if (len > n - off) return r;
  r.data = off + len;
  if (!ref_parse_dict(b + off, len, r)) return r;
  r.t = code_type(r.code, r.big, r.ulen);
  r.ok = r.t != 99;
  return r;
}

// ------------------------------------------------------------------ tensors with symbolic elements
template <class T> static inline void fill(npy::tensor<T> &t, const char *name = "el") {
  if (t.size()) vp_sym(t.data(), t.size() * sizeof(T), name);
}
static inline void fill(npy::tensor<npy::boolean> &t, const char *name = "el") {
  if (!t.size()) return;
  std::vector<unsigned char> b(t.size()); vp_sym(b.data(), b.size(), name);
  for (size_t i = 0; i < b.size(); i++) { vp_assume(b[i] <= 1); memcpy(t.data() + i, &b[i], 1); }
}
// up to `free_` strings get every length 0..maxl, the others length 1
static inline std::wstring sym_wstring(size_t len, const char *name) { std::wstring s(len, L'\0'); if (len) vp_sym(&s[0], len * 4, name); return s; }
static inline void fill(npy::tensor<std::wstring> &t, const char *name = "el", unsigned maxl = 2, unsigned free_ = 2) {
  for (size_t i = 0; i < t.size(); i++) t.data()[i] = sym_wstring(i < free_ ? vp_choose(maxl + 1, "len") : 1, name);
}
static inline std::wstring rtrim(std::wstring s) { while (!s.empty() && s.back() == 0) s.pop_back(); return s; }

template <class T> static inline bool same_bits(const T &a, const T &b) { return memcmp(&a, &b, sizeof(T)) == 0; }
static inline bool same_bits(const std::wstring &a, const std::wstring &b) { return a == b; }
template <class T> static inline T canon(const T &a) { return a; }
static inline std::wstring canon(const std::wstring &a) { return rtrim(a); }
// every element of b is the one saved from a
template <class T> static inline bool same_elements(const npy::tensor<T> &a, const npy::tensor<T> &b) {
  if (a.size() != b.size()) return false;
  return a.size() == 0 || memcmp(a.data(), b.data(), a.size() * sizeof(T)) == 0;
}
static inline bool same_elements(const npy::tensor<std::wstring> &a, const npy::tensor<std::wstring> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (rtrim(a.data()[i]) != b.data()[i]) return false;
  return true;
}
template <class T> static inline void check_same(const npy::tensor<T> &a, const npy::tensor<T> &b) {
  vp_check(a.dtype() == b.dtype(), "same element type");
  vp_check(a.shape() == b.shape(), "same shape");
  vp_check(a.fortran_order() == b.fortran_order(), "same storage order");
  vp_check(same_elements(a, b), "same elements");
}
template <class T> static inline void observe(const char *name, const npy::tensor<T> &a) { vp_observe(name, a.data(), a.size() * sizeof(T)); }
static inline void observe(const char *name, const npy::tensor<std::wstring> &a) { for (size_t i = 0; i < a.size(); i++) vp_observe(name, a.data()[i].data(), a.data()[i].size() * 4); }
static inline void observe(const char *name, const Str &s) { vp_observe(name, s.data(), s.size()); }
static inline void observe(const char *name, unsigned long v) { vp_observe(name, &v, sizeof v); }

// reference payload of a tensor
template <class T> static inline void tensor_payload(Str &out, const npy::tensor<T> &t, unsigned ty, bool big, size_t &ulen) { ulen = 0; ref_payload(out, (const unsigned char *)t.data(), t.size(), ty, big); }
static inline void tensor_payload(Str &out, const npy::tensor<std::wstring> &t, unsigned, bool big, size_t &ulen) { ulen = max_len(t.values()); ref_payload_str(out, t.values(), ulen, big); }

// one of a family of small shapes, one path each
static inline Shape pick_shape(unsigned maxnd, unsigned lim, unsigned maxtotal) {
  unsigned nd = vp_choose(maxnd + 1, "ndim"); Shape s; size_t total = 1;
  for (unsigned i = 0; i < nd; i++) { size_t d = vp_choose(lim + 1, "dim"); s.push_back(d); if (d) total *= d; }
  if (total > maxtotal) vp_end();
  return s;
}
static inline Str read_back(const char *path) { long n = vp_file_size(path); Str s(n > 0 ? n : 0, '\0'); if (n > 0) vp_read_file(path, &s[0], n); return s; }
static inline void put_file(const char *path, const Str &s) { vp_write_file(path, s.data(), s.size()); }

// machine-order bytes <- file-order bytes
static inline Str ref_unpack(const char *p, size_t n, unsigned t, bool big) {
  Str o; size_t u = UNIT[t], total = n * ISZ[t];
  for (size_t i = 0; i < total; i += u) for (size_t k = 0; k < u; k++) o.push_back(p[big == machine_big() ? i + k : i + (u - 1 - k)]);
  return o;
}
#endif

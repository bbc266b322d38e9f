// Reference ZIP reader and writer, CRC-32 and INFLATE, written from the format descriptions
// (APPNOTE.TXT, RFC 1951) and independent of the library.
#ifndef VP_ZIPREF_H
#define VP_ZIPREF_H
#include "common.h"
typedef npy::compression_method_t CM;
static inline std::uint32_t ref_crc(const void *p, size_t n) {
  const unsigned char *b = (const unsigned char *)p; std::uint32_t c = 0xFFFFFFFFu;
  for (size_t i = 0; i < n; i++) { c ^= b[i]; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1))); }
  return ~c;
}
static inline std::uint32_t ref_crc(const Str &s) { return ref_crc(s.data(), s.size()); }
static inline void le(Str &o, std::uint64_t v, int n) { for (int i = 0; i < n; i++) o.push_back((char)(v >> 8 * i)); }
static inline std::uint64_t get_le(const Str &s, size_t at, int n) { std::uint64_t v = 0; for (int i = n; i-- > 0;) v = v << 8 | (unsigned char)s[at + i]; return v; }

// ------------------------------------------------------------------ building archives
struct ZE {
  Str name, data;                    // data as stored in the archive
  std::uint16_t method = 0; std::uint32_t crc = 0; std::uint64_t usize = 0;
  // descriptive fields
  std::uint16_t made = 20, need = 20, flags = 0, disk = 0, iattr = 0, lneed = 20, lflags = 0; std::uint32_t time = 0x210000, ltime = 0x210000, eattr = 0x1800000;
  // form of sizes and offset: force ZIP64 in the local / central header
  bool lz64 = false, cz64_sizes = false, cz64_off = false, z64_only_field = false;
  Str lextra_before, lextra_after, cextra_before, cextra_after, comment;
  // size of the ZIP64 field beyond what is needed
  unsigned lpad = 0, cpad = 0;
};
static inline ZE z_stored(const Str &name, const Str &raw) { ZE e; e.name = name; e.data = raw; e.usize = raw.size(); e.crc = ref_crc(raw); return e; }
// raw blocks: what a compressor may always produce
static inline Str ref_deflate_stored(const Str &raw, size_t block = 0xFFFF) {
  Str o; size_t i = 0; do { size_t n = raw.size() - i; if (n > block) n = block; o.push_back(i + n == raw.size()); le(o, n, 2); le(o, ~n & 0xFFFF, 2); o += raw.substr(i, n); i += n; } while (i < raw.size()); return o;
}
// RFC 1951 fixed Huffman codes, runs as matches at distance 1 (for concrete bytes)
static inline Str ref_deflate_fixed(const Str &raw) {
  Str o; unsigned acc = 0, n = 0; auto bits = [&](unsigned v, unsigned k) { acc |= v << n; n += k; while (n >= 8) { o.push_back((char)acc); acc >>= 8; n -= 8; } };
  auto code = [&](unsigned v, unsigned k) { for (unsigned i = k; i-- > 0;) bits(v >> i & 1, 1); };
  auto sym = [&](unsigned v) { if (v < 144) code(0x30 + v, 8); else if (v < 256) code(0x190 + v - 144, 9); else if (v < 280) code(v - 256, 7); else code(0xC0 + v - 280, 8); };
  bits(1, 1); bits(1, 2);
  for (size_t i = 0; i < raw.size();) {
    size_t r = 0; if (i) while (i + r < raw.size() && r < 10 && raw[i + r] == raw[i - 1]) r++;
    if (r >= 3) { sym(254 + (unsigned)r); code(0, 5); i += r; } else sym((unsigned char)raw[i++]);
  }
  sym(256); if (n) bits(0, 8 - n); return o;
}
static inline ZE z_fixed(const Str &name, const Str &raw) { ZE e = z_stored(name, raw); e.method = 8; e.data = ref_deflate_fixed(raw); return e; }
static inline ZE z_deflated(const Str &name, const Str &raw) { ZE e = z_stored(name, raw); e.method = 8; e.data = ref_deflate_stored(raw); return e; }
struct Zip { Str bytes; std::vector<size_t> local, data; size_t cd = 0, end = 0; };
static inline Zip z_build(const std::vector<ZE> &es, const std::vector<size_t> &cdorder = {}) {
  Zip z; Str &o = z.bytes;
  for (const ZE &e : es) {
    z.local.push_back(o.size()); Str x = e.lextra_before;
    if (e.lz64 || e.z64_only_field) { le(x, 1, 2); le(x, (e.lz64 ? 16 : 0) + e.lpad, 2); if (e.lz64) { le(x, e.usize, 8); le(x, e.data.size(), 8); } x += Str(e.lpad, '\0'); }
    x += e.lextra_after;
    o += "PK\3\4"; le(o, e.lneed, 2); le(o, e.lflags, 2); le(o, e.method, 2); le(o, e.ltime, 4); le(o, e.crc, 4); le(o, e.lz64 ? 0xFFFFFFFF : e.data.size(), 4); le(o, e.lz64 ? 0xFFFFFFFF : e.usize, 4); le(o, e.name.size(), 2); le(o, x.size(), 2); o += e.name; o += x;
    z.data.push_back(o.size()); o += e.data;
  }
  z.cd = o.size();
  for (size_t k = 0; k < es.size(); k++) {
    size_t j = cdorder.empty() ? k : cdorder[k]; const ZE &e = es[j]; Str x = e.cextra_before;
    if (e.cz64_sizes || e.cz64_off || e.z64_only_field) { le(x, 1, 2); le(x, (e.cz64_sizes ? 16 : 0) + (e.cz64_off ? 8 : 0) + e.cpad, 2); if (e.cz64_sizes) { le(x, e.usize, 8); le(x, e.data.size(), 8); } if (e.cz64_off) le(x, z.local[j], 8); x += Str(e.cpad, '\0'); }
    x += e.cextra_after;
    o += "PK\1\2"; le(o, e.made, 2); le(o, e.need, 2); le(o, e.flags, 2); le(o, e.method, 2); le(o, e.time, 4); le(o, e.crc, 4); le(o, e.cz64_sizes ? 0xFFFFFFFF : e.data.size(), 4); le(o, e.cz64_sizes ? 0xFFFFFFFF : e.usize, 4); le(o, e.name.size(), 2); le(o, x.size(), 2); le(o, e.comment.size(), 2);
    le(o, e.disk, 2); le(o, e.iattr, 2); le(o, e.eattr, 4); le(o, e.cz64_off ? 0xFFFFFFFF : z.local[j], 4); o += e.name; o += x; o += e.comment;
  }
  z.end = o.size(); o += "PK\5\6"; le(o, 0, 4); le(o, es.size(), 2); le(o, es.size(), 2); le(o, z.end - z.cd, 4); le(o, z.cd, 4); le(o, 0, 2); return z;
}

// ------------------------------------------------------------------ RFC 1951
// 0 complete, 1 needs more input, 2 invalid
struct RefInflate {
  const unsigned char *p; size_t n, pos = 0; unsigned bitbuf = 0, bitcnt = 0; Str out; size_t lim; bool lenient = false;
  struct End { int r; };
  unsigned bit() { if (!bitcnt) { if (pos == n) throw End{1}; bitbuf = p[pos++]; bitcnt = 8; } unsigned b = bitbuf & 1; bitbuf >>= 1; bitcnt--; return b; }
  unsigned bits(unsigned k) { unsigned v = 0; for (unsigned i = 0; i < k; i++) v |= bit() << i; return v; }
  struct Huff { short count[16] = {}, sym[288] = {}; int left = 0; };
  static void build(Huff &h, const unsigned char *len, unsigned n) {
    short offs[16] = {}; for (short &c : h.count) c = 0; for (unsigned i = 0; i < n; i++) h.count[len[i]]++; h.left = 1; for (int l = 1; l < 16; l++) { h.left <<= 1; h.left -= h.count[l]; if (h.left < 0) return; }
    offs[1] = 0; for (int l = 1; l < 15; l++) offs[l + 1] = offs[l] + h.count[l]; for (unsigned i = 0; i < n; i++) if (len[i]) h.sym[offs[len[i]]++] = (short)i;
  }
  // lenient: any incomplete set of at most one code is a code; distances beyond the beginning stand for zero bytes
  static bool bad(const Huff &h, unsigned n) { return h.left < 0 || (h.left > 0 && (int)n - h.count[0] > 1); }
  int decode(const Huff &h) { int code = 0, first = 0, index = 0; for (int l = 1; l < 16; l++) { code |= bit(); int c = h.count[l]; if (code - c < first) return h.sym[index + (code - first)]; index += c; first += c; first <<= 1; code <<= 1; } throw End{2}; }
  void codes(const Huff &L, const Huff &D) {
    static const short lb[29] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}, lx[29] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
    static const short db[30] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577}, dx[30] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};
    for (;;) {
      int s = decode(L);
      if (s < 256) { out.push_back((char)s); if (out.size() > lim) throw End{3}; continue; }
      if (s == 256) return;
      s -= 257; if (s >= 29) throw End{2};
      unsigned len = lb[s] + bits(lx[s]); int d = decode(D); if (d >= 30) throw End{2};
      unsigned dist = db[d] + bits(dx[d]); if (dist > out.size() && !lenient) throw End{2};
      while (len--) out.push_back(dist > out.size() ? '\0' : out[out.size() - dist]);
      if (out.size() > lim) throw End{3};
    }
  }
  int run() {
    try {
      unsigned last;
      do {
        last = bit(); unsigned type = bits(2);
        if (type == 0) {
          bitcnt = 0; if (n - pos < 4) { throw End{1}; } unsigned len = p[pos] | p[pos + 1] << 8, nl = p[pos + 2] | p[pos + 3] << 8; pos += 4; if (len != (~nl & 0xFFFF)) throw End{2};
          if (n - pos < len) throw End{1}; out.append((const char *)p + pos, len); pos += len; if (out.size() > lim) throw End{3};
        } else if (type == 1) {
          unsigned char len[288]; for (int i = 0; i < 288; i++) len[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8; Huff L, D; build(L, len, 288); for (int i = 0; i < 32; i++) len[i] = 5; build(D, len, 32); codes(L, D);
        } else if (type == 2) {
          unsigned nl = bits(5) + 257, nd = bits(5) + 1, nc = bits(4) + 4; if ((nl > 286 || nd > 30) && !lenient) throw End{2};
          static const unsigned char ord[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}; unsigned char len[320] = {0}; for (unsigned i = 0; i < nc; i++) len[ord[i]] = (unsigned char)bits(3);
          Huff C, L, D; build(C, len, 19); if (lenient ? bad(C, 19) : C.left != 0) throw End{2};
          unsigned char ll[320]; unsigned i = 0; while (i < nl + nd) { int s = decode(C); if (s < 16) ll[i++] = (unsigned char)s; else { unsigned char prev = 0; unsigned rep; if (s == 16) { if (!i) throw End{2}; prev = ll[i - 1]; rep = 3 + bits(2); } else if (s == 17) rep = 3 + bits(3); else rep = 11 + bits(7); if (i + rep > nl + nd) throw End{2}; while (rep--) ll[i++] = prev; } }
          if (!ll[256]) throw End{2};
          build(L, ll, nl); if (lenient ? bad(L, nl) : L.left && (L.left < 0 || (int)nl != L.count[0] + L.count[1])) throw End{2};
          build(D, ll + nl, nd); if (lenient ? bad(D, nd) : D.left && (D.left < 0 || (int)nd != D.count[0] + D.count[1])) throw End{2};
          codes(L, D);
        } else throw End{2};
      } while (!last);
      return 0;
    } catch (const End &e) { return e.r; }
  }
};
static inline int ref_inflate(const Str &s, Str &out, size_t *used = 0, size_t lim = 1 << 22, bool lenient = false) { RefInflate r; r.lenient = lenient; r.p = (const unsigned char *)s.data(); r.n = s.size(); r.lim = lim; int k = r.run(); out = r.out; if (used) *used = r.pos; return k; }

// ------------------------------------------------------------------ checking archives
struct ZMember { Str name, raw; std::uint16_t method; size_t offset; };
// asserts that z is a well-formed ZIP file and returns its members in directory order
static inline std::vector<ZMember> z_check(const Str &z) {
  std::vector<ZMember> out; vp_check(z.size() >= 22, "the archive has an end record"); size_t e = z.size() - 22;
  vp_check(get_le(z, e, 4) == 0x06054b50, "the end record stands at the end"); vp_check(get_le(z, e + 4, 4) == 0 && get_le(z, e + 20, 2) == 0, "one disk, no comment");
  size_t n = get_le(z, e + 8, 2), size = get_le(z, e + 12, 4), off = get_le(z, e + 16, 4); vp_check(get_le(z, e + 10, 2) == n, "both entry counts agree"); vp_check(off + size == e, "the directory ends at the end record");
  size_t p = off, body = 0;
  for (size_t i = 0; i < n; i++) {
    vp_check(p + 46 <= e && get_le(z, p, 4) == 0x02014b50, "a directory record"); ZMember m; std::uint64_t cs = get_le(z, p + 20, 4), us = get_le(z, p + 24, 4), lo = get_le(z, p + 42, 4); size_t nl = get_le(z, p + 28, 2), xl = get_le(z, p + 30, 2), cl = get_le(z, p + 32, 2);
    m.method = (std::uint16_t)get_le(z, p + 10, 2); m.name = z.substr(p + 46, nl); vp_check(p + 46 + nl + xl + cl <= e, "the directory record fits"); vp_check(get_le(z, p + 34, 2) == 0, "the entry is on the only disk"); std::uint32_t crc = (std::uint32_t)get_le(z, p + 16, 4); std::uint16_t flags = (std::uint16_t)get_le(z, p + 8, 2), need = (std::uint16_t)get_le(z, p + 6, 2);
    vp_check(flags == 0, "no encryption, no data descriptor"); vp_check(need <= 45, "a version every tool reads"); vp_check(xl == 0, "no extra field is needed for small sizes");
    vp_check(lo == body, "the recorded offset is the true one"); size_t q = lo;
    vp_check(q + 30 <= off && get_le(z, q, 4) == 0x04034b50, "a local header stands at the offset"); size_t lnl = get_le(z, q + 26, 2), lxl = get_le(z, q + 28, 2);
    vp_check(get_le(z, q + 6, 2) == flags && get_le(z, q + 8, 2) == m.method && get_le(z, q + 14, 4) == crc && get_le(z, q + 18, 4) == cs && get_le(z, q + 22, 4) == us && lnl == nl && z.substr(q + 30, nl) == m.name && get_le(z, q + 10, 4) == get_le(z, p + 12, 4), "local header and directory agree");
    size_t d = q + 30 + lnl + lxl; vp_check(d + cs <= off, "the data fits"); m.offset = lo; Str data = z.substr(d, cs); body = d + cs;
    if (m.method == 0) { m.raw = data; vp_check(cs == us, "stored sizes are equal"); } else { vp_check(m.method == 8, "stored or deflated"); size_t used = 0; int r = ref_inflate(data, m.raw, &used); vp_check(r == 0 && used == data.size(), "the data is one complete deflate stream"); }
    vp_check(m.raw.size() == us, "the recorded size is that of the data"); vp_check(ref_crc(m.raw) == crc, "the recorded CRC-32 is that of the data");
    out.push_back(m); p += 46 + nl + xl + cl;
  }
  vp_check(p == e, "the directory has its recorded size"); vp_check(body == off, "the directory follows the last entry"); return out;
}
static inline Str full_name(const Str &n) { return n.size() >= 4 && n.compare(n.size() - 4, 4, ".npy") == 0 ? n : n + ".npy"; }
// a complete NPY file of one byte-sized array
static inline Str small_npy(const Str &payload, unsigned pad = 0) { return ref_header(ref_dict("|u1", false, "(" + num(payload.size()) + ",)"), 1, (int)pad) + payload; }
#endif

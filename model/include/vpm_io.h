// Character stream model: same interface and observable behaviour as libstdc++'s iostreams in the
// "C" locale, over strings and an in-memory file system.  Used only when the code is executed
// symbolically; every explored path can be replayed against the real libstdc++ for comparison.
#ifndef VPM_IO_H
#define VPM_IO_H 1
#include <iosfwd>
#include <string>
#include <cstring>
#include <cstdint>
#include <system_error>
#include <bits/localefwd.h>
#include <bits/char_traits.h>
extern "C" {
int vpm_utoa(unsigned long v, char *buf);
unsigned long vpm_mul10add(unsigned long v, unsigned d, int *ovf);
void vpm_unsupported(const char *what) __attribute__((noreturn));
int vpm_is_symbolic(unsigned long v);
int vpm_open(const char *path, int in, int out, int trunc, int app); // handle or -1
unsigned long vpm_fwrite(int h, unsigned long pos, const char *p, unsigned long n, int more); // more: continues the previous call
unsigned long vpm_fread(int h, unsigned long pos, char *p, unsigned long n);
unsigned long vpm_fsize(int h);
int vpm_exists(const char *path);
int vpm_remove(const char *path);
int vpm_fclose(int h);
}
namespace std {
class locale {
public:
  locale() noexcept {}
  locale(const locale &) noexcept {}
  explicit locale(const char *) {}
  const locale &operator=(const locale &) noexcept { return *this; }
  static const locale &classic();
  static locale global(const locale &) { return locale(); }
  string name() const { return "C"; }
  bool operator==(const locale &) const { return true; }
  typedef int category;
  static const category none = 0, ctype = 1, numeric = 2, collate = 4, time = 8, monetary = 16, messages = 32, all = 63;
};
template <class C> inline bool isspace(C c, const locale &) { return c == C(' ') || (c >= C(9) && c <= C(13)); }
template <class C> inline bool isdigit(C c, const locale &) { return c >= C('0') && c <= C('9'); }

class ios_base {
public:
  typedef unsigned fmtflags;
  static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384;
  static constexpr fmtflags adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = scientific | fixed;
  typedef unsigned iostate;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  typedef unsigned openmode;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  enum seekdir : int { beg = 0, cur = 1, end = 2 };
  class failure : public system_error {
  public:
    explicit failure(const string &s) : system_error(error_code(1, system_category()), s) {}
    explicit failure(const char *s, const error_code &c = error_code(1, system_category())) : system_error(c, s) {}
    failure(const string &s, const error_code &c) : system_error(c, s) {}
  };
  class Init { public: Init() {} };
  enum event { erase_event, imbue_event, copyfmt_event };
  typedef void (*event_callback)(event, ios_base &, int);
  fmtflags flags() const { return _f; }
  fmtflags flags(fmtflags f) { fmtflags o = _f; _f = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = _f; _f |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = _f; _f = (_f & ~m) | (f & m); return o; }
  void unsetf(fmtflags m) { _f &= ~m; }
  streamsize precision() const { return _p; }
  streamsize precision(streamsize p) { streamsize o = _p; _p = p; return o; }
  streamsize width() const { return _w; }
  streamsize width(streamsize w) { streamsize o = _w; _w = w; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
  locale imbue(const locale &l) { return l; }
  locale getloc() const { return locale(); }
  virtual ~ios_base() {}
  ios_base(const ios_base &) = delete;
  ios_base &operator=(const ios_base &) = delete;
protected:
  ios_base() : _f(skipws | dec), _p(6), _w(0), _st(0), _ex(0) {}
  void _vpm_take(ios_base &o) { _f = o._f; _p = o._p; _w = o._w; _st = o._st; _ex = o._ex; }
  fmtflags _f; streamsize _p, _w; iostate _st, _ex;
};

template <class C, class T> class basic_streambuf {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  virtual ~basic_streambuf() {}
  locale pubimbue(const locale &l) { return l; }
  locale getloc() const { return locale(); }
  basic_streambuf *pubsetbuf(C *s, streamsize n) { return setbuf(s, n); }
  pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(o, d, m); }
  pos_type pubseekpos(pos_type p, ios_base::openmode m = ios_base::in | ios_base::out) { return seekpos(p, m); }
  int pubsync() { return sync(); }
  streamsize in_avail() { streamsize r = _g1 - _g; return r ? r : showmanyc(); }
  int_type snextc() { return T::eq_int_type(sbumpc(), T::eof()) ? T::eof() : sgetc(); }
  int_type sbumpc() { if (_g < _g1) { int_type r = T::to_int_type(*_g); ++_g; return r; } return uflow(); }
  int_type sgetc() { if (_g < _g1) return T::to_int_type(*_g); return underflow(); }
  streamsize sgetn(C *s, streamsize n) { return xsgetn(s, n); }
  int_type sputbackc(C c) { if (_g0 < _g && T::eq(c, _g[-1])) { --_g; return T::to_int_type(*_g); } return pbackfail(T::to_int_type(c)); }
  int_type sungetc() { if (_g0 < _g) { --_g; return T::to_int_type(*_g); } return pbackfail(); }
  int_type sputc(C c) { if (_q < _q1) { *_q = c; ++_q; return T::to_int_type(c); } return overflow(T::to_int_type(c)); }
  streamsize sputn(const C *s, streamsize n) { return xsputn(s, n); }
protected:
  basic_streambuf() : _g0(0), _g(0), _g1(0), _q0(0), _q(0), _q1(0) {}
  basic_streambuf(const basic_streambuf &) = default;
  basic_streambuf &operator=(const basic_streambuf &) = default;
  void swap(basic_streambuf &o) { std::swap(_g0, o._g0); std::swap(_g, o._g); std::swap(_g1, o._g1); std::swap(_q0, o._q0); std::swap(_q, o._q); std::swap(_q1, o._q1); }
  C *eback() const { return _g0; } C *gptr() const { return _g; } C *egptr() const { return _g1; }
  void gbump(int n) { _g += n; } void setg(C *a, C *b, C *c) { _g0 = a; _g = b; _g1 = c; }
  C *pbase() const { return _q0; } C *pptr() const { return _q; } C *epptr() const { return _q1; }
  void pbump(int n) { _q += n; } void setp(C *a, C *b) { _q0 = _q = a; _q1 = b; }
  virtual void imbue(const locale &) {}
  virtual basic_streambuf *setbuf(C *, streamsize) { return this; }
  virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode = ios_base::in | ios_base::out) { return pos_type(off_type(-1)); }
  virtual pos_type seekpos(pos_type, ios_base::openmode = ios_base::in | ios_base::out) { return pos_type(off_type(-1)); }
  virtual int sync() { return 0; }
  virtual streamsize showmanyc() { return 0; }
  virtual streamsize xsgetn(C *s, streamsize n) {
    streamsize r = 0;
    while (r < n) {
      streamsize a = _g1 - _g;
      if (a > 0) { if (a > n - r) a = n - r; T::copy(s, _g, a); s += a; r += a; _g += a; if (r == n) break; }
      int_type c = uflow(); if (T::eq_int_type(c, T::eof())) break;
      *s++ = T::to_char_type(c); ++r;
    }
    return r;
  }
  virtual int_type underflow() { return T::eof(); }
  virtual int_type uflow() { if (T::eq_int_type(underflow(), T::eof())) return T::eof(); int_type r = T::to_int_type(*_g); ++_g; return r; }
  virtual int_type pbackfail(int_type = T::eof()) { return T::eof(); }
  virtual streamsize xsputn(const C *s, streamsize n) {
    streamsize r = 0;
    while (r < n) {
      streamsize a = _q1 - _q;
      if (a > 0) { if (a > n - r) a = n - r; T::copy(_q, s, a); s += a; r += a; _q += a; if (r == n) break; }
      if (T::eq_int_type(overflow(T::to_int_type(*s)), T::eof())) break;
      ++s; ++r;
    }
    return r;
  }
  virtual int_type overflow(int_type = T::eof()) { return T::eof(); }
  C *_g0, *_g, *_g1, *_q0, *_q, *_q1;
};

template <class C, class T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  iostate rdstate() const { return _st; }
  void clear(iostate s = goodbit) { if (_sb) _st = s; else _st = s | badbit; if (_ex & _st) __throw_ios_failure("basic_ios::clear"); }
  void setstate(iostate s) { clear(_st | s); }
  void _M_setstate(iostate s) { _st |= s; if (_ex & s) throw; }
  bool good() const { return _st == 0; } bool eof() const { return _st & eofbit; } bool fail() const { return _st & (badbit | failbit); } bool bad() const { return _st & badbit; }
  iostate exceptions() const { return _ex; } void exceptions(iostate e) { _ex = e; clear(_st); }
  explicit basic_ios(basic_streambuf<C, T> *sb) : _sb(0), _tie(0), _fill(C(' ')) { init(sb); }
  virtual ~basic_ios() {}
  basic_ostream<C, T> *tie() const { return _tie; }
  basic_ostream<C, T> *tie(basic_ostream<C, T> *t) { auto *o = _tie; _tie = t; return o; }
  basic_streambuf<C, T> *rdbuf() const { return _sb; }
  basic_streambuf<C, T> *rdbuf(basic_streambuf<C, T> *s) { auto *o = _sb; _sb = s; clear(); return o; }
  basic_ios &copyfmt(const basic_ios &o) { if (this != &o) { _f = o._f; _p = o._p; _w = o._w; _fill = o._fill; _tie = o._tie; exceptions(o._ex); } return *this; }
  C fill() const { return _fill; } C fill(C c) { C o = _fill; _fill = c; return o; }
  char narrow(C c, char) const { return (char)c; } C widen(char c) const { return (C)c; }
protected:
  basic_ios() : _sb(0), _tie(0), _fill(C(' ')) {}
  void init(basic_streambuf<C, T> *sb) { _sb = sb; _st = sb ? goodbit : badbit; _ex = goodbit; _f = skipws | dec; _p = 6; _w = 0; _tie = 0; _fill = C(' '); }
  void set_rdbuf(basic_streambuf<C, T> *s) { _sb = s; }
  void move(basic_ios &o) { _vpm_take(o); _tie = o._tie; o._tie = 0; _fill = o._fill; _sb = 0; }
  void swap(basic_ios &o) { std::swap(_f, o._f); std::swap(_p, o._p); std::swap(_w, o._w); std::swap(_st, o._st); std::swap(_ex, o._ex); std::swap(_tie, o._tie); std::swap(_fill, o._fill); }
  basic_streambuf<C, T> *_sb; basic_ostream<C, T> *_tie; C _fill;
};

template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_ostream(basic_streambuf<C, T> *sb) { this->init(sb); }
  virtual ~basic_ostream() {}
  class sentry {
    bool _ok; basic_ostream &_o;
  public:
    explicit sentry(basic_ostream &o) : _ok(false), _o(o) { if (o.tie() && o.good()) o.tie()->flush(); if (o.good()) _ok = true; else if (o.bad()) o.setstate(ios_base::failbit); }
    ~sentry() { if (_o.flags() & ios_base::unitbuf) { if (_o.rdbuf() && _o.rdbuf()->pubsync() == -1) _o.setstate(ios_base::badbit); } }
    explicit operator bool() const { return _ok; }
    sentry(const sentry &) = delete;
  };
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_ostream &operator<<(bool b) { if (this->flags() & ios_base::boolalpha) { const char *s = b ? "true" : "false"; C t[6]; int n = 0; while (s[n]) { t[n] = (C)s[n]; n++; } return _vpm_pad(t, n); } return _vpm_num(b, false); }
  basic_ostream &operator<<(short v) { return _vpm_int(v, (unsigned short)v); }
  basic_ostream &operator<<(unsigned short v) { return _vpm_num(v, false); }
  basic_ostream &operator<<(int v) { return _vpm_int(v, (unsigned)v); }
  basic_ostream &operator<<(unsigned v) { return _vpm_num(v, false); }
  basic_ostream &operator<<(long v) { return _vpm_int(v, (unsigned long)v); }
  basic_ostream &operator<<(unsigned long v) { return _vpm_num(v, false); }
  basic_ostream &operator<<(long long v) { return _vpm_int(v, (unsigned long)v); }
  basic_ostream &operator<<(unsigned long long v) { return _vpm_num(v, false); }
  basic_ostream &operator<<(double) { vpm_unsupported("ostream << double"); }
  basic_ostream &operator<<(float) { vpm_unsupported("ostream << float"); }
  basic_ostream &operator<<(long double) { vpm_unsupported("ostream << long double"); }
  basic_ostream &operator<<(const void *p) { ios_base::fmtflags f = this->flags(); this->flags((f & ~(ios_base::basefield | ios_base::uppercase)) | ios_base::hex | ios_base::showbase); _vpm_num((unsigned long)p, false); this->flags(f); return *this; }
  basic_ostream &operator<<(nullptr_t) { const char *s = "nullptr"; C t[8]; for (int i = 0; i < 7; i++) t[i] = s[i]; return _vpm_pad(t, 7); }
  basic_ostream &operator<<(basic_streambuf<C, T> *sb) {
    sentry k(*this); bool any = false;
    if (k && sb) { for (;;) { int_type c = sb->sgetc(); if (T::eq_int_type(c, T::eof())) break; if (T::eq_int_type(this->rdbuf()->sputc(T::to_char_type(c)), T::eof())) break; sb->sbumpc(); any = true; } if (!any) this->setstate(ios_base::failbit); }
    else if (!sb) this->setstate(ios_base::badbit);
    return *this; }
  basic_ostream &put(C c) { sentry k(*this); if (k) { bool bad = false; try { bad = T::eq_int_type(this->rdbuf()->sputc(c), T::eof()); } catch (...) { this->_M_setstate(ios_base::badbit); } if (bad) this->setstate(ios_base::badbit); } return *this; }
  basic_ostream &write(const C *s, streamsize n) { sentry k(*this); if (k) { bool bad = false; try { bad = this->rdbuf()->sputn(s, n) != n; } catch (...) { this->_M_setstate(ios_base::badbit); } if (bad) this->setstate(ios_base::badbit); } return *this; }
  basic_ostream &flush() { if (this->rdbuf()) { sentry k(*this); if (k) { bool bad = false; try { bad = this->rdbuf()->pubsync() == -1; } catch (...) { this->_M_setstate(ios_base::badbit); } if (bad) this->setstate(ios_base::badbit); } } return *this; }
  pos_type tellp() { sentry k(*this); pos_type r = pos_type(-1); if (!this->fail()) r = this->rdbuf()->pubseekoff(0, ios_base::cur, ios_base::out); return r; }
  basic_ostream &seekp(pos_type p) { sentry k(*this); if (!this->fail()) { if (this->rdbuf()->pubseekpos(p, ios_base::out) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); } return *this; }
  basic_ostream &seekp(off_type o, ios_base::seekdir d) { sentry k(*this); if (!this->fail()) { if (this->rdbuf()->pubseekoff(o, d, ios_base::out) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); } return *this; }
  basic_ostream &_vpm_pad(const C *s, streamsize n) {
    sentry k(*this);
    if (k) {
      streamsize w = this->width(), padn = w > n ? w - n : 0; bool l = (this->flags() & ios_base::adjustfield) == ios_base::left, bad = false;
      try {
        if (!l) for (streamsize i = 0; i < padn && !bad; i++) bad = T::eq_int_type(this->rdbuf()->sputc(this->fill()), T::eof());
        if (!bad && this->rdbuf()->sputn(s, n) != n) bad = true;
        if (l) for (streamsize i = 0; i < padn && !bad; i++) bad = T::eq_int_type(this->rdbuf()->sputc(this->fill()), T::eof());
        this->width(0);
      } catch (...) { this->_M_setstate(ios_base::badbit); }
      if (bad) this->setstate(ios_base::badbit);
    }
    return *this;
  }
  basic_ostream &_vpm_int(long v, unsigned long u) { if ((this->flags() & ios_base::basefield) == ios_base::hex || (this->flags() & ios_base::basefield) == ios_base::oct) return _vpm_num(u, false); if (v < 0) return _vpm_num(0ul - (unsigned long)v, true); return _vpm_num((unsigned long)v, false); }
  basic_ostream &_vpm_num(unsigned long v, bool neg) {
    C b[72]; int n = 0; ios_base::fmtflags f = this->flags(), base = f & ios_base::basefield; bool up = f & ios_base::uppercase;
    if (base == ios_base::hex || base == ios_base::oct) {
      int sh = base == ios_base::hex ? 4 : 3; char t[24]; int k = 0; unsigned long x = v;
      do { unsigned dgt = (unsigned)(x & ((1u << sh) - 1)); t[k++] = (char)(dgt < 10 ? '0' + dgt : (up ? 'A' : 'a') + dgt - 10); x >>= sh; } while (x);
      if ((f & ios_base::showbase) && v) { b[n++] = C('0'); if (sh == 4) b[n++] = up ? C('X') : C('x'); }
      while (k) b[n++] = (C)t[--k];
    } else {
      char t[24]; int k = vpm_utoa(v, t);
      if (neg) b[n++] = C('-'); else if (f & ios_base::showpos) b[n++] = C('+');
      for (int i = 0; i < k; i++) b[n++] = (C)t[i];
    }
    if ((f & ios_base::adjustfield) == ios_base::internal && this->width() > n) vpm_unsupported("internal padding");
    return _vpm_pad(b, n);
  }
protected:
  basic_ostream() {}
  basic_ostream(basic_ostream &&o) : basic_ios<C, T>() { this->init(0); this->move(o); }
  basic_ostream &operator=(basic_ostream &&o) { basic_ios<C, T>::swap(o); return *this; }
  void swap(basic_ostream &o) { basic_ios<C, T>::swap(o); }
};
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, C c) { return o._vpm_pad(&c, 1); }
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, char c) { C t = (C)c; return o._vpm_pad(&t, 1); }
template <class T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { return o._vpm_pad(&c, 1); }
template <class T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { return o << (char)c; }
template <class T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { return o << (char)c; }
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, const C *s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o._vpm_pad(s, (streamsize)T::length(s)); }
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, const char *s) { basic_string<C> t; while (*s) t.push_back((C)*s++); return o._vpm_pad(t.data(), (streamsize)t.size()); }
template <class T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o._vpm_pad(s, (streamsize)T::length(s)); }
template <class T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const signed char *s) { return o << (const char *)s; }
template <class T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const unsigned char *s) { return o << (const char *)s; }
template <class C, class T> inline basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { o.put(C('\n')); return o.flush(); }
template <class C, class T> inline basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put(C()); }
template <class C, class T> inline basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o.flush(); }
template <class O, class V, class = decltype(static_cast<ios_base *>((typename remove_reference<O>::type *)nullptr)), class = typename enable_if<!is_lvalue_reference<O>::value>::type> inline O &&operator<<(O &&o, const V &v) { o << v; return (O &&)o; }
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; } inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &showbase(ios_base &b) { b.setf(ios_base::showbase); return b; } inline ios_base &noshowbase(ios_base &b) { b.unsetf(ios_base::showbase); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; } inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; } inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; } inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &unitbuf(ios_base &b) { b.setf(ios_base::unitbuf); return b; } inline ios_base &nounitbuf(ios_base &b) { b.unsetf(ios_base::unitbuf); return b; }

template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_istream(basic_streambuf<C, T> *sb) : _gc(0) { this->init(sb); }
  virtual ~basic_istream() {}
  class sentry {
    bool _ok;
  public:
    explicit sentry(basic_istream &i, bool noskip = false) : _ok(false) {
      ios_base::iostate err = 0;
      if (i.good()) {
        if (i.tie()) i.tie()->flush();
        if (!noskip && (i.flags() & ios_base::skipws)) {
          auto *sb = i.rdbuf(); int_type c = sb->sgetc();
          while (!T::eq_int_type(c, T::eof()) && std::isspace((char)T::to_char_type(c), locale())) c = sb->snextc();
          if (T::eq_int_type(c, T::eof())) err |= ios_base::eofbit;
        }
      }
      if (i.good() && err == 0) _ok = true; else { err |= ios_base::failbit; i.setstate(err); }
    }
    explicit operator bool() const { return _ok; }
  };
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
  basic_istream &operator>>(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
  basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_istream &operator>>(bool &v) { unsigned long x = 0; bool neg = false; unsigned st = _vpm_parse(x, neg); if (!(st & 8)) { if (x > 1 || neg) { v = true; st |= ios_base::failbit; } else v = x; } if (st & 7) this->setstate(st & 7); return *this; }
  template <class I> basic_istream &_vpm_geti(I &v) {
    unsigned long x = 0; bool neg = false; unsigned st = _vpm_parse(x, neg);
    if (st & 8) return *this; // the sentry refused
    const bool sg = I(-1) < I(0); const unsigned long mx = sg ? (unsigned long)((((unsigned long)1 << (sizeof(I) * 8 - 1)) - 1)) : (unsigned long)(I)(-1);
    if (st & 16) { v = sg ? (neg ? (I)(mx + 1) : (I)mx) : (I)mx; st |= ios_base::failbit; }
    else if (st & ios_base::failbit) v = 0;
    else if (sg) { if (x > mx + (neg ? 1 : 0)) { v = neg ? (I)(mx + 1) : (I)mx; st |= ios_base::failbit; } else v = (I)(neg ? 0ul - x : x); }
    else { if (x > mx) { v = (I)mx; st |= ios_base::failbit; } else v = (I)(neg ? 0ul - x : x); }
    if (st & 7) this->setstate(st & 7);
    return *this;
  }
  basic_istream &operator>>(short &v) { return _vpm_geti(v); } basic_istream &operator>>(unsigned short &v) { return _vpm_geti(v); }
  basic_istream &operator>>(int &v) { return _vpm_geti(v); } basic_istream &operator>>(unsigned &v) { return _vpm_geti(v); }
  basic_istream &operator>>(long &v) { return _vpm_geti(v); } basic_istream &operator>>(unsigned long &v) { return _vpm_geti(v); }
  basic_istream &operator>>(long long &v) { return _vpm_geti(v); } basic_istream &operator>>(unsigned long long &v) { return _vpm_geti(v); }
  basic_istream &operator>>(double &) { vpm_unsupported("istream >> double"); } basic_istream &operator>>(float &) { vpm_unsupported("istream >> float"); }
  streamsize gcount() const { return _gc; }
  int_type get() { _gc = 0; int_type c = T::eof(); unsigned e = 0; sentry k(*this, true); if (k) { c = this->rdbuf()->sbumpc(); if (!T::eq_int_type(c, T::eof())) _gc = 1; else e |= ios_base::eofbit; } if (!_gc) e |= ios_base::failbit; if (e) this->setstate(e); return c; }
  basic_istream &get(C &r) { _gc = 0; unsigned e = 0; sentry k(*this, true); if (k) { int_type c = this->rdbuf()->sbumpc(); if (!T::eq_int_type(c, T::eof())) { _gc = 1; r = T::to_char_type(c); } else e |= ios_base::eofbit; } if (!_gc) e |= ios_base::failbit; if (e) this->setstate(e); return *this; }
  basic_istream &get(C *s, streamsize n) { return get(s, n, C('\n')); }
  basic_istream &get(C *s, streamsize n, C dl) {
    _gc = 0; unsigned e = 0; sentry k(*this, true);
    if (k) { auto *sb = this->rdbuf(); int_type c = sb->sgetc(); while (_gc + 1 < n && !T::eq_int_type(c, T::eof()) && !T::eq_int_type(c, T::to_int_type(dl))) { *s++ = T::to_char_type(c); ++_gc; c = sb->snextc(); } if (T::eq_int_type(c, T::eof())) e |= ios_base::eofbit; }
    if (n > 0) *s = C(); if (!_gc) e |= ios_base::failbit; if (e) this->setstate(e); return *this; }
  basic_istream &get(basic_streambuf<C, T> &o, C dl = C('\n')) {
    _gc = 0; unsigned e = 0; sentry k(*this, true);
    if (k) { auto *sb = this->rdbuf(); int_type c = sb->sgetc(); while (!T::eq_int_type(c, T::eof()) && !T::eq_int_type(c, T::to_int_type(dl)) && !T::eq_int_type(o.sputc(T::to_char_type(c)), T::eof())) { ++_gc; c = sb->snextc(); } if (T::eq_int_type(c, T::eof())) e |= ios_base::eofbit; }
    if (!_gc) e |= ios_base::failbit; if (e) this->setstate(e); return *this; }
  basic_istream &getline(C *s, streamsize n) { return getline(s, n, C('\n')); }
  basic_istream &getline(C *s, streamsize n, C dl) {
    _gc = 0; unsigned e = 0; sentry k(*this, true);
    if (k) { auto *sb = this->rdbuf(); int_type c = sb->sgetc(); while (_gc + 1 < n && !T::eq_int_type(c, T::eof()) && !T::eq_int_type(c, T::to_int_type(dl))) { *s++ = T::to_char_type(c); ++_gc; c = sb->snextc(); }
      if (T::eq_int_type(c, T::eof())) e |= ios_base::eofbit; else if (T::eq_int_type(c, T::to_int_type(dl))) { ++_gc; sb->sbumpc(); } else e |= ios_base::failbit; }
    if (n > 0) *s = C(); if (!_gc) e |= ios_base::failbit; if (e) this->setstate(e); return *this; }
  basic_istream &ignore(streamsize n = 1, int_type dl = T::eof()) {
    _gc = 0; unsigned e = 0; sentry k(*this, true);
    if (k && n > 0) { auto *sb = this->rdbuf(); bool inf = n == __LONG_MAX__; while (inf || _gc < n) { int_type c = sb->sbumpc(); if (T::eq_int_type(c, T::eof())) { e |= ios_base::eofbit; break; } ++_gc; if (T::eq_int_type(c, dl)) break; } }
    if (e) this->setstate(e); return *this; }
  int_type peek() { int_type c = T::eof(); _gc = 0; sentry k(*this, true); if (k) { c = this->rdbuf()->sgetc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit); } return c; }
  basic_istream &read(C *s, streamsize n) { _gc = 0; sentry k(*this, true); if (k) { _gc = this->rdbuf()->sgetn(s, n); if (_gc != n) this->setstate(ios_base::eofbit | ios_base::failbit); } return *this; }
  streamsize readsome(C *s, streamsize n) { _gc = 0; sentry k(*this, true); if (k) { streamsize m = this->rdbuf()->in_avail(); if (m > 0) _gc = this->rdbuf()->sgetn(s, m < n ? m : n); else if (m == -1) this->setstate(ios_base::eofbit); } return _gc; }
  basic_istream &putback(C c) { _gc = 0; this->clear(this->rdstate() & ~ios_base::eofbit); sentry k(*this, true); if (k) { if (!this->rdbuf() || T::eq_int_type(this->rdbuf()->sputbackc(c), T::eof())) this->setstate(ios_base::badbit); } return *this; }
  basic_istream &unget() { _gc = 0; this->clear(this->rdstate() & ~ios_base::eofbit); sentry k(*this, true); if (k) { if (!this->rdbuf() || T::eq_int_type(this->rdbuf()->sungetc(), T::eof())) this->setstate(ios_base::badbit); } return *this; }
  int sync() { int r = -1; sentry k(*this, true); if (k) { if (this->rdbuf()->pubsync() == -1) this->setstate(ios_base::badbit); else r = 0; } return r; }
  pos_type tellg() { pos_type r = pos_type(-1); sentry k(*this, true); if (k) { if (!this->fail()) r = this->rdbuf()->pubseekoff(0, ios_base::cur, ios_base::in); } return r; }
  basic_istream &seekg(pos_type p) { this->clear(this->rdstate() & ~ios_base::eofbit); sentry k(*this, true); if (k) { if (!this->fail()) { if (this->rdbuf()->pubseekpos(p, ios_base::in) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); } } return *this; }
  basic_istream &seekg(off_type o, ios_base::seekdir d) { this->clear(this->rdstate() & ~ios_base::eofbit); sentry k(*this, true); if (k) { if (!this->fail()) { if (this->rdbuf()->pubseekoff(o, d, ios_base::in) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); } } return *this; }
  // returns iostate bits, 8 when the sentry failed, 16 on overflow
  unsigned _vpm_parse(unsigned long &out, bool &neg) {
    sentry k(*this, false); if (!k) return 8;
    auto *sb = this->rdbuf(); unsigned st = 0; int_type c = sb->sgetc(); ios_base::fmtflags bf = this->flags() & ios_base::basefield; int base = bf == ios_base::hex ? 16 : bf == ios_base::oct ? 8 : 10; bool any = false, ov = false;
    if (!T::eq_int_type(c, T::eof()) && (T::to_char_type(c) == C('-') || T::to_char_type(c) == C('+'))) { neg = T::to_char_type(c) == C('-'); c = sb->snextc(); }
    if (base != 10 || bf == 0) {
      if (!T::eq_int_type(c, T::eof()) && T::to_char_type(c) == C('0')) { any = true; c = sb->snextc(); if (bf == 0) base = 8; if ((base == 16 || bf == 0) && !T::eq_int_type(c, T::eof()) && (T::to_char_type(c) == C('x') || T::to_char_type(c) == C('X'))) { base = 16; any = false; c = sb->snextc(); } }
    }
    unsigned long v = 0;
    while (!T::eq_int_type(c, T::eof())) {
      C ch = T::to_char_type(c); unsigned dg;
      if (ch >= C('0') && ch <= C('9')) dg = (unsigned)(ch - C('0')); else if (base == 16 && ch >= C('a') && ch <= C('f')) dg = (unsigned)(ch - C('a')) + 10; else if (base == 16 && ch >= C('A') && ch <= C('F')) dg = (unsigned)(ch - C('A')) + 10; else break;
      if (dg >= (unsigned)base) break;
      any = true;
      if (!ov) { if (base == 10) { int o = 0; v = vpm_mul10add(v, dg, &o); if (o) ov = true; } else { if (v >> (base == 16 ? 60 : 61)) ov = true; v = (v << (base == 16 ? 4 : 3)) | dg; } }
      c = sb->snextc();
    }
    if (T::eq_int_type(c, T::eof())) st |= ios_base::eofbit;
    if (!any) st |= ios_base::failbit; else if (ov) st |= 16;
    out = v; return st;
  }
protected:
  streamsize _gc;
  basic_istream() : _gc(0) { this->init(0); }
  basic_istream(basic_istream &&o) : basic_ios<C, T>(), _gc(o._gc) { this->init(0); this->move(o); o._gc = 0; }
  basic_istream &operator=(basic_istream &&o) { swap(o); return *this; }
  void swap(basic_istream &o) { basic_ios<C, T>::swap(o); std::swap(_gc, o._gc); }
};
template <class C, class T> inline basic_istream<C, T> &operator>>(basic_istream<C, T> &i, C &c) { typename basic_istream<C, T>::sentry k(i, false); if (k) { auto x = i.rdbuf()->sbumpc(); if (T::eq_int_type(x, T::eof())) i.setstate(ios_base::eofbit | ios_base::failbit); else c = T::to_char_type(x); } return i; }
template <class T> inline basic_istream<char, T> &operator>>(basic_istream<char, T> &i, unsigned char &c) { return i >> (char &)c; }
template <class T> inline basic_istream<char, T> &operator>>(basic_istream<char, T> &i, signed char &c) { return i >> (char &)c; }
template <class C, class T> inline basic_istream<C, T> &ws(basic_istream<C, T> &i) { auto *sb = i.rdbuf(); auto c = sb->sgetc(); while (!T::eq_int_type(c, T::eof()) && std::isspace((char)T::to_char_type(c), locale())) c = sb->snextc(); if (T::eq_int_type(c, T::eof())) i.setstate(ios_base::eofbit); return i; }
template <class S, class V, class = decltype(static_cast<ios_base *>((typename remove_reference<S>::type *)nullptr)), class = typename enable_if<!is_lvalue_reference<S>::value>::type> inline S &&operator>>(S &&s, V &&v) { s >> std::forward<V>(v); return (S &&)s; }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_iostream(basic_streambuf<C, T> *sb) : basic_istream<C, T>(sb), basic_ostream<C, T>(sb) {}
  virtual ~basic_iostream() {}
protected:
  basic_iostream() {}
  basic_iostream(basic_iostream &&o) : basic_istream<C, T>((basic_istream<C, T> &&)o), basic_ostream<C, T>() {}
};
extern istream cin; extern ostream cout, cerr, clog;

// ---- string streams
inline namespace __cxx11 {
template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> {
public:
  typedef basic_string<C, T, A> string_type; typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_stringbuf(ios_base::openmode m = ios_base::in | ios_base::out) : _m(m), _buf(0), _cap(0), _end(0) {}
  explicit basic_stringbuf(const string_type &s, ios_base::openmode m = ios_base::in | ios_base::out) : _m(m), _buf(0), _cap(0), _end(0) { str(s); }
  basic_stringbuf(basic_stringbuf &&o) : _m(o._m), _buf(o._buf), _cap(o._cap), _end(o._end) { basic_streambuf<C, T>::swap(o); o._buf = 0; o._cap = o._end = 0; }
  basic_stringbuf &operator=(basic_stringbuf &&o) { swap(o); return *this; }
  void swap(basic_stringbuf &o) { basic_streambuf<C, T>::swap(o); std::swap(_m, o._m); std::swap(_buf, o._buf); std::swap(_cap, o._cap); std::swap(_end, o._end); }
  ~basic_stringbuf() { delete[] _buf; }
  string_type str() const { size_t e = _hi(); return (_m & (ios_base::out | ios_base::in)) && _buf ? string_type(_buf, e) : string_type(); }
  void str(const string_type &s) { delete[] _buf; _cap = s.size(); _end = s.size(); _buf = new C[_cap + 1]; T::copy(_buf, s.data(), s.size()); _init((_m & (ios_base::ate | ios_base::app)) ? s.size() : 0); }
protected:
  size_t _hi() const { size_t p = this->_q ? (size_t)(this->_q - _buf) : 0; return p > _end ? p : _end; }
  void _init(size_t ppos) { if (_m & ios_base::in) this->setg(_buf, _buf, _buf + _end); if (_m & ios_base::out) { this->_q0 = _buf; this->_q = _buf + ppos; this->_q1 = _buf + _cap; } }
  void _sync() { _end = _hi(); if (_m & ios_base::in) { if (!_buf) return; this->_g1 = _buf + _end; if (!this->_g0) { this->_g0 = this->_g = _buf; } } }
  void _grow(size_t need) {
    size_t nc = _cap < 256 ? 512 : _cap * 2; if (nc < need) nc = need; C *n = new C[nc + 1]; size_t e = _hi(), p = this->_q ? this->_q - _buf : 0, g = this->_g ? this->_g - _buf : 0; if (_buf) T::copy(n, _buf, e);
    delete[] _buf; _buf = n; _cap = nc; _end = e; this->_q0 = n; this->_q = n + p; this->_q1 = n + nc; if (_m & ios_base::in) this->setg(n, n + g, n + e);
  }
  int_type overflow(int_type c = T::eof()) override { if (!(_m & ios_base::out)) return T::eof(); if (T::eq_int_type(c, T::eof())) return T::not_eof(c); if (this->_q >= this->_q1) _grow((this->_q - this->_q0) + 1); *this->_q = T::to_char_type(c); ++this->_q; return c; }
  streamsize xsputn(const C *s, streamsize n) override { if (!(_m & ios_base::out)) return 0; if (n <= 0) return 0; if (this->_q1 - this->_q < n) _grow((this->_q - this->_q0) + n); T::copy(this->_q, s, n); this->_q += n; return n; }
  int_type underflow() override { if (!(_m & ios_base::in)) return T::eof(); _sync(); if (this->_g < this->_g1) return T::to_int_type(*this->_g); return T::eof(); }
  int_type pbackfail(int_type c = T::eof()) override { if (this->_g0 < this->_g) { bool e = T::eq_int_type(c, T::eof()); if (e) { --this->_g; return T::not_eof(c); } if (T::eq(T::to_char_type(c), this->_g[-1])) { --this->_g; return c; } if (_m & ios_base::out) { --this->_g; *this->_g = T::to_char_type(c); return c; } } return T::eof(); }
  streamsize showmanyc() override { if (_m & ios_base::in) { _sync(); return this->_g1 - this->_g; } return -1; }
  pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode m = ios_base::in | ios_base::out) override {
    pos_type r = pos_type(off_type(-1)); bool ti = (ios_base::in & _m & m) != 0, to = (ios_base::out & _m & m) != 0, tb = ti && to && d != ios_base::cur; ti &= !(m & ios_base::out); to &= !(m & ios_base::in);
    _sync(); off_type e = (off_type)_end;
    if ((_buf || !o) && (ti || to || tb)) {
      off_type ni = o, no = o;
      if (d == ios_base::cur) { ni += this->_g - this->_g0; no += this->_q - this->_q0; } else if (d == ios_base::end) { no = ni += e; }
      if ((ti || tb) && ni >= 0 && e >= ni) { this->setg(_buf, _buf + ni, _buf + e); r = pos_type(ni); }
      if ((to || tb) && no >= 0 && e >= no) { this->_q = this->_q0 + no; r = pos_type(no); }
    }
    return r; }
  pos_type seekpos(pos_type p, ios_base::openmode m = ios_base::in | ios_base::out) override { pos_type r = pos_type(off_type(-1)); bool ti = (ios_base::in & _m & m) != 0, to = (ios_base::out & _m & m) != 0; _sync(); off_type e = (off_type)_end, o = off_type(p); if ((_buf || !o) && (ti || to)) { if (o >= 0 && o <= e) { if (ti) this->setg(_buf, _buf + o, _buf + e); if (to) this->_q = this->_q0 + o; r = p; } } return r; }
  ios_base::openmode _m; C *_buf; size_t _cap, _end;
};
#define VPM_SS(NAME, BASE, DEFM, FORCE)                                                                          \
  template <class C, class T, class A> class NAME : public BASE<C, T> {                                          \
  public:                                                                                                        \
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; typedef basic_string<C, T, A> string_type; \
    NAME() : _b(DEFM) { this->init(&_b); }                                                                       \
    explicit NAME(ios_base::openmode m) : _b(m | FORCE) { this->init(&_b); }                                     \
    explicit NAME(const string_type &s, ios_base::openmode m = DEFM) : _b(s, m | FORCE) { this->init(&_b); }     \
    NAME(NAME &&o) : BASE<C, T>((BASE<C, T> &&)o), _b((basic_stringbuf<C, T, A> &&)o._b) { this->set_rdbuf(&_b); } \
    NAME &operator=(NAME &&o) { BASE<C, T>::operator=((BASE<C, T> &&)o); _b = (basic_stringbuf<C, T, A> &&)o._b; return *this; } \
    ~NAME() {}                                                                                                   \
    basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&_b); }              \
    string_type str() const { return _b.str(); }                                                                 \
    void str(const string_type &s) { _b.str(s); }                                                                \
  private:                                                                                                       \
    basic_stringbuf<C, T, A> _b;                                                                                 \
  };
VPM_SS(basic_istringstream, basic_istream, ios_base::in, ios_base::in)
VPM_SS(basic_ostringstream, basic_ostream, ios_base::out, ios_base::out)
VPM_SS(basic_stringstream, basic_iostream, (ios_base::in | ios_base::out), 0)
} // namespace __cxx11

// ---- file streams
template <class C, class T> class basic_filebuf : public basic_streambuf<C, T> {
  static const long BUF = 8191;
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  basic_filebuf() : _h(-1), _m(0), _buf(0), _pos(0), _rd(false), _wr(false) {}
  basic_filebuf(basic_filebuf &&o) : _h(o._h), _m(o._m), _buf(o._buf), _pos(o._pos), _rd(o._rd), _wr(o._wr) { basic_streambuf<C, T>::swap(o); o._h = -1; o._buf = 0; o._m = 0; o._rd = o._wr = false; }
  basic_filebuf &operator=(basic_filebuf &&o) { close(); swap(o); return *this; }
  void swap(basic_filebuf &o) { basic_streambuf<C, T>::swap(o); std::swap(_h, o._h); std::swap(_m, o._m); std::swap(_buf, o._buf); std::swap(_pos, o._pos); std::swap(_rd, o._rd); std::swap(_wr, o._wr); }
  ~basic_filebuf() { close(); }
  bool is_open() const { return _h >= 0; }
  basic_filebuf *open(const string &s, ios_base::openmode m) { return open(s.c_str(), m); }
  basic_filebuf *open(const char *s, ios_base::openmode m) {
    static_assert(sizeof(C) == 1, "only byte streams are modelled");
    if (_h >= 0) return 0;
    bool in = m & ios_base::in, out = m & ios_base::out, tr = m & ios_base::trunc, ap = m & ios_base::app;
    if (!in && !out && !ap) return 0;
    if (tr && !out) return 0;
    if (out && !in && !ap) tr = true;
    _h = vpm_open(s, in, out || ap, tr, ap); if (_h < 0) return 0;
    _m = m; _pos = ap ? vpm_fsize(_h) : 0; _rd = _wr = false; _buf = new C[BUF + 1]; _set(-1);
    if (m & ios_base::ate) _pos = vpm_fsize(_h);
    return this;
  }
  basic_filebuf *close() {
    if (_h < 0) return 0;
    bool ok = _term(); if (vpm_fclose(_h) < 0) ok = false; _h = -1; _m = 0; _rd = _wr = false; delete[] _buf; _buf = 0; this->setg(0, 0, 0); this->setp(0, 0);
    return ok ? this : 0;
  }
protected:
  void _set(long off) { // as _M_set_buffer
    bool ti = _m & ios_base::in, to = (_m & ios_base::out) || (_m & ios_base::app);
    if (ti && off > 0) this->setg(_buf, _buf, _buf + off); else this->setg(_buf, _buf, _buf);
    if (to && off == 0) this->setp(_buf, _buf + BUF - 1); else this->setp(0, 0);
  }
  bool _flush(const C *p, long n) { if (_m & ios_base::app) _pos = vpm_fsize(_h); unsigned long w = vpm_fwrite(_h, _pos, p, (unsigned long)n, 0); _pos += w; return (long)w == n; }
  bool _term() { bool ok = true; if (this->_q0 < this->_q) { if (T::eq_int_type(overflow(), T::eof())) ok = false; } return ok; }
  int_type overflow(int_type c = T::eof()) override {
    if (_h < 0 || !((_m & ios_base::out) || (_m & ios_base::app))) return T::eof();
    bool e = T::eq_int_type(c, T::eof());
    if (_rd) { _pos -= this->_g1 - this->_g; _rd = false; _set(-1); }
    if (this->_q0 < this->_q) {
      if (!e) { *this->_q = T::to_char_type(c); ++this->_q; }
      if (_flush(this->_q0, this->_q - this->_q0)) { _set(0); return T::not_eof(c); }
      return T::eof();
    }
    _set(0); _wr = true;
    if (!e) { *this->_q = T::to_char_type(c); ++this->_q; }
    return T::not_eof(c);
  }
  streamsize xsputn(const C *s, streamsize n) override {
    if ((_m & (ios_base::out | ios_base::app)) && !_rd && _h >= 0) {
      streamsize av = this->_q1 - this->_q; if (!_wr) av = BUF - 1;
      if (n >= (av < 1024 ? av : 1024)) {
        streamsize fill = this->_q - this->_q0; unsigned long w = 0;
        if (_m & ios_base::app) _pos = vpm_fsize(_h);
        if (fill) { w = vpm_fwrite(_h, _pos, this->_q0, (unsigned long)fill, 0); _pos += w; }
        if ((streamsize)w == fill) { unsigned long w2 = vpm_fwrite(_h, _pos, s, (unsigned long)n, fill != 0); _pos += w2; w += w2; }
        if ((streamsize)w == fill + n) { _set(0); _wr = true; }
        return (streamsize)w > fill ? (streamsize)w - fill : 0;
      }
    }
    return basic_streambuf<C, T>::xsputn(s, n);
  }
  int_type underflow() override {
    if (_h < 0 || !(_m & ios_base::in)) return T::eof();
    if (_wr) { if (!_term()) return T::eof(); _wr = false; _set(-1); }
    if (this->_g < this->_g1) return T::to_int_type(*this->_g);
    unsigned long n = vpm_fread(_h, _pos, _buf, BUF);
    if (!n) { _set(0); _rd = false; return T::eof(); }
    _pos += n; _rd = true; _set((long)n); return T::to_int_type(*this->_g);
  }
  streamsize xsgetn(C *s, streamsize n) override {
    if (_h >= 0 && (_m & ios_base::in) && n > BUF) {
      if (_wr) { if (!_term()) return 0; _wr = false; _set(-1); }
      streamsize r = 0, a = this->_g1 - this->_g; if (a > 0) { T::copy(s, this->_g, a); s += a; r += a; n -= a; this->_g += a; }
      unsigned long got = vpm_fread(_h, _pos, s, (unsigned long)n); _pos += got; r += got;
      if ((streamsize)got == n) { _set(0); _rd = true; } else { _set(-1); _rd = false; }
      return r;
    }
    return basic_streambuf<C, T>::xsgetn(s, n);
  }
  streamsize showmanyc() override { if (_h < 0 || !(_m & ios_base::in)) return -1; return (this->_g1 - this->_g) + (streamsize)(vpm_fsize(_h) > _pos ? vpm_fsize(_h) - _pos : 0); }
  int_type pbackfail(int_type c = T::eof()) override { if (this->_g0 < this->_g) { bool e = T::eq_int_type(c, T::eof()); --this->_g; if (!e && !T::eq(T::to_char_type(c), *this->_g)) *this->_g = T::to_char_type(c); return T::not_eof(c); } return T::eof(); }
  int sync() override { if (this->_q0 < this->_q) { if (T::eq_int_type(overflow(), T::eof())) return -1; } return 0; }
  pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode = ios_base::in | ios_base::out) override {
    if (_h < 0) return pos_type(off_type(-1));
    if (d == ios_base::cur && o == 0) { off_type r = (off_type)_pos; if (_rd) r -= this->_g1 - this->_g; if (_wr) r += this->_q - this->_q0; return pos_type(r); }
    off_type here = (off_type)_pos; if (_rd) here -= this->_g1 - this->_g;
    if (!_term()) return pos_type(off_type(-1));
    if (_wr) here = (off_type)_pos;
    off_type t = d == ios_base::beg ? o : d == ios_base::cur ? here + o : (off_type)vpm_fsize(_h) + o;
    if (t < 0) return pos_type(off_type(-1));
    _pos = (unsigned long)t; _rd = _wr = false; _set(-1); return pos_type(t);
  }
  pos_type seekpos(pos_type p, ios_base::openmode = ios_base::in | ios_base::out) override { if (_h < 0) return pos_type(off_type(-1)); if (!_term()) return pos_type(off_type(-1)); off_type t = off_type(p); if (t < 0) return pos_type(off_type(-1)); _pos = (unsigned long)t; _rd = _wr = false; _set(-1); return p; }
  int _h; ios_base::openmode _m; C *_buf; unsigned long _pos; bool _rd, _wr;
};
#define VPM_FS(NAME, BASE, DEFM, FORCE)                                                                          \
  template <class C, class T> class NAME : public BASE<C, T> {                                                   \
  public:                                                                                                        \
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; \
    NAME() { this->init(&_b); }                                                                                  \
    explicit NAME(const char *s, ios_base::openmode m = DEFM) { this->init(&_b); open(s, m); }                   \
    explicit NAME(const string &s, ios_base::openmode m = DEFM) { this->init(&_b); open(s, m); }                 \
    template <class P, class = decltype(declval<P &>().make_preferred().filename())> explicit NAME(const P &p, ios_base::openmode m = DEFM) { this->init(&_b); open(p.c_str(), m); } \
    NAME(NAME &&o) : BASE<C, T>((BASE<C, T> &&)o), _b((basic_filebuf<C, T> &&)o._b) { this->set_rdbuf(&_b); }     \
    NAME &operator=(NAME &&o) { BASE<C, T>::operator=((BASE<C, T> &&)o); _b = (basic_filebuf<C, T> &&)o._b; return *this; } \
    ~NAME() {}                                                                                                   \
    basic_filebuf<C, T> *rdbuf() const { return const_cast<basic_filebuf<C, T> *>(&_b); }                        \
    bool is_open() const { return _b.is_open(); }                                                                \
    void open(const char *s, ios_base::openmode m = DEFM) { if (!_b.open(s, m | FORCE)) this->setstate(ios_base::failbit); else this->clear(); } \
    void open(const string &s, ios_base::openmode m = DEFM) { open(s.c_str(), m); }                              \
    template <class P, class = decltype(declval<P &>().make_preferred().filename())> void open(const P &p, ios_base::openmode m = DEFM) { open(p.c_str(), m); } \
    void close() { if (!_b.close()) this->setstate(ios_base::failbit); }                                         \
  private:                                                                                                       \
    basic_filebuf<C, T> _b;                                                                                      \
  };
VPM_FS(basic_ifstream, basic_istream, ios_base::in, ios_base::in)
VPM_FS(basic_ofstream, basic_ostream, ios_base::out, ios_base::out)
VPM_FS(basic_fstream, basic_iostream, (ios_base::in | ios_base::out), 0)

// ---- stream buffer iterators
template <class C, class T> class istreambuf_iterator {
  mutable basic_streambuf<C, T> *_s;
  bool _end() const { return !_s || T::eq_int_type(_s->sgetc(), T::eof()); }
public:
  typedef input_iterator_tag iterator_category; typedef C value_type; typedef typename T::off_type difference_type; typedef C *pointer; typedef C reference;
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef basic_streambuf<C, T> streambuf_type; typedef basic_istream<C, T> istream_type;
  istreambuf_iterator() noexcept : _s(0) {}
  istreambuf_iterator(istream_type &i) noexcept : _s(i.rdbuf()) {}
  istreambuf_iterator(streambuf_type *s) noexcept : _s(s) {}
  C operator*() const { return T::to_char_type(_s->sgetc()); }
  istreambuf_iterator &operator++() { _s->sbumpc(); return *this; }
  struct _P { C c; C operator*() const { return c; } };
  _P operator++(int) { _P r{T::to_char_type(_s->sgetc())}; _s->sbumpc(); return r; }
  bool equal(const istreambuf_iterator &o) const { return _end() == o._end(); }
  friend bool operator==(const istreambuf_iterator &a, const istreambuf_iterator &b) { return a.equal(b); }
  friend bool operator!=(const istreambuf_iterator &a, const istreambuf_iterator &b) { return !a.equal(b); }
};
template <class C, class T> class ostreambuf_iterator {
  basic_streambuf<C, T> *_s; bool _f;
public:
  typedef output_iterator_tag iterator_category; typedef void value_type; typedef ptrdiff_t difference_type; typedef void pointer; typedef void reference;
  ostreambuf_iterator(basic_ostream<C, T> &o) noexcept : _s(o.rdbuf()), _f(!_s) {}
  ostreambuf_iterator(basic_streambuf<C, T> *s) noexcept : _s(s), _f(!_s) {}
  ostreambuf_iterator &operator=(C c) { if (!_f && T::eq_int_type(_s->sputc(c), T::eof())) _f = true; return *this; }
  ostreambuf_iterator &operator*() { return *this; } ostreambuf_iterator &operator++() { return *this; } ostreambuf_iterator &operator++(int) { return *this; }
  bool failed() const noexcept { return _f; }
};
template <class V, class C = char, class T = char_traits<C>, class D = ptrdiff_t> class istream_iterator {
  basic_istream<C, T> *_s; V _v;
  void _read() { if (_s && !(*_s >> _v)) _s = 0; }
public:
  typedef input_iterator_tag iterator_category; typedef V value_type; typedef D difference_type; typedef const V *pointer; typedef const V &reference; typedef C char_type; typedef T traits_type; typedef basic_istream<C, T> istream_type;
  istream_iterator() : _s(0), _v() {}
  istream_iterator(istream_type &i) : _s(&i), _v() { _read(); }
  const V &operator*() const { return _v; } const V *operator->() const { return &_v; }
  istream_iterator &operator++() { _read(); return *this; }
  istream_iterator operator++(int) { istream_iterator r = *this; _read(); return r; }
  friend bool operator==(const istream_iterator &a, const istream_iterator &b) { return a._s == b._s; }
  friend bool operator!=(const istream_iterator &a, const istream_iterator &b) { return a._s != b._s; }
};
template <class V, class C = char, class T = char_traits<C>> class ostream_iterator {
  basic_ostream<C, T> *_s; const C *_d;
public:
  typedef output_iterator_tag iterator_category; typedef void value_type; typedef ptrdiff_t difference_type; typedef void pointer; typedef void reference; typedef C char_type; typedef T traits_type; typedef basic_ostream<C, T> ostream_type;
  ostream_iterator(ostream_type &o, const C *d = 0) : _s(&o), _d(d) {}
  ostream_iterator &operator=(const V &v) { *_s << v; if (_d) *_s << _d; return *this; }
  ostream_iterator &operator*() { return *this; } ostream_iterator &operator++() { return *this; } ostream_iterator &operator++(int) { return *this; }
};
// ---- manipulators
struct _Setw { int n; }; inline _Setw setw(int n) { return {n}; }
template <class C> struct _Setfill { C c; }; template <class C> inline _Setfill<C> setfill(C c) { return {c}; }
struct _Setprecision { int n; }; inline _Setprecision setprecision(int n) { return {n}; }
struct _Setbase { int n; }; inline _Setbase setbase(int n) { return {n}; }
struct _Setiosflags { ios_base::fmtflags f; }; inline _Setiosflags setiosflags(ios_base::fmtflags f) { return {f}; }
struct _Resetiosflags { ios_base::fmtflags f; }; inline _Resetiosflags resetiosflags(ios_base::fmtflags f) { return {f}; }
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setw w) { o.width(w.n); return o; }
template <class C, class T> inline basic_istream<C, T> &operator>>(basic_istream<C, T> &o, _Setw w) { o.width(w.n); return o; }
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setfill<C> f) { o.fill(f.c); return o; }
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setprecision p) { o.precision(p.n); return o; }
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setbase b) { o.setf(b.n == 8 ? ios_base::oct : b.n == 10 ? ios_base::dec : b.n == 16 ? ios_base::hex : 0, ios_base::basefield); return o; }
template <class C, class T> inline basic_istream<C, T> &operator>>(basic_istream<C, T> &o, _Setbase b) { o.setf(b.n == 8 ? ios_base::oct : b.n == 10 ? ios_base::dec : b.n == 16 ? ios_base::hex : 0, ios_base::basefield); return o; }
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setiosflags f) { o.setf(f.f); return o; }
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Resetiosflags f) { o.unsetf(f.f); return o; }
} // namespace std
#endif

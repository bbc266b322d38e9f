// Model of the C++ run time used by the symbolic executor: in-memory file system, exceptions,
// ordered and hashed container support, and the few libc functions that the code calls.
#include "vpm_io.h"
#include <stdexcept>
#include <new>
#include <exception>
#include <typeinfo>
#include <functional>
#include <map>
#include <unordered_map>
#include <list>
#include <system_error>
#include <cstdlib>
#include <cerrno>
#include <climits>
#include "vp.h"
extern "C" {
void vpm_mark_model(void *p);
void *malloc(size_t) noexcept;
void *realloc(void *, size_t) noexcept;
void free(void *) noexcept;

// ------------------------------------------------------------------ file system
enum { VPM_MAXF = 24, VPM_MAXH = 48 };
struct vpm_file { char name[64]; char *data; unsigned long size, cap; int used; };
struct vpm_hnd { int file, in, out, used; };
vpm_file vpm_files[VPM_MAXF];
vpm_hnd vpm_hnds[VPM_MAXH];
unsigned long vpm_limit = ~0ul, vpm_failw = 0;
static int vpm_find(const char *p) {
  for (int i = 0; i < VPM_MAXF; i++) if (vpm_files[i].used && !strcmp(vpm_files[i].name, p)) return i;
  return -1;
}
static int vpm_path_ok(const char *p) {
  if (strlen(p) >= 64 || strncmp(p, "/vp/", 4) || !p[4]) return 0;
  for (const char *q = p + 4; *q; q++) if (*q == '/') return 0;
  return 1;
}
int vpm_open(const char *path, int in, int out, int trunc, int app) {
  if (!vpm_path_ok(path)) return -1;
  int f = vpm_find(path);
  if (f < 0) {
    if (!out || (in && !trunc && !app)) return -1;
    for (f = 0; f < VPM_MAXF && vpm_files[f].used; f++) {}
    if (f == VPM_MAXF) vpm_unsupported("too many files");
    strcpy(vpm_files[f].name, path); vpm_files[f].used = 1; vpm_files[f].data = 0; vpm_files[f].size = vpm_files[f].cap = 0;
  }
  if (trunc) vpm_files[f].size = 0;
  for (int h = 0; h < VPM_MAXH; h++) if (!vpm_hnds[h].used) { vpm_hnds[h] = {f, in, out, 1}; return h; }
  vpm_unsupported("too many open files");
}
unsigned long vpm_fwrite(int h, unsigned long pos, const char *p, unsigned long n, int more) {
  vpm_file &f = vpm_files[vpm_hnds[h].file];
  if (vpm_failw && !more && --vpm_failw == 0) return 0;
  if (!n || pos >= vpm_limit) return 0;
  if (n > vpm_limit - pos) n = vpm_limit - pos;
  unsigned long e = pos + n;
  if (e > f.cap) { unsigned long c = e + e / 2 + 256; char *d = (char *)malloc(c); vpm_mark_model(d); if (f.size) memcpy(d, f.data, f.size); if (f.data) free(f.data); f.data = d; f.cap = c; }
  if (pos > f.size) memset(f.data + f.size, 0, pos - f.size);
  memcpy(f.data + pos, p, n);
  if (e > f.size) f.size = e;
  return n;
}
unsigned long vpm_fread(int h, unsigned long pos, char *p, unsigned long n) {
  vpm_file &f = vpm_files[vpm_hnds[h].file];
  if (pos >= f.size) return 0;
  if (n > f.size - pos) n = f.size - pos;
  memcpy(p, f.data + pos, n); return n;
}
unsigned long vpm_fsize(int h) { return vpm_files[vpm_hnds[h].file].size; }
int vpm_fclose(int h) { vpm_hnds[h].used = 0; return 0; }
int vpm_exists(const char *p) { return vpm_find(p) >= 0; }
int vpm_remove(const char *p) { int f = vpm_find(p); if (f < 0) return -1; vpm_files[f].used = 0; return 0; }
int remove(const char *p) { return vpm_remove(p); }
// harness side
const char *vp_path(const char *name) {
  char *b = (char *)malloc(strlen(name) + 5); vpm_mark_model(b); strcpy(b, "/vp/"); strcpy(b + 4, name); return b;
}
void vp_write_file(const char *path, const void *p, unsigned long n) {
  unsigned long l = vpm_limit; vpm_limit = ~0ul; int h = vpm_open(path, 0, 1, 1, 0); if (h < 0) vpm_unsupported("vp_write_file"); vpm_fwrite(h, 0, (const char *)p, n, 1); vpm_fclose(h); vpm_limit = l;
}
void vp_make_file(const char *path, unsigned long n) {
  int h = vpm_open(path, 0, 1, 1, 0); if (h < 0) vpm_unsupported("vp_make_file"); vpm_file &f = vpm_files[vpm_hnds[h].file];
  char *d = (char *)malloc(n); vpm_mark_model(d); memset(d, 0, n); if (f.data) free(f.data); f.data = d; f.size = f.cap = n; vpm_fclose(h);
}
void vp_patch_file(const char *path, unsigned long at, const void *p, unsigned long n) { int f = vpm_find(path); if (f < 0 || at + n > vpm_files[f].size) vpm_unsupported("vp_patch_file"); memcpy(vpm_files[f].data + at, p, n); }
long vp_file_size(const char *path) { int f = vpm_find(path); return f < 0 ? -1 : (long)vpm_files[f].size; }
unsigned long vp_read_file(const char *path, void *p, unsigned long cap) {
  int f = vpm_find(path); if (f < 0) return 0; unsigned long n = vpm_files[f].size < cap ? vpm_files[f].size : cap; memcpy(p, vpm_files[f].data, n); return n;
}
void vp_disk_limit(unsigned long n) { vpm_limit = n; }
void vp_fail_write(unsigned long n) { vpm_failw = n; }

// ------------------------------------------------------------------ libc
int vpm_errno;
int *__errno_location(void) noexcept { return &vpm_errno; }
char __libc_single_threaded = 1;
int strcmp(const char *a, const char *b) noexcept { for (;; a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
int strncmp(const char *a, const char *b, size_t n) noexcept { for (; n; a++, b++, n--) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
char *strcpy(char *d, const char *s) noexcept { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) noexcept { strcpy(d + strlen(d), s); return d; }
#undef strchr
#undef strrchr
#undef strstr
char *vpm_strchr(const char *s, int c) __asm__("strchr");
char *vpm_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *vpm_strrchr(const char *s, int c) __asm__("strrchr");
char *vpm_strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *vpm_strstr(const char *s, const char *t) __asm__("strstr");
char *vpm_strstr(const char *s, const char *t) { size_t n = strlen(t); for (;; s++) { if (!strncmp(s, t, n)) return (char *)s; if (!*s) return 0; } }
int isspace(int c) noexcept { return (c == ' ') | ((unsigned)c - 9u <= 4u); }
int isdigit(int c) noexcept { return (unsigned)c - '0' <= 9u; }
int isupper(int c) noexcept { return (unsigned)c - 'A' <= 25u; }
int islower(int c) noexcept { return (unsigned)c - 'a' <= 25u; }
int isalpha(int c) noexcept { return ((unsigned)c | 32u) - 'a' <= 25u; }
int isalnum(int c) noexcept { return (((unsigned)c | 32u) - 'a' <= 25u) | ((unsigned)c - '0' <= 9u); }
int isxdigit(int c) noexcept { return (((unsigned)c | 32u) - 'a' <= 5u) | ((unsigned)c - '0' <= 9u); }
int isprint(int c) noexcept { return (unsigned)c - 32u <= 94u; }
int ispunct(int c) noexcept { return isprint(c) & !isalnum(c) & (c != ' '); }
int isblank(int c) noexcept { return (c == ' ') | (c == '\t'); }
int iscntrl(int c) noexcept { return ((unsigned)c < 32u) | (c == 127); }
int isgraph(int c) noexcept { return (unsigned)c - 33u <= 93u; }
int tolower(int c) noexcept { return c + (((unsigned)c - 'A' <= 25u) << 5); }
int toupper(int c) noexcept { return c - (((unsigned)c - 'a' <= 25u) << 5); }

static int vpm_digit(int c, int base) {
  int v = (unsigned)c - '0' <= 9u ? c - '0' : ((unsigned)c | 32u) - 'a' <= 25u ? (c | 32) - 'a' + 10 : 99;
  return v < base ? v : -1;
}
// common parser: magnitude with overflow flag
static unsigned long vpm_strto(const char *s, char **e, int base, int *neg, int *ovf) {
  const char *p = s; *neg = 0; *ovf = 0;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && vpm_digit((unsigned char)p[2], 16) >= 0) { p += 2; base = 16; }
  else if ((base == 0 || base == 2) && p[0] == '0' && (p[1] | 32) == 'b' && vpm_digit((unsigned char)p[2], 2) >= 0) { p += 2; base = 2; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; int any = 0;
  for (;; p++) {
    if (base == 10) {
      unsigned d = (unsigned char)*p - (unsigned)'0'; if (d > 9u) break;
      int o = 0; v = vpm_mul10add(v, d, &o); if (o) *ovf = 1; any = 1;
    } else {
      int d = vpm_digit((unsigned char)*p, base); if (d < 0) break;
      unsigned long r; if (__builtin_mul_overflow(v, (unsigned long)base, &r) || __builtin_add_overflow(r, (unsigned long)d, &r)) *ovf = 1; v = r; any = 1;
    }
  }
  if (e) *e = (char *)(any ? p : s);
  return any ? v : 0;
}
long vpm_strtol(const char *s, char **e, int b) __asm__("strtol");
long vpm_strtol(const char *s, char **e, int b) {
  int n, o; unsigned long v = vpm_strto(s, e, b, &n, &o), lim = n ? 1ul << 63 : (1ul << 63) - 1;
  if (o || v > lim) { vpm_errno = ERANGE; return n ? LONG_MIN : LONG_MAX; }
  return n ? (long)(0 - v) : (long)v;
}
unsigned long vpm_strtoul(const char *s, char **e, int b) __asm__("strtoul");
unsigned long vpm_strtoul(const char *s, char **e, int b) {
  int n, o; unsigned long v = vpm_strto(s, e, b, &n, &o);
  if (o) { vpm_errno = ERANGE; return ULONG_MAX; }
  return n ? 0 - v : v;
}
long vpm_isoc23_strtol(const char *s, char **e, int b) __asm__("__isoc23_strtol");
long vpm_isoc23_strtol(const char *s, char **e, int b) { return vpm_strtol(s, e, b); }
unsigned long vpm_isoc23_strtoul(const char *s, char **e, int b) __asm__("__isoc23_strtoul");
unsigned long vpm_isoc23_strtoul(const char *s, char **e, int b) { return vpm_strtoul(s, e, b); }
long vpm_strtoll(const char *s, char **e, int b) __asm__("strtoll");
long vpm_strtoll(const char *s, char **e, int b) { return vpm_strtol(s, e, b); }
unsigned long vpm_strtoull(const char *s, char **e, int b) __asm__("strtoull");
unsigned long vpm_strtoull(const char *s, char **e, int b) { return vpm_strtoul(s, e, b); }
long vpm_isoc23_strtoll(const char *s, char **e, int b) __asm__("__isoc23_strtoll");
long vpm_isoc23_strtoll(const char *s, char **e, int b) { return vpm_strtol(s, e, b); }
unsigned long vpm_isoc23_strtoull(const char *s, char **e, int b) __asm__("__isoc23_strtoull");
unsigned long vpm_isoc23_strtoull(const char *s, char **e, int b) { return vpm_strtoul(s, e, b); }
int vpm_atoi(const char *s) __asm__("atoi");
int vpm_atoi(const char *s) { return (int)vpm_strtol(s, 0, 10); }
} // extern "C"

namespace std {
// ------------------------------------------------------------------ streams
static struct vpm_nullbuf : basic_streambuf<char, char_traits<char>> {
  int overflow(int c) override { return c == -1 ? 0 : c; }
  streamsize xsputn(const char *, streamsize n) override { return n; }
} vpm_null;
istream cin(&vpm_null);
ostream cout(&vpm_null), cerr(&vpm_null), clog(&vpm_null);
static locale vpm_loc;
const locale &locale::classic() { return vpm_loc; }

// ------------------------------------------------------------------ exceptions
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
const nothrow_t nothrow{};

struct vpm_rep { long refs; size_t len; char s[1]; };
static vpm_rep *rep(const __cow_string *c) { return (vpm_rep *)*(void *const *)c; }
static void mk(__cow_string *c, const char *s, size_t n) { vpm_rep *r = (vpm_rep *)malloc(sizeof(vpm_rep) + n); r->refs = 1; r->len = n; memcpy(r->s, s, n); r->s[n] = 0; *(void **)c = r; }
__cow_string::__cow_string() { mk(this, "", 0); }
__cow_string::__cow_string(const std::string &s) { mk(this, s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { mk(this, s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { rep(&o)->refs++; *(void **)this = rep(&o); }
__cow_string::__cow_string(__cow_string &&o) noexcept { rep(&o)->refs++; *(void **)this = rep(&o); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { vpm_rep *r = rep(&o); r->refs++; if (--rep(this)->refs == 0) free(rep(this)); *(void **)this = r; return *this; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { return *this = (const __cow_string &)o; }
__cow_string::~__cow_string() { if (--rep(this)->refs == 0) free(rep(this)); }

#define E2(N, B) N::N(const string &s) : B(s) {} N::N(const char *s) : B(s) {} N::~N() noexcept {}
logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return rep(&_M_msg)->s; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return rep(&_M_msg)->s; }
E2(domain_error, logic_error)
E2(invalid_argument, logic_error)
E2(length_error, logic_error)
E2(out_of_range, logic_error)
E2(range_error, runtime_error)
E2(overflow_error, runtime_error)
E2(underflow_error, runtime_error)

namespace _V2 {
error_category::~error_category() {}
struct vpm_cat : error_category {
  const char *n; vpm_cat(const char *x) : n(x) {}
  const char *name() const noexcept override { return n; }
  string message(int) const override { return "error"; }
};
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
static vpm_cat vpm_gen("generic"), vpm_sys("system");
const error_category &generic_category() noexcept { return vpm_gen; }
const error_category &system_category() noexcept { return vpm_sys; }
}
system_error::~system_error() noexcept {}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_ios_failure(const char *s) { throw ios_base::failure(s); }
void __throw_ios_failure(const char *s, int) { throw ios_base::failure(s); }
void __throw_system_error(int i) { throw system_error(error_code(i, generic_category())); }

// ------------------------------------------------------------------ red-black tree (CLRS)
typedef _Rb_tree_node_base NB;
NB *vpm_inc(NB *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NB *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
NB *vpm_dec(NB *x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NB *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NB *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
NB *_Rb_tree_increment(NB *x) throw() { return vpm_inc(x); }
const NB *_Rb_tree_increment(const NB *x) throw() { return vpm_inc(const_cast<NB *>(x)); }
NB *_Rb_tree_decrement(NB *x) throw() { return vpm_dec(x); }
const NB *_Rb_tree_decrement(const NB *x) throw() { return vpm_dec(const_cast<NB *>(x)); }
// An unbalanced search tree is observably the same as a balanced one.
void _Rb_tree_insert_and_rebalance(const bool left, NB *x, NB *p, NB &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
NB *_Rb_tree_rebalance_for_erase(NB *const z, NB &h) throw() {
  NB *y = z, *x = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; y = z;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (h._M_parent == z) h._M_parent = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { NB *m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
    if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { NB *m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
  }
  return y;
}

// ------------------------------------------------------------------ hash tables
// A weak hash changes only bucket order, which no specification promises.
size_t _Hash_bytes(const void *, size_t n, size_t) { return n; }
size_t _Fnv_hash_bytes(const void *, size_t n, size_t) { return n; }
namespace __detail {
static const size_t vpm_primes[] = {13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r = vpm_primes[15]; for (size_t p : vpm_primes) if (p >= n) { r = p; break; } _M_next_resize = r; return r; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t ins) const {
  if (e + ins <= _M_next_resize) return {false, 0};
  size_t w = e + ins; if (!_M_next_resize && w < 11) w = 11;
  if (w >= b) return {true, _M_next_bkt(w + 1 > 2 * b ? w + 1 : 2 * b)};
  _M_next_resize = b; return {false, 0};
}
// ------------------------------------------------------------------ lists
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
} // namespace std
extern "C" void vpm_throw_bad_alloc() { throw std::bad_alloc(); }

// Native side of the harness interface: runs one harness against the real build with the inputs of
// one witness file (solver model) and prints what it observes.
#include "../harness/vp.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <map>
#include <new>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <typeinfo>
#include <unistd.h>
#include <vector>

#ifdef VP_TSAN
#include <thread>
#endif
extern "C" void *__real_malloc(size_t);
extern "C" void *__real_calloc(size_t, size_t);
extern "C" void *__real_realloc(void *, size_t);
extern "C" void __real_free(void *);
namespace {
// --- accounting of live blocks: a small open-addressing table that itself never allocates through new
struct Slot { void *p; unsigned long seq, n; };
Slot *tab = nullptr; size_t cap = 0, cnt = 0; std::atomic<unsigned long> seqNo{1}; unsigned long newLimit = ~0ul; std::atomic<unsigned long> denied{0}; std::atomic_flag lk = ATOMIC_FLAG_INIT;
#ifdef VP_TSAN
thread_local bool counting = false;
#else
bool counting = true;
#endif
struct L { L() { while (lk.test_and_set(std::memory_order_acquire)) {} } ~L() { lk.clear(std::memory_order_release); } };
size_t h(void *p) { return ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 20; }
void put(Slot *t, size_t c, Slot s) { size_t i = h(s.p) % c; while (t[i].p) i = (i + 1) % c; t[i] = s; }
void grow() { size_t c = cap ? cap * 2 : 4096; Slot *t = (Slot *)__real_calloc(c, sizeof(Slot)); cnt = 0; for (size_t i = 0; i < cap; i++) if (tab[i].p && tab[i].p != (void *)1) { put(t, c, tab[i]); cnt++; } __real_free(tab); tab = t; cap = c; }
void add(void *p, size_t n) { if (!p || !counting) return; L l; if ((cnt + 1) * 2 > cap) grow(); put(tab, cap, {p, seqNo++, n}); cnt++; }
void del(void *p) { if (!p || !cap) return; L l; size_t i = h(p) % cap; while (tab[i].p) { if (tab[i].p == p) { tab[i].p = (void *)1; return; } i = (i + 1) % cap; } }
#ifdef VP_TSAN // two threads run the harness at the same time, each with its own inputs and scratch directory
#define PER_THREAD thread_local
#else
#define PER_THREAD
#endif
PER_THREAD std::string outbuf, dir; std::map<std::string, std::string> in; std::map<std::string, long> params; PER_THREAD std::map<std::string, int> occ; PER_THREAD bool failed = false;
void emit(const std::string &s) { bool c = counting; counting = false; outbuf += s; outbuf += '\n'; counting = c; }
rlim_t fileLimit = RLIM_INFINITY; unsigned long failWrite = 0, failAlloc = 0;
bool fails(int fd) { if (fd > 2 && failWrite && --failWrite == 0) { errno = ENOSPC; return true; } return false; }
void setLimit(rlim_t n) { rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); }
void flushOut() { setLimit(RLIM_INFINITY); size_t o = 0; while (o < outbuf.size()) { ssize_t n = write(1, outbuf.data() + o, outbuf.size() - o); if (n <= 0) break; o += n; } outbuf.clear(); }
std::string hex(const unsigned char *p, size_t n) { static const char *d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s; }
const std::string *next(const char *name) { std::string nm = name; for (char &c : nm) if (c == ' ') c = '_'; std::string k = nm + "#" + std::to_string(occ[name]++); auto i = in.find(k); return i == in.end() ? nullptr : &i->second; }
struct Quiet { bool c; Quiet() : c(counting) { counting = false; } ~Quiet() { counting = c; } };
}
extern "C" {
static bool nomem() { return counting && failAlloc && --failAlloc == 0; }
// libstdc++ writes through these
#ifndef VP_TSAN
ssize_t write(int fd, const void *p, size_t n) { return fails(fd) ? -1 : syscall(SYS_write, fd, p, n); }
ssize_t writev(int fd, const iovec *v, int n) { return fails(fd) ? -1 : syscall(SYS_writev, fd, v, n); }
#endif
void vp_fail_write(unsigned long n) { failWrite = n; }
void *__wrap_malloc(size_t n) { if (nomem()) return 0; void *p = __real_malloc(n); add(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (nomem()) return 0; void *p = __real_calloc(a, b); add(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { if (nomem()) return 0; void *p = __real_realloc(q, n); if (p || !n) { del(q); add(p, n); } return p; }
void __wrap_free(void *p) { del(p); __real_free(p); }

void vp_sym(void *p, unsigned long n, const char *name) { Quiet q; memset(p, 0, n); const std::string *v = next(name); if (v) memcpy(p, v->data(), v->size() < n ? v->size() : n); }
static unsigned long num(const char *name, unsigned long def) { Quiet q; const std::string *v = next(name); if (!v) return def; unsigned long r = 0; memcpy(&r, v->data(), v->size() < 8 ? v->size() : 8); return r; }
unsigned long vp_range(unsigned long lo, unsigned long hi, const char *name) { unsigned long v = num(name, lo); return v < lo ? lo : v > hi ? hi : v; }
unsigned long vp_choose(unsigned long n, const char *name) { unsigned long v = num(name, 0); return v < n ? v : 0; }
unsigned long vp_concretize(unsigned long v) { return v; }
void vp_assume(int c) { if (!c) { Quiet q; emit("ASSUME"); flushOut(); _exit(77); } }
void vp_check(int c, const char *msg) { if (!c) { Quiet q; emit(std::string("FAIL check ") + msg); failed = true; } }
void vp_observe(const char *name, const void *p, unsigned long n) { Quiet q; emit(std::string("obs ") + name + " " + hex((const unsigned char *)p, n)); }
void vp_reach(const char *name) { Quiet q; emit(std::string("reach ") + name); }
long vp_param(const char *name, long def) { Quiet q; auto i = params.find(name); return i == params.end() ? def : i->second; }
int vp_symbolic(void) { return 0; }
void vp_global_watch(int) {}
unsigned long vp_heap_mark(void) { return seqNo.load(); }
void vp_heap_check(unsigned long m, const char *msg) { Quiet q; unsigned long n = 0, b = 0; { L l; for (size_t i = 0; i < cap; i++) if (tab[i].p && tab[i].p != (void *)1 && tab[i].seq >= m) { n++; b += tab[i].n; } } if (n) { emit(std::string("FAIL leak ") + msg + " (" + std::to_string(n) + " blocks, " + std::to_string(b) + " bytes)"); failed = true; } }
unsigned long vp_heap_denied() { return denied; }
void vp_heap_limit(unsigned long n) { newLimit = n ? n : ~0ul; }
void vp_fail_alloc(unsigned long n) { failAlloc = n; }
void vp_trace(const char *, unsigned long) {}
void vp_end(void) { flushOut(); _exit(failed ? 1 : 0); }
const char *vp_path(const char *name) { Quiet q; std::string p = dir + "/" + name; char *b = (char *)__real_malloc(p.size() + 1); strcpy(b, p.c_str()); return b; }
void vp_write_file(const char *path, const void *p, unsigned long n) { setLimit(RLIM_INFINITY); int f = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0; while (o < n) { ssize_t k = syscall(SYS_write, f, (const char *)p + o, n - o); if (k <= 0) break; o += k; } close(f); setLimit(fileLimit); }
void vp_make_file(const char *path, unsigned long n) { setLimit(RLIM_INFINITY); int f = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (ftruncate(f, (off_t)n)) _exit(3); close(f); }
void vp_patch_file(const char *path, unsigned long at, const void *p, unsigned long n) { int f = open(path, O_WRONLY); if (pwrite(f, p, n, (off_t)at) != (ssize_t)n) _exit(3); close(f); }
long vp_file_size(const char *path) { struct stat st; return stat(path, &st) ? -1 : (long)st.st_size; }
unsigned long vp_read_file(const char *path, void *p, unsigned long c) { int f = open(path, O_RDONLY); if (f < 0) return 0; size_t o = 0; while (o < c) { ssize_t k = read(f, (char *)p + o, c - o); if (k <= 0) break; o += k; } close(f); return o; }
void vp_disk_limit(unsigned long n) { fileLimit = n == ~0ul ? RLIM_INFINITY : n; setLimit(fileLimit); }
}
#ifndef VP_TSAN
static void *nw(size_t n) { if (n > newLimit) { denied++; throw std::bad_alloc(); } if (nomem()) throw std::bad_alloc(); void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); add(p, n); return p; }
void *operator new(size_t n) { return nw(n); }
void *operator new[](size_t n) { return nw(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return nw(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return nw(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { del(p); __real_free(p); }
void operator delete[](void *p) noexcept { del(p); __real_free(p); }
void operator delete(void *p, size_t) noexcept { del(p); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { del(p); __real_free(p); }
#endif

static std::string unhex(const std::string &s) { std::string r; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)(v(s[i]) << 4 | v(s[i + 1])); return r; }
static void die(int) { flushOut(); signal(SIGALRM, SIG_DFL); _exit(88); }
static void once() {
  try { vp_harness(); } catch (...) {
    Quiet q; int st; const std::type_info *t = abi::__cxa_current_exception_type(); char *d = t ? abi::__cxa_demangle(t->name(), 0, 0, &st) : nullptr;
    std::string w; try { throw; } catch (std::exception &e) { w = e.what(); } catch (...) {}
    emit(std::string("FAIL uncaught ") + (d ? d : "?") + ": " + w); failed = true;
  }
}
int main(int argc, char **argv) {
  if (argc < 3) return 64;
  static char obuf[4096]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
  signal(SIGXFSZ, SIG_IGN); signal(SIGALRM, die); alarm(argc > 3 ? atoi(argv[3]) : 60);
  {
    Quiet q; dir = argv[2]; FILE *f = fopen(argv[1], "r"); if (!f) return 64; char *line = nullptr; size_t n = 0; ssize_t l;
    while ((l = getline(&line, &n, f)) > 0) {
      std::string s(line, l); while (!s.empty() && s.back() == '\n') s.pop_back();
      size_t a = s.find(' '); if (a == std::string::npos) continue; std::string kind = s.substr(0, a); size_t b = s.find(' ', a + 1); std::string k = s.substr(a + 1, b == std::string::npos ? b : b - a - 1), v = b == std::string::npos ? "" : s.substr(b + 1);
      if (kind == "param") params[k] = atol(v.c_str()); else if (kind == "in") in[k] = unhex(v);
    }
    fclose(f);
  }
#ifdef VP_TSAN
  std::atomic<int> arrived{0}; std::atomic<bool> bad{false}; std::string base = dir;
  auto run = [&](int k) { for (int i = 0; i < 5; i++) { dir = base + "/" + std::to_string(k); mkdir(dir.c_str(), 0700); occ.clear(); arrived++; while (arrived < 2 * (i + 1)) {} once(); if (failed) bad = true; } };
  { std::thread x(run, 1), y(run, 2); x.join(); y.join(); }
  emit("END"); flushOut(); exit(bad ? 1 : 0); // exit: the sanitizer reports through the exit code
#else
  once();
  { Quiet q; emit("END"); }
  flushOut();
  _exit(failed ? 1 : 0);
#endif
}

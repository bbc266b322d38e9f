// Paged copy-on-write memory with per-byte concrete / symbolic / uninitialised state.
#pragma once
#include "expr.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/Instructions.h"

static const unsigned OFFBITS = 34;
static const u64 OFFMASK = ((u64)1 << OFFBITS) - 1;
static const u64 PS = 4096;

enum : uint8_t { CONC = 0, SYM = 1, UNINIT = 2 };

struct Page {
  int rc = 1;
  bool uniform = false;      // every byte is `fill` (or uninitialised when fillUninit)
  bool fillUninit = false; uint8_t fill = 0;
  uint32_t cap = 0;
  uint8_t *d = nullptr;      // concrete bytes
  uint8_t *st = nullptr;     // null: every byte is concrete
  E *sym = nullptr;
  ~Page() { free(d); free(st); free(sym); }
};
extern Page *g_uninitPage, *g_bytePage[256];
static inline Page *uniformPage(bool uninit, uint8_t b) {
  Page *&p = uninit ? g_uninitPage : g_bytePage[b];
  if (!p) { p = new Page; p->uniform = true; p->fillUninit = uninit; p->fill = b; p->rc = 1 << 28; }
  p->rc++;
  return p;
}
static inline void unref(Page *p) { if (--p->rc == 0) delete p; }

enum class OK : uint8_t { STACK, HEAP, GLOBAL, FUNC };
struct Obj {
  int rc = 1;
  u64 size = 0; u64 id = 0; u64 seq = 0;
  OK kind = OK::HEAP; bool ro = false, model = false, shared = false, tls = false;
  uint8_t how = 0;           // 0 malloc 1 new 2 new[] 3 exception
  const llvm::Value *site = nullptr;
  const llvm::Instruction *asite = nullptr;
  std::vector<Page *> pages;
  u64 base() const { return id << OFFBITS; }
  uint32_t capOf(size_t pi) const { u64 r = size - pi * PS; return r < PS ? (uint32_t)r : (uint32_t)PS; }
  ~Obj() { for (Page *p : pages) if (p) unref(p); }
  Obj *clone() const {
    Obj *o = new Obj(*this); o->rc = 1;
    for (Page *p : o->pages) if (p) p->rc++;
    return o;
  }
  // a page this object may write to
  Page *wpage(size_t pi) {
    Page *p = pages[pi];
    uint32_t cap = capOf(pi);
    if (p->uniform) {
      Page *n = new Page; n->cap = cap; n->d = (uint8_t *)malloc(cap); memset(n->d, p->fill, cap);
      if (p->fillUninit) { n->st = (uint8_t *)malloc(cap); memset(n->st, UNINIT, cap); }
      unref(p); pages[pi] = n; return n;
    }
    if (p->rc > 1) {
      Page *n = new Page; n->cap = cap; n->d = (uint8_t *)malloc(cap); memcpy(n->d, p->d, cap);
      if (p->st) { n->st = (uint8_t *)malloc(cap); memcpy(n->st, p->st, cap); }
      if (p->sym) { n->sym = (E *)malloc(cap * sizeof(E)); memcpy(n->sym, p->sym, cap * sizeof(E)); }
      unref(p); pages[pi] = n; return n;
    }
    return p;
  }
  // status of a byte; value or expression through the out parameters
  uint8_t get(u64 off, uint8_t &v, E &e) const {
    Page *p = pages[off / PS]; unsigned i = off % PS;
    if (p->uniform) { v = p->fill; return p->fillUninit ? UNINIT : CONC; }
    if (!p->st || p->st[i] == CONC) { v = p->d[i]; return CONC; }
    if (p->st[i] == SYM) { e = p->sym[i]; return SYM; }
    return UNINIT;
  }
  void setC(u64 off, uint8_t v) { Page *p = wpage(off / PS); unsigned i = off % PS; p->d[i] = v; if (p->st) p->st[i] = CONC; }
  static void needSt(Page *p) { if (!p->st) { p->st = (uint8_t *)calloc(1, p->cap); } }
  void setE(u64 off, E e) {
    if (isC(e)) { setC(off, (uint8_t)e->c); return; }
    Page *p = wpage(off / PS); unsigned i = off % PS; needSt(p);
    if (!p->sym) p->sym = (E *)calloc(p->cap, sizeof(E));
    p->st[i] = SYM; p->sym[i] = e;
  }
  void setUninit(u64 off) { Page *p = wpage(off / PS); needSt(p); p->st[off % PS] = UNINIT; }
  void fillRange(u64 off, u64 n, bool uninit, uint8_t b) {
    while (n) {
      size_t pi = off / PS; u64 i = off % PS, c = std::min(n, PS - i);
      if (i == 0 && c == capOf(pi)) { if (pages[pi]) unref(pages[pi]); pages[pi] = uniformPage(uninit, b); }
      else if (pages[pi]->uniform && pages[pi]->fillUninit == uninit && pages[pi]->fill == b) {}
      else {
        Page *p = wpage(pi);
        if (uninit) { needSt(p); memset(p->st + i, UNINIT, c); }
        else { memset(p->d + i, b, c); if (p->st) memset(p->st + i, CONC, c); }
      }
      off += c; n -= c;
    }
  }
  // copies from another object (or a snapshot of this one)
  void copyFrom(u64 off, const Obj *src, u64 soff, u64 n) {
    while (n) {
      size_t pi = off / PS, si = soff / PS; u64 i = off % PS, j = soff % PS;
      u64 c = std::min(n, std::min(PS - i, PS - j));
      Page *s = src->pages[si]; if (s->uniform) c = std::min(n, PS - j);
      if (s->uniform) { // as far as it goes on
        for (size_t k = si + 1; c < n && c == std::min(n, (k - si) * PS - j) && src->pages[k]->uniform && src->pages[k]->fillUninit == s->fillUninit && src->pages[k]->fill == s->fill; k++) c = std::min(n, (k + 1 - si) * PS - j);
        fillRange(off, c, s->fillUninit, s->fill);
      }
      else if (i == 0 && j == 0 && c == capOf(pi) && s->cap == capOf(pi)) {
        if (pages[pi] != s) { s->rc++; unref(pages[pi]); pages[pi] = s; }
      } else {
        s->rc++; // keep alive while the destination page is made writable
        Page *p = wpage(pi);
        memcpy(p->d + i, s->d + j, c);
        if (s->st) {
          needSt(p); memcpy(p->st + i, s->st + j, c);
          if (s->sym) {
            if (!p->sym) p->sym = (E *)calloc(p->cap, sizeof(E));
            memcpy(p->sym + i, s->sym + j, c * sizeof(E));
          }
        } else if (p->st) memset(p->st + i, CONC, c);
        unref(s);
      }
      off += c; soff += c; n -= c;
    }
  }
};
static inline void unref(Obj *o) { if (--o->rc == 0) delete o; }

struct ObjTable {
  static const unsigned N = 64;
  struct Chunk { int rc = 1; unsigned live = 0; Obj *o[N] = {}; };
  std::vector<Chunk *> ch;
  ObjTable() {}
  ObjTable(const ObjTable &t) : ch(t.ch) { for (auto c : ch) if (c) c->rc++; }
  ObjTable &operator=(const ObjTable &) = delete;
  ~ObjTable() { for (auto c : ch) if (c) drop(c); }
  static void drop(Chunk *c) { if (--c->rc == 0) { for (auto o : c->o) if (o) unref(o); delete c; } }
  Obj *get(u64 id) const {
    u64 k = id / N; if (k >= ch.size() || !ch[k]) return nullptr;
    return ch[k]->o[id % N];
  }
  Chunk *wch(u64 id) {
    u64 k = id / N; if (k >= ch.size()) ch.resize(k + 1, nullptr);
    Chunk *&c = ch[k];
    if (!c) c = new Chunk;
    else if (c->rc > 1) {
      Chunk *n = new Chunk; n->live = c->live;
      for (unsigned i = 0; i < N; i++) if ((n->o[i] = c->o[i])) n->o[i]->rc++;
      c->rc--; c = n;
    }
    return c;
  }
  Obj *getw(u64 id) {
    Chunk *c = wch(id); Obj *&o = c->o[id % N];
    if (!o) return nullptr;
    if (o->rc > 1) { Obj *n = o->clone(); unref(o); o = n; }
    return o;
  }
  void put(u64 id, Obj *o) { Chunk *c = wch(id); c->o[id % N] = o; c->live++; }
  void erase(u64 id) {
    Chunk *c = wch(id); Obj *&o = c->o[id % N];
    if (o) { unref(o); o = nullptr; if (--c->live == 0) { drop(c); ch[id / N] = nullptr; } }
  }
};

// Interface between a harness and whatever runs it: the symbolic executor (nsym) or the native
// replay runtime (native/rt.cpp).
#ifndef VP_H
#define VP_H
#ifdef __cplusplus
extern "C" {
#endif
void vp_sym(void *p, unsigned long n, const char *name);                       // n symbolic bytes
unsigned long vp_range(unsigned long lo, unsigned long hi, const char *name);  // symbolic value in [lo,hi]
unsigned long vp_choose(unsigned long n, const char *name);                    // one path per value in [0,n)
unsigned long vp_concretize(unsigned long v);                                  // one path per feasible value
void vp_assume(int c);
void vp_check(int c, const char *msg);
void vp_observe(const char *name, const void *p, unsigned long n);             // compared with the native run
void vp_reach(const char *name);
long vp_param(const char *name, long def);
int vp_symbolic(void);
void vp_global_watch(int on);
unsigned long vp_heap_mark(void);
void vp_heap_check(unsigned long mark, const char *msg);                       // nothing allocated since mark is still live
void vp_heap_limit(unsigned long n);                                           // larger operator new requests throw bad_alloc
unsigned long vp_heap_denied(void);                                             // how many requests exceeded that limit
void vp_fail_alloc(unsigned long n);                                           // the n-th request from now on (from 1) fails once, 0: none
void vp_trace(const char *name, unsigned long v);
void vp_end(void) __attribute__((noreturn));
// files
const char *vp_path(const char *name);
void vp_write_file(const char *path, const void *p, unsigned long n);
void vp_make_file(const char *path, unsigned long n);                           // n zero bytes, without storing them
void vp_patch_file(const char *path, unsigned long at, const void *p, unsigned long n);
long vp_file_size(const char *path);
unsigned long vp_read_file(const char *path, void *p, unsigned long cap);
void vp_disk_limit(unsigned long n);
void vp_fail_write(unsigned long n);                                           // the n-th write to a file from now on (from 1) transfers nothing
void vp_harness(void);
#ifdef __cplusplus
}
#endif
#endif

/* Runtime of the specifications: allocation model, input builders, witness. */
#include "verif.h"
#include <time.h>
#ifdef VSTR
#include "vstr.h"
#endif

size_t g_k;
bool g_oom, g_depfail, g_in_call;
/* which allocations are refused: any; with VPLAN (bounded checks only) the one
 * numbered g_plan, so that the run is decided case by case */
#if defined(VPLAN) && defined(VSMALL)
size_t g_plan, g_seq;
#define REFUSED() (g_seq++ == g_plan)
#else
#define REFUSED() nd_bool()
#endif

#ifdef VCBMC
uint64_t nondet_u64_(void);
uint64_t nd_raw(void) {
  uint64_t nd_v = nondet_u64_();
  return nd_v;
}
uint64_t nu_u64(void) {
  uint64_t nu_v = nondet_u64_();
  return nu_v;
}
/* allocation model: any request may be refused while the function under
 * contract runs; every block is a fresh object of exactly the size asked for */
void *__CPROVER_allocate(__CPROVER_size_t, __CPROVER_bool);
void __CPROVER_deallocate(void *);
extern const void *__CPROVER_deallocated;

static void *valloc(size_t n, _Bool zero) {
  if (g_in_call && REFUSED()) {
    g_oom = true;
    return NULL;
  }
#if defined(VSMALL) && defined(VBLOCK_MAX)
  if (n > VBLOCK_MAX) n = VBLOCK_MAX; /* bounded check with short texts: a longer block is not told from this one */
#endif
  void *p;
#ifdef VCONC /* small blocks have a constant size each (bounded checks) */
  if (n == 1) p = __CPROVER_allocate(1, zero);
  else if (n == 2) p = __CPROVER_allocate(2, zero);
  else if (n == 3) p = __CPROVER_allocate(3, zero);
  else
#endif
  p = __CPROVER_allocate(n, zero);
  if (g_in_call)
    __CPROVER_memory_leak = (nu_u64() & 1) ? p : __CPROVER_memory_leak;
  return p;
}
#ifndef VMALLOC_MAX
#define VMALLOC_MAX ((size_t)1 << 48)
#endif
void *malloc(size_t n) {
  if (n > VMALLOC_MAX) { g_oom = true; return NULL; }
  return valloc(n, 0);
}
#if !defined(VNO_CALLOC) || defined(VSMALL)
void *calloc(size_t a, size_t b) {
  if (b != 0 && a > VMALLOC_MAX / b) { g_oom = true; return NULL; }
  return valloc(a * b, 1);
}
#endif
#if defined(VLEND) && (VLEND == 2 || !defined(VSMALL))
bool v_lend_free(const void *p); /* buffers owned by a specification's witness contract */
#endif
void free(void *p) {
  if (p == NULL) return;
#if defined(VLEND) && (VLEND == 2 || !defined(VSMALL))
  if (v_lend_free(p)) return;
#endif
  __CPROVER_assert(__CPROVER_DYNAMIC_OBJECT(p), "free of dynamic object");
  __CPROVER_assert(__CPROVER_POINTER_OFFSET(p) == 0, "free of start of object");
  __CPROVER_assert(__CPROVER_deallocated != p, "free of live object (no double free)");
  if (__CPROVER_memory_leak == p) __CPROVER_memory_leak = NULL;
  __CPROVER_deallocate(p);
}
#if !defined(VNO_REALLOC) || defined(VSMALL)
void *realloc(void *p, size_t n) {
  if (p == NULL) return malloc(n);
  __CPROVER_assert(__CPROVER_DYNAMIC_OBJECT(p), "realloc of dynamic object");
  __CPROVER_assert(__CPROVER_POINTER_OFFSET(p) == 0, "realloc of start of object");
  if (n > VMALLOC_MAX || (g_in_call && REFUSED())) { g_oom = true; return NULL; }
  size_t old = __CPROVER_OBJECT_SIZE(p);
  void *q = __CPROVER_allocate(n, 0);
  if (g_in_call)
    __CPROVER_memory_leak = (nu_u64() & 1) ? q : __CPROVER_memory_leak;
  memcpy(q, p, old < n ? old : n);
#ifdef VSTR
  str_moved(p, q);
#endif
  free(p);
  return q;
}
#endif
void *mk_raw(size_t n) {
  void *p = __CPROVER_allocate(n, 0);
  return p;
}
void *cal_alloc(size_t n) {
  void *p = __CPROVER_allocate(n, 0);
  __CPROVER_memory_leak = (nu_u64() & 1) ? p : __CPROVER_memory_leak;
  return p;
}
/* libc memcmp: contract in terms of the rigid witness index; exact on the sign
 * of equality (0 iff all bytes equal) */
#ifndef VREAL_MEMCMP
int memcmp(const void *a, const void *b, size_t n) {
  if (n == 0) return 0;
  __CPROVER_assert(__CPROVER_r_ok(a, n), "memcmp first region readable");
  __CPROVER_assert(__CPROVER_r_ok(b, n), "memcmp second region readable");
  const uint8_t *x = a, *y = b;
  if (nu_u64() & 1) {
    __CPROVER_assume(!(g_k < n) || x[g_k] == y[g_k]);
#ifdef VSMALL
    for (size_t i = 0; i < VSMALL_LEN; i++)
      __CPROVER_assume(!(i < n) || x[i] == y[i]);
#endif
    return 0;
  }
  size_t j = nu_u64();
  __CPROVER_assume(j < n && x[j] != y[j]);
  int r = (int)nu_u64();
  __CPROVER_assume(r != 0);
  return r;
}
#endif
/* libc memchr: its definition; for strings of any length see vstr.c */
#ifndef VSTR
void *memchr(const void *p, int c, size_t n) {
  const uint8_t *x = p;
  for (size_t i = 0; i < n; i++)
    if (x[i] == (uint8_t)c) return (void *)(x + i);
  return NULL;
}
#endif
/* localtime: fails or returns an arbitrary broken-down time */
#include <time.h>
static struct tm v_lt;
struct tm *localtime(const time_t *t) {
  (void)t;
  if (nd_bool()) { g_depfail = true; return NULL; }
  fill_tm(&v_lt);
  return &v_lt;
}
time_t time(time_t *t) {
  time_t v = (time_t)nu_u64();
  if (t) *t = v;
  return v;
}
#else
#include <fcntl.h>
#include <stdio.h>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/lsan_interface.h>
static uint64_t *vals;
static size_t nvals, posv;
static void load(void) {
  const char *f = getenv("VREPLAY_INPUT");
  int fd = f ? open(f, O_RDONLY) : -1; /* the stdio functions may be under contract */
  static uint64_t buf[1 << 16];
  vals = buf;
  if (fd < 0) { fprintf(stderr, "no VREPLAY_INPUT\n"); exit(3); }
  uint64_t x = 0;
  bool in = false;
  char c;
  while (nvals < (1 << 16) && read(fd, &c, 1) == 1) {
    if (c >= '0' && c <= '9') { x = 10 * x + (uint64_t)(c - '0'); in = true; }
    else if (in) { buf[nvals++] = x; x = 0; in = false; }
  }
  if (in) buf[nvals++] = x;
  close(fd);
}
uint64_t nd_raw(void) {
  if (!vals) load();
  return posv < nvals ? vals[posv++] : 0;
}
void v_assume_fail(void) { fprintf(stderr, "REPLAY: assumption not met, input discarded\n"); exit(0); }
void v_assert_fail(const char *kind, const char *name) {
  fprintf(stderr, "REPLAY-VIOLATION %s %s\n", kind, name);
  _exit(77);
}
bool v_r_ok(const void *p, size_t n) {
  if (p == NULL) return n == 0;
  return n == 0 || __asan_region_is_poisoned((void *)p, n) == NULL;
}
static void *keep[1 << 12];
static int nkeep;
void *mk_raw(size_t n) {
  bool o = g_in_call;
  g_in_call = false;
  void *p = malloc(n);
  keep[nkeep++] = p;
  g_in_call = o;
  memset(p, 0xA5, n);
  return p;
}
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) {
  if (n > ((size_t)1 << 30)) { g_oom = true; return NULL; }
  if (g_in_call && REFUSED()) { g_oom = true; return NULL; }
  void *p = __real_malloc(n);
  if (p) memset(p, 0xA5, n);
  return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  if (b != 0 && a > ((size_t)1 << 30) / b) { g_oom = true; return NULL; }
  if (g_in_call && REFUSED()) { g_oom = true; return NULL; }
  return __real_calloc(a, b);
}
void *__wrap_realloc(void *q, size_t n) {
  if (q == NULL) return __wrap_malloc(n);
  if (n > ((size_t)1 << 30)) { g_oom = true; return NULL; }
  if (g_in_call && REFUSED()) { g_oom = true; return NULL; }
  return __real_realloc(q, n);
}
void *cal_alloc(size_t n) {
  void *p = __real_malloc(n);
  memset(p, 0xA5, n);
  return p;
}
#include <time.h>
static struct tm v_lt;
struct tm *__wrap_localtime(const time_t *t) {
  (void)t;
  if (nd_bool()) { g_depfail = true; return NULL; }
  fill_tm(&v_lt);
  return &v_lt;
}
void v_leak_check(const char *name) {
  if (__lsan_do_recoverable_leak_check()) v_assert_fail("ENSURES", name);
}
int main(void) {
  g_k = 0;
  harness();
  fprintf(stderr, "REPLAY: no violation on this input\n");
  return 0;
}
#endif

void fill_bytes(void *p, size_t n) {
#if defined(VCBMC) && !defined(VSMALL)
  __CPROVER_havoc_slice(p, n);
#else
  for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = nd_u8();
#endif
}
void fill_tm(struct tm *p) {
  p->tm_gmtoff = 0; p->tm_zone = NULL;
  p->tm_sec = nd_int(); p->tm_min = nd_int(); p->tm_hour = nd_int();
  p->tm_mday = nd_int(); p->tm_mon = nd_int(); p->tm_year = nd_int();
  p->tm_wday = nd_int(); p->tm_yday = nd_int(); p->tm_isdst = nd_int();
}
size_t mk_len(void) {
  size_t n = nd_size();
#if defined(VSMALL) || !defined(VCBMC)
  REQUIRES(n <= VSMALL_LEN);
#else
  REQUIRES(n < VMAXLEN);
#endif
  return n;
}
uint8_t *mk_bytes(size_t n) {
  uint8_t *p = mk_raw(n);
#if defined(VSMALL) || !defined(VCBMC)
  fill_bytes(p, n);
#endif
  return p;
}
uint8_t *cal_bytes(size_t n) {
  uint8_t *p = cal_alloc(n);
#if defined(VSMALL) || !defined(VCBMC)
  fill_bytes(p, n);
#endif
  return p;
}
char *mk_str(size_t maxlen) {
#if defined(VSMALL) || !defined(VCBMC)
  if (maxlen > VSMALL_LEN) maxlen = VSMALL_LEN;
#endif
  size_t n = nd_size();
  REQUIRES(n <= maxlen);
  char *p = (char *)mk_bytes(n + 1);
  p[n] = '\0';
  return p;
}
void v_begin(void) { g_in_call = true; g_oom = false; g_depfail = false; }
void v_end(void) { g_in_call = false; }

#include "vstr.h"

#ifdef VSTRC
#ifndef NSTR
#define NSTR 6
#endif
static struct { const char *p; size_t n; } g_str[NSTR];
static int g_nstr;
static bool hint(const char *p, size_t *n) {
  for (int i = 0; i < NSTR; i++)
    if (i < g_nstr && g_str[i].p == p) { *n = g_str[i].n; return true; }
  return false;
}
static void put(const char *p, size_t n) {
  for (int i = 0; i < NSTR; i++)
    if (i < g_nstr && g_str[i].p == p) { g_str[i].n = n; return; }
  __CPROVER_assert(g_nstr < NSTR, "string table large enough");
  if (g_nstr < NSTR) { g_str[g_nstr].p = p; g_str[g_nstr].n = n; g_nstr++; }
}
static void reg(const char *p, size_t n) {
  __CPROVER_assert(p[n] == 0, "string ends at its length");
  __CPROVER_assert(!(g_k < n) || p[g_k] != 0, "string has no earlier end");
  put(p, n);
}
void str_moved(const void *from, void *to) {
  size_t n;
  if (hint(from, &n) && __CPROVER_r_ok(to, n + 1)) reg(to, n);
}
size_t strlen(const char *s) {
  size_t n;
  if (hint(s, &n)) {
    __CPROVER_assert(__CPROVER_r_ok(s, n + 1), "strlen: string readable");
    __CPROVER_assert(s[n] == 0, "strlen: string ends at its length");
    __CPROVER_assert(!(g_k < n) || s[g_k] != 0, "strlen: string has no earlier end");
    return n;
  }
  for (n = 0; s[n] != 0; n++) ;
  return n;
}
void *memchr(const void *p, int c, size_t n) {
  size_t l;
  if (c == 0 && hint(p, &l)) {
    size_t m = strlen(p); /* proves that l is its length */
    return m < n ? (void *)((const char *)p + m) : NULL;
  }
  const uint8_t *x = p;
  for (size_t i = 0; i < n; i++)
    if (x[i] == (uint8_t)c) return (void *)(x + i);
  return NULL;
}
/* d[off .. off+n) = s[0 .. n), where s is a string of length >= n */
static void put_str(char *d, size_t off, const char *s, size_t n) {
  __CPROVER_assert(__CPROVER_w_ok(d, off + n), "string write within the buffer");
  if (g_k >= off && g_k - off < n) __CPROVER_assume(s[g_k - off] != 0); /* fact about s, see header */
  if (n > 0) memcpy(d + off, s, n);
}
char *strcpy(char *d, const char *s) {
  size_t n = strlen(s);
  put_str(d, 0, s, n);
  __CPROVER_assert(__CPROVER_w_ok(d, n + 1), "strcpy: room for the terminator");
  d[n] = 0;
  reg(d, n);
  return d;
}
/* length of s, at most n; s need not end within n characters */
static size_t nlen(const char *s, size_t n) {
  size_t l;
  if (hint(s, &l)) { l = strlen(s); return l < n ? l : n; }
  l = nu_u64();
  __CPROVER_assume(l <= n);
  __CPROVER_assert(__CPROVER_r_ok(s, l), "string readable up to its end or the limit");
  if (l < n) { __CPROVER_assert(__CPROVER_r_ok(s, l + 1), "string readable up to its end"); __CPROVER_assume(s[l] == 0); }
  __CPROVER_assume(!(g_k < l) || s[g_k] != 0);
  return l;
}
char *strncpy(char *d, const char *s, size_t n) {
  size_t m = nlen(s, n);
  __CPROVER_assert(__CPROVER_w_ok(d, n), "strncpy: destination writable");
  put_str(d, 0, s, m);
  if (m < n) { memset(d + m, 0, n - m); reg(d, m); }
  else if (__CPROVER_r_ok(d, n + 1) && d[n] == 0) reg(d, n);
  return d;
}
char *strcat(char *d, const char *s) {
  size_t a = strlen(d), b = strlen(s);
  put_str(d, a, s, b);
  __CPROVER_assert(__CPROVER_w_ok(d, a + b + 1), "strcat: room for the terminator");
  d[a + b] = 0;
  reg(d, a + b);
  return d;
}
static char *mkc(char *p, size_t n) {
  p[n] = 0;
  __CPROVER_assume(!(g_k < n) || p[g_k] != 0);
  put(p, n);
  return p;
}
char *mk_cstr(void) { size_t n = mk_len(); return mkc(mk_raw(n + 1), n); }
char *cal_cstr(void) { size_t n = mk_len(); return mkc(cal_alloc(n + 1), n); }
size_t str_len(const char *s) { size_t n = 0; if (!hint(s, &n)) n = strlen(s); return n; }
void str_known(const char *s, size_t n) { reg(s, n); }
#else
static char *mkc(char *p, size_t n) {
  for (size_t i = 0; i < n; i++) REQUIRES(p[i] != 0);
  p[n] = 0;
  return p;
}
char *mk_cstr(void) { size_t n = mk_len(); return mkc((char *)mk_bytes(n + 1), n); }
char *cal_cstr(void) { size_t n = mk_len(); return mkc((char *)cal_bytes(n + 1), n); }
size_t str_len(const char *s) { return strlen(s); }
void str_known(const char *s, size_t n) { ENSURES(strlen(s) == n, "string has its length"); }
#ifdef VCBMC
#ifdef VSTR
void *memchr(const void *p, int c, size_t n) {
  const uint8_t *x = p;
  for (size_t i = 0; i < n; i++)
    if (x[i] == (uint8_t)c) return (void *)(x + i);
  return NULL;
}
#endif
void str_moved(const void *from, void *to) { (void)from; (void)to; }
static void put_str(char *d, size_t off, const char *s, size_t n) {
  for (size_t i = 0; i < n; i++) d[off + i] = s[i];
}
static void reg(const char *p, size_t n) { (void)p; (void)n; }
#endif
#endif

#ifdef VCBMC
/* printf family: %s, %.*s, %c, %d, %% and literal text */
static int vfmt(char *d, size_t cap, bool bounded, const char *fmt, va_list ap) {
  size_t o = 0; /* characters produced; stored only while o + 1 < cap when bounded */
  for (const char *f = fmt; *f != 0; f++) {
    if (*f != '%') {
      if (!bounded || o + 1 < cap) d[o] = *f;
      o++;
      continue;
    }
    f++;
    bool prec = false; int pv = 0;
    if (*f == '.') { f++; __CPROVER_assert(*f == '*', "format supported"); f++; prec = true; pv = va_arg(ap, int); }
    if (*f == 's') {
      const char *s = va_arg(ap, const char *);
      size_t n;
      if (prec && pv >= 0) {
        /* at most pv characters, not past a terminator */
#ifdef VSTRC
        n = nlen(s, (size_t)pv);
#else
        for (n = 0; n < (size_t)pv && s[n] != 0; n++) ;
#endif
      } else n = strlen(s);
      size_t m = n;
      if (bounded) { size_t room = o + 1 < cap ? cap - 1 - o : 0; if (m > room) m = room; }
      put_str(d, o, s, m);
      o += n;
    } else if (*f == 'c') {
      char c = (char)va_arg(ap, int);
      if (!bounded || o + 1 < cap) d[o] = c;
      o++;
    } else {
      __CPROVER_assert(*f == '%', "format supported");
      if (!bounded || o + 1 < cap) d[o] = '%';
      o++;
    }
  }
  if (!bounded) { d[o] = 0; reg(d, o); }
  else if (cap > 0) { size_t e = o < cap ? o : cap - 1; d[e] = 0; reg(d, e); }
  return (int)o;
}
int sprintf(char *d, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  int r = vfmt(d, 0, false, fmt, ap);
  va_end(ap);
  return r;
}
int snprintf(char *d, size_t cap, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  int r = vfmt(d, cap, true, fmt, ap);
  va_end(ap);
  return r;
}
#endif

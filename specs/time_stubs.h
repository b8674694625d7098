/* Contracts of the C library's strftime and strptime.
 *
 * The format is brought to a normal form (%F = %Y-%m-%d, %T = %H:%M:%S) and must
 * be the voucher date-time format: that is the obligation on the caller; the text
 * itself is then fixed by the library's definition for that format. */
#ifndef TIME_STUBS_H
#define TIME_STUBS_H
#include "voucher_stubs.h"
#define DT_LEN 20
static bool fmt_is_datetime(const char *f) {
  const char *want = "Y-m-dTH:M:SZ"; /* percent signs left out */
  char n[32];
  int o = 0;
  for (int i = 0; i < 24 && f[i] != 0; i++) {
    const char *add;
    char one[2] = {f[i], 0};
    if (f[i] == '%') {
      i++;
      if (f[i] == 'F') add = "Y-m-d";
      else if (f[i] == 'T') add = "H:M:S";
      else if (f[i] == 'Y' || f[i] == 'm' || f[i] == 'd' || f[i] == 'H' || f[i] == 'M' || f[i] == 'S') { one[0] = f[i]; add = one; }
      else return false;
    } else {
      if (f[i] != '-' && f[i] != 'T' && f[i] != ':' && f[i] != 'Z') return false;
      add = one;
    }
    for (int j = 0; j < 6 && add[j] != 0; j++) if (o < 31) n[o++] = add[j];
  }
  n[o] = 0;
  for (int i = 0; i < 13; i++) {
    if (n[i] != want[i]) return false;
    if (want[i] == 0) return true;
  }
  return false;
}
static inline bool tm_4digit(const struct tm *t) {
  return t->tm_year >= 1000 - 1900 && t->tm_year <= 9999 - 1900 && t->tm_mon >= 0 && t->tm_mon <= 11 && t->tm_mday >= 1 && t->tm_mday <= 31 &&
         t->tm_hour >= 0 && t->tm_hour <= 23 && t->tm_min >= 0 && t->tm_min <= 59 && t->tm_sec >= 0 && t->tm_sec <= 60;
}
static inline void dig2(char *d, int v) { d[0] = (char)('0' + v / 10); d[1] = (char)('0' + v % 10); }
/* the reference text of a date-time */
static inline void dt_text(char *d, const struct tm *t) {
  int y = t->tm_year + 1900;
  dig2(d, y / 100); dig2(d + 2, y % 100);
  d[4] = '-'; dig2(d + 5, t->tm_mon + 1); d[7] = '-'; dig2(d + 8, t->tm_mday); d[10] = 'T';
  dig2(d + 11, t->tm_hour); d[13] = ':'; dig2(d + 14, t->tm_min); d[16] = ':'; dig2(d + 17, t->tm_sec); d[19] = 'Z'; d[20] = 0;
}
static inline bool is_dig(char c) { return c >= '0' && c <= '9'; }
static inline int num2(const char *s) { return (s[0] - '0') * 10 + (s[1] - '0'); }
static inline bool dt_parse(const char *s, struct tm *t) {
  for (int i = 0; i < DT_LEN; i++) {
    char c = s[i];
    bool ok = i == 4 || i == 7 ? c == '-' : i == 10 ? c == 'T' : i == 13 || i == 16 ? c == ':' : i == 19 ? c == 'Z' : is_dig(c);
    if (!ok) return false;
  }
  t->tm_year = num2(s) * 100 + num2(s + 2) - 1900;
  t->tm_mon = num2(s + 5) - 1; t->tm_mday = num2(s + 8);
  t->tm_hour = num2(s + 11); t->tm_min = num2(s + 14); t->tm_sec = num2(s + 17);
  return t->tm_mon >= 0 && t->tm_mon <= 11 && t->tm_mday >= 1 && t->tm_mday <= 31 && t->tm_hour <= 23 && t->tm_min <= 59 && t->tm_sec <= 60;
}
#ifdef VCBMC
#define STRFTIME strftime
#define STRPTIME strptime
#else
#define STRFTIME __wrap_strftime
#define STRPTIME __wrap_strptime
#endif
static int g_strftime;
size_t STRFTIME(char *restrict s, size_t max, const char *restrict fmt, const struct tm *restrict t) {
  g_strftime++;
  PRE(fmt_is_datetime(fmt), "strftime: the format is %Y-%m-%dT%H:%M:%SZ");
  PRE(RD_OK(t, sizeof *t), "strftime: time readable");
  PRE(WR_OK(s, max), "strftime: buffer as large as said");
  if (tm_4digit(t)) {
    if (max <= DT_LEN) return 0;
    char d[DT_LEN + 1];
    dt_text(d, t);
    memcpy(s, d, DT_LEN + 1);
    return DT_LEN;
  }
  /* any other value: nothing, or some text that fits */
  size_t n = nd_size();
  REQUIRES(n < 64);
  if (n == 0 || n >= max) return 0;
  for (size_t i = 0; i < 64; i++)
    if (i < n && i + 1 < max) { s[i] = (char)nd_u8(); REQUIRES(s[i] != 0); }
  s[n] = 0;
  return n;
}
static int g_strptime;
static bool g_strptime_ok;
static const char *g_strptime_s;
static struct tm g_strptime_tm; /* what the library stored */
char *STRPTIME(const char *restrict s, const char *restrict fmt, struct tm *restrict t) {
  g_strptime++;
  g_strptime_s = s;
  PRE(fmt_is_datetime(fmt), "strptime: the format is %Y-%m-%dT%H:%M:%SZ");
  PRE(WR_OK(t, sizeof *t), "strptime: result writable");
  struct tm r = *t;
  size_t n = strlen(s);
  if (n >= DT_LEN && dt_parse(s, &r)) {
    r.tm_wday = nd_int(); r.tm_yday = nd_int();
    g_strptime_ok = true;
  } else {
    /* refused, or a shorter notation the library also accepts */
    r.tm_sec = nd_int(); r.tm_min = nd_int(); r.tm_hour = nd_int(); r.tm_mday = nd_int(); r.tm_mon = nd_int(); r.tm_year = nd_int();
    r.tm_wday = nd_int(); r.tm_yday = nd_int();
    g_strptime_ok = nd_bool();
  }
  *t = r;
  g_strptime_tm = r;
  return g_strptime_ok ? (char *)s + n : NULL;
}
#endif

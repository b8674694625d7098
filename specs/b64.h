/* base64 as in RFC 4648: the j-th character of the padded text of s, a string of
 * n = 3 * m + t bytes */
#ifndef B64_H
#define B64_H
#include "voucher_stubs.h"
size_t g_q, g_m;
uint8_t g_want;
static inline uint8_t b64_ch(int v) {
  return (uint8_t)(v < 26 ? 'A' + v : v < 52 ? 'a' + (v - 26) : v < 62 ? '0' + (v - 52) : v == 62 ? '+' : '/');
}
static inline uint8_t b64_at(const uint8_t *s, size_t n, size_t m, size_t t, size_t j) {
  size_t b = j >> 2, i = j & 3, o = 3 * b;
  uint8_t b0 = s[o], b1 = o + 1 < n ? s[o + 1] : 0, b2 = o + 2 < n ? s[o + 2] : 0;
  if (b == m && (i == 3 || (i == 2 && t == 1))) return '=';
  return b64_ch(i == 0 ? b0 >> 2 : i == 1 ? ((b0 & 3) << 4) | (b1 >> 4) : i == 2 ? ((b1 & 15) << 2) | (b2 >> 6) : b2 & 63);
}
#endif

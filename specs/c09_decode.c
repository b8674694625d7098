/* C09: serialize_base64str2array, texts of any length.
 * WHICH 0: arbitrary text; 1: the encoding of a byte string, with any characters
 * outside the alphabet between its characters */
#include "b64.h"
#include "/repo/src/voucher/serialize.h"
size_t *g_P, g_B, g_t, g_n;
bool g_rt;
uint8_t g_w[4], g_l[4], g_ws[4];

static int sextet(uint8_t c) {
  return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : c == '=' ? 0 : -1;
}
#if WHICH == 0
void harness(void) {
  g_k = nd_size();
  g_q = 0; g_rt = false;
  size_t n = mk_len();
  uint8_t *s = mk_bytes(n);
#if defined(VCBMC) && !defined(VSMALL)
  REQUIRES(n < VMAXLEN / 8);
  g_P = mk_raw((n + 1) * sizeof *g_P);
  REQUIRES(g_P[0] == 0);
#endif
  uint8_t *out = (uint8_t *)&g_q;
  uint8_t k0 = g_k < n ? s[g_k] : 0;
  v_begin();
  ssize_t r = serialize_base64str2array(s, n, &out);
  v_end();
  if (r < 0) {
    REACH("c09 refused");
    ENSURES(out == NULL, "c09: no output and no dangling pointer when decoding fails");
  } else {
    REACH("c09 decoded");
    ENSURES(out != NULL && RD_OK(out, (size_t)r), "c09: the result holds as many bytes as said");
#if !defined(VCBMC) || defined(VSMALL)
    /* reference decoder */
    uint8_t ref[VSMALL_LEN + 4], blk[4];
    size_t o = 0, c = 0, pad = 0, done = 0;
    for (size_t i = 0; i < VSMALL_LEN + 4; i++) {
      if (done) continue;
      int v = i < n ? sextet(s[i]) : 0;
      bool eq = i >= n || s[i] == '=';
      if (v < 0 || (i >= n && c == 0)) continue;
      if (eq) pad++;
      blk[c++] = (uint8_t)v;
      if (c == 4) {
        uint8_t b3[3] = {(uint8_t)(blk[0] << 2 | blk[1] >> 4), (uint8_t)(blk[1] << 4 | blk[2] >> 2), (uint8_t)(blk[2] << 6 | blk[3])};
        for (size_t j = 0; j < 3; j++) if (j < 3 - (pad < 3 ? pad : 3)) ref[o++] = b3[j];
        c = 0;
        if (pad) done = 1;
      }
    }
    ENSURES((size_t)r == o, "c09: the length is that of the decoded text");
    ENSURES(!(g_k < o) || (size_t)r != o || out[g_k] == ref[g_k], "c09: the bytes are those of the decoded text");
#endif
    free(out);
  }
  ENSURES(!(g_k < n) || s[g_k] == k0, "c09: the text is unchanged");
  NO_LEAK("c09: decoding leaks nothing");
}
#else
void harness(void) {
  g_k = nd_size();
  g_rt = true; g_q = 0;
  g_m = nd_size(); g_t = nd_size();
#if defined(VCBMC) && !defined(VSMALL)
  REQUIRES(g_m < VMAXLEN / 64 && g_t < 3);
#else
  REQUIRES(g_m <= 1 && g_t < 3);
#endif
  g_n = 3 * g_m + g_t;
  REQUIRES(g_n >= 1);
  size_t T = 4 * (g_m + (g_t ? 1 : 0)); /* characters of the encoding */
  uint8_t *x = mk_bytes(g_n);
  size_t len = mk_len();
  REQUIRES(len >= T);
  uint8_t *s = mk_bytes(len);
  g_want = g_k < g_n ? x[g_k] : 0;
#if defined(VCBMC) && !defined(VSMALL)
  REQUIRES(len < VMAXLEN / 8);
  g_B = nd_size();
  size_t rem = nd_size();
  REQUIRES(rem < 3 && g_B < VMAXLEN && (!(g_k < g_n) || g_k == 3 * g_B + rem) && (g_k < g_n || g_B == VMAXLEN - 1));
  for (size_t i = 0; i < 4; i++) {
    if (g_k < g_n) { g_w[i] = b64_at(x, g_n, g_m, g_t, 4 * g_B + i); g_ws[i] = (uint8_t)sextet(g_w[i]); }
    g_l[i] = g_t ? b64_at(x, g_n, g_m, g_t, 4 * g_m + i) : 0;
  }
  g_P = mk_raw((len + 1) * sizeof *g_P);
  REQUIRES(g_P[0] == 0 && g_P[len] == T);
#else
  size_t j = 0;
  for (size_t i = 0; i < VSMALL_LEN; i++)
    if (i < len) {
      if (j < T && nd_bool()) { REQUIRES(s[i] == b64_at(x, g_n, g_m, g_t, j)); j++; }
      else REQUIRES(sextet(s[i]) < 0);
    }
  REQUIRES(j == T);
#endif
  uint8_t *out = (uint8_t *)&g_q;
  v_begin();
  ssize_t r = serialize_base64str2array(s, len, &out);
  v_end();
  if (r < 0) {
    REACH("c09 encoding refused");
    ENSURES(g_oom && out == NULL, "c09: the encoding of a byte string is refused only for lack of memory");
  } else {
    REACH("c09 encoding decoded");
    ENSURES((size_t)r == g_n, "c09: decoding an encoding gives back the length");
    ENSURES(out != NULL && RD_OK(out, g_n) && (!(g_k < g_n) || out[g_k] == g_want), "c09: decoding an encoding gives back every byte");
    free(out);
  }
  NO_LEAK("c09: decoding an encoding leaks nothing");
}
#endif

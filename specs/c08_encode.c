/* C08: serialize_array2base64str, byte strings of any length */
#include "voucher_stubs.h"
#include "/repo/src/voucher/serialize.h"
#include "b64.h"

/* lengths no byte string in memory can have: refused before anything is read */
static void too_large(void) {
  size_t n = nd_size();
  REQUIRES(n >= SIZE_MAX / 4);
  uint8_t *out = (uint8_t *)&g_q;
  v_begin();
  ssize_t r = serialize_array2base64str((const uint8_t *)&g_q, n, &out);
  v_end();
  ENSURES(r < 0 && out == NULL, "c08: a string too large to encode is an error without output");
}
void harness(void) {
  g_q = 0;
  if (nd_bool()) { too_large(); return; }
  g_k = nd_size(); /* an arbitrary position of the text */
#if !defined(VSMALL) && defined(VCBMC)
  g_m = nd_size();
  size_t t = nd_size();
  REQUIRES(g_m < VMAXLEN / 3 && t < 3);
  size_t n = 3 * g_m + t; /* every length, written as whole blocks and a rest */
#else
  size_t n = mk_len();
  size_t m = n / 3, t = n % 3;
  g_m = m;
#endif
  g_q = 0;
  uint8_t *src = mk_bytes(n);
  uint8_t *out = (uint8_t *)&g_q;
  size_t blocks = g_m + (t ? 1 : 0);
  g_want = g_k < 4 * blocks ? b64_at(src, n, g_m, t, g_k) : 0;
  v_begin();
  ssize_t r = serialize_array2base64str(src, n, &out);
  v_end();
  if (r < 0) {
    REACH("c08 refused");
    ENSURES(out == NULL, "c08: no output when encoding fails");
    ENSURES(g_oom, "c08: encoding fails only for lack of memory");
  } else {
    REACH("c08 encoded");
    ENSURES((size_t)r == 4 * blocks, "c08: the returned length is the length of the padded text");
    ENSURES(out != NULL && out != src && RD_OK(out, 4 * blocks + 1) && out[4 * blocks] == 0, "c08: the text is NUL-terminated right after its last character");
    ENSURES(!(g_k < 4 * blocks) || out[g_k] == g_want, "c08: every character of the text is the standard one");
    free(out);
  }
  NO_LEAK("c08: encoding leaks nothing");
}

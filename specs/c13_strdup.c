/* C13: sys_strdup / sys_strndup on strings of any length */
#include "voucher_stubs.h"
#include "../lib/vstr.h"
#include "/repo/src/utils/os.h"

/* a text without an end within its n bytes: exactly the first n are copied */
static void prefix(void) {
  size_t n = mk_len(), room = mk_len();
  REQUIRES(room >= n);
  char *s = (char *)mk_bytes(room);
  REQUIRES(!(g_k < n) || s[g_k] != 0);
  char k0 = g_k < n ? s[g_k] : 0;
  v_begin();
  char *d = sys_strndup(s, n);
  v_end();
  if (d == NULL) {
    REACH("strndup refused");
    ENSURES(g_oom, "c13: a text is refused only for memory");
  } else {
    REACH("strndup");
    size_t l = str_len(d);
    ENSURES(d != s && l <= n && RD_OK(d, l + 1) && d[l] == 0, "c13: the copy of a text has an end, after at most its length");
    ENSURES(l == n || s[l] == 0, "c13: the copy of a text has its length");
    ENSURES(!(g_k < l) || d[g_k] == k0, "c13: the copy of a text has the same characters");
    free(d);
  }
  NO_LEAK("c13: copying a text leaks nothing");
}
void harness(void) {
  g_k = nd_size();
  if (nd_bool()) { prefix(); return; }
  char *s = mk_cstr();
  size_t n = str_len(s);
  char k0 = g_k <= n ? s[g_k] : 0;
  bool null = nd_bool(), dup = nd_bool();
  if (dup) REQUIRES(!null);
  size_t lim = n;
  if (!dup) { lim = mk_len(); REQUIRES(lim >= n); }
  v_begin();
  char *d = dup ? sys_strdup(s) : sys_strndup(null ? NULL : s, lim);
  v_end();
  if (d == NULL) {
    REACH("strdup refused");
    ENSURES(null || g_oom, "c13: a string is refused only for a missing argument or memory");
  } else {
    REACH("strdup");
    ENSURES(!null && d != s, "c13: the copy is independent");
    ENSURES(RD_OK(d, n + 1) && d[n] == 0, "c13: the copy ends where the string ends");
    ENSURES(!(g_k < n) || d[g_k] == k0, "c13: the copy has the same characters");
    free(d);
  }
  ENSURES(!(g_k <= n) || s[g_k] == k0, "c13: the copied string is unchanged");
  NO_LEAK("c13: copying a string leaks nothing");
}

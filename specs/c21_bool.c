/* C21: serialize_bool2str, serialize_str2bool */
#include "voucher_stubs.h"
#include "../lib/vstr.h"
#include "/repo/src/voucher/serialize.h"

#ifdef VCBMC
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; } /* C locale */
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
#endif
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static bool is_word(const char *s, size_t n, const char *w, size_t wn) {
  if (n != wn) return false;
  for (size_t i = 0; i < 5; i++)
    if (i < n && low(s[i]) != w[i]) return false;
  return true;
}
void harness(void) {
  g_k = nd_size();
  bool ns = nd_bool();
  size_t n = mk_len();
  char *s = (char *)mk_bytes(n);
  for (size_t i = 0; i < 6; i++) if (i < n) REQUIRES(s[i] != 0); /* text */
  char k0 = g_k < n ? s[g_k] : 0;
  int want = ns ? -1 : is_word(s, n, "true", 4) || is_word(s, n, "1", 1) ? 1 : is_word(s, n, "false", 5) || is_word(s, n, "0", 1) ? 0 : -1;
  v_begin();
  int r = serialize_str2bool(ns ? NULL : s, n);
  v_end();
  if (want == 1) { REACH("c21 reads true"); }
  if (want == 0) { REACH("c21 reads false"); }
  ENSURES(want >= 0 ? r == want : r < 0, "c21: exactly 0, 1, true and false (any letter case) are booleans");
  ENSURES(!(g_k < n) || s[g_k] == k0, "c21: the text is unchanged");
  bool b = nd_bool();
  v_begin();
  char *t = serialize_bool2str(b);
  v_end();
  if (t == NULL) { ENSURES(g_oom, "c21: a boolean is refused only for lack of memory"); }
  else {
    REACH("c21 writes a boolean");
    const char *w = b ? "true" : "false";
    bool same = true;
    for (size_t i = 0; i < 6; i++) if (same && (i == 0 || w[i - 1] != 0)) same = t[i] == w[i];
    ENSURES(same, "c21: the text of a boolean is true or false");
    ENSURES(serialize_str2bool(t, b ? 4 : 5) == (b ? 1 : 0), "c21: the text of a boolean reads back as that boolean");
    free(t);
  }
  NO_LEAK("c21: writing a boolean leaks nothing");
}

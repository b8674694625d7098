/* C21: serialize_escapestr and concatenate_keyvalue, strings of any length */
#include "voucher_stubs.h"
#include "../lib/vstr.h"
#include "/repo/src/voucher/serialize.h"

#if WHICH == 1
char *concatenate_keyvalue(const char *key, const char *value, const bool separator);
#endif
void harness(void) {
  g_k = nd_size();
#if WHICH == 0
  bool ns = nd_bool();
  char *s = mk_cstr();
  size_t n = str_len(s);
  char k0 = g_k < n ? s[g_k] : 0;
  v_begin();
  char *q = serialize_escapestr(ns ? NULL : s);
  v_end();
  if (q == NULL) { REACH("c21 quote refused"); ENSURES(ns || g_oom, "c21: quoting fails only without a string or memory"); }
  else {
    REACH("c21 quotes");
    ENSURES(!ns && q != s && RD_OK(q, n + 3), "c21: the quoted string has room for both quotes and the end");
    ENSURES(q[0] == '"' && q[n + 1] == '"' && q[n + 2] == 0, "c21: the string stands between two quotes");
    ENSURES(!(g_k < n) || q[g_k + 1] == k0, "c21: the string itself is unchanged between the quotes");
    free(q);
  }
  ENSURES(!(g_k < n) || s[g_k] == k0, "c21: the given string is unchanged");
  NO_LEAK("c21: quoting leaks nothing");
#elif WHICH == 2
  /* C11: a text written to JSON stays one JSON string */
  char *s = mk_cstr();
  size_t n = str_len(s);
  bool mark = g_k < n && s[g_k] == '"' && (g_k == 0 || s[g_k - 1] != '\\');
  v_begin();
  char *q = serialize_escapestr(s);
  v_end();
  if (q != NULL) {
    REACH("c11 quotes");
    ENSURES(!mark || q[g_k + 1] != '"' || q[g_k] == '\\', "c11: a quotation mark inside a text does not end the JSON string");
    free(q);
  }
  NO_LEAK("c11: quoting leaks nothing");
#else
  char *key = mk_cstr(), *val = mk_cstr();
  size_t kn = str_len(key), vn = str_len(val);
  char kk = g_k < kn ? key[g_k] : 0, vk = g_k < vn ? val[g_k] : 0;
  bool sep = nd_bool();
  v_begin();
  char *q = concatenate_keyvalue(key, val, sep);
  v_end();
  if (q == NULL) { REACH("c21 join refused"); ENSURES(g_oom, "c21: joining fails only without memory"); }
  else {
    REACH("c21 joins");
    ENSURES(RD_OK(q, kn + vn + 2 + (sep ? 1 : 0)), "c21: room for name, colon, value, comma and end");
    ENSURES(q[kn] == ':', "c21: a colon stands between name and value");
    ENSURES(sep ? q[kn + vn + 1] == ',' && q[kn + vn + 2] == 0 : q[kn + vn + 1] == 0, "c21: a comma follows exactly when asked for, then the text ends");
    ENSURES(!(g_k < kn) || q[g_k] == kk, "c21: the name is exact");
    ENSURES(!(g_k < vn) || q[kn + 1 + g_k] == vk, "c21: the value is exact");
    free(q);
  }
  NO_LEAK("c21: joining leaks nothing");
#endif
}

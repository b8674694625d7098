/* C11: serialize_keyvalue2json, lists of any length.
 * The text being built is followed as a sequence of pieces: "{", one piece per
 * member (made by concatenate_keyvalue, unit c21_strings_1), "}", with its length
 * and the room of its buffer; g_k is the witness, an arbitrary member. */
#include "voucher_stubs.h"
#include "/repo/src/voucher/keyvalue.h"
#include "/repo/src/voucher/serialize.h"
#if defined(VCBMC) && !defined(VSMALL)
#define GHOST
#endif
#ifdef GHOST
size_t g_i, g_n;
struct keyvalue_list g_kv, g_kvh;
char *g_wkey, *g_wval, *g_okey, *g_oval, v_js[2][2];
size_t g_js_n, g_len, g_cap, g_tok_len;
bool g_js_ok, g_js_bad, g_tok_live, g_tok_wit, g_tok_sep, g_js_live, g_open, g_close;
int g_cur;
static char v_tok[2];
static bool is_js(const void *p) { return p == v_js[g_cur] && g_js_live; }
unsigned int spec_len(const struct dl_list *l) { PRE(l == &g_kvh.list, "dl_list_len of the list"); return (unsigned int)g_n; }
char *spec_join(const char *k, const char *v, const bool sep) {
  PRE(!g_tok_live, "the previous piece was released");
  if (nd_bool()) { g_oom = true; return NULL; }
  g_tok_live = true;
  g_tok_wit = k == g_wkey && v == g_wval;
  g_tok_sep = sep;
  g_tok_len = nu_u64();
  REQUIRES(g_tok_len < ((size_t)1 << 31));
  return v_tok;
}
bool v_lend_free(const void *p) {
  if (p == v_tok) { PRE(g_tok_live, "a piece is freed once"); g_tok_live = false; return true; }
  if (p == v_js[0] || p == v_js[1]) { PRE(is_js(p), "free of the live buffer"); g_js_live = false; return true; }
  return false;
}
void *calloc(size_t a, size_t b) {
  PRE(!g_js_live, "one buffer");
  if (nd_bool()) { g_oom = true; return NULL; }
  g_js_live = true; g_cur = 0; g_cap = a * b; g_len = 0;
  return v_js[0];
}
void *realloc(void *p, size_t n) {
  PRE(is_js(p), "realloc of the live buffer");
  PRE(n > g_len, "realloc keeps the text");
  if (nd_bool()) { g_oom = true; return NULL; }
  g_cur = 1 - g_cur; /* it may move */
  g_cap = n;
  return v_js[g_cur];
}
size_t strlen(const char *s) {
  if (s == v_tok) { PRE(g_tok_live, "strlen of a live piece"); return g_tok_len; }
  PRE(is_js(s), "strlen of the text");
  return g_len;
}
char *strcat(char *d, const char *s) {
  PRE(is_js(d), "strcat to the live buffer");
  size_t n = 1;
  if (s == v_tok) {
    PRE(g_tok_live, "strcat of a live piece");
    n = g_tok_len;
    if (!g_open || g_close) g_js_bad = true;
    if (g_js_n == g_k) g_js_ok = g_tok_wit && g_tok_sep == (g_k + 1 < g_n);
    g_js_n++;
  } else if (s[0] == '{' && s[1] == 0) {
    if (g_open || g_len != 0) g_js_bad = true;
    g_open = true;
  } else if (s[0] == '}' && s[1] == 0) {
    if (g_close || g_js_n != g_n) g_js_bad = true;
    g_close = true;
  } else g_js_bad = true;
  PRE(g_cap > g_len + n, "strcat within the buffer");
  g_len += n;
  return d;
}
#else
#define NPAIR 2
extern size_t g_plan, g_seq;
#endif
static void check(size_t n) {
  bool nl = nd_bool();
#ifdef GHOST
  g_i = 0; g_n = n; g_js_n = 0; g_len = 0; g_cap = 0;
  REQUIRES(g_n < ((size_t)1 << 32));
  g_js_ok = g_js_bad = g_tok_live = g_js_live = g_open = g_close = false;
  g_wkey = mk_raw(1); g_wval = mk_raw(1); g_okey = mk_raw(1); g_oval = mk_raw(1);
  g_kv.list.el = &g_kv; g_kvh.list.el = &g_kvh;
  g_kvh.list.next = g_n > 0 ? &g_kv.list : &g_kvh.list;
  struct keyvalue_list *l = &g_kvh;
#else
  /* texts of fixed lengths: the lengths of everything built are then known */
  static const char *k[NPAIR] = {"a", "bc"}, *v[NPAIR] = {"", "123"}, *wants[NPAIR + 1] = {"{}", "{a:}", "{a:,bc:123}"};
  static struct keyvalue_list h, e[NPAIR];
  dl_list_init(&h.list, &h);
  for (size_t i = 0; i < NPAIR; i++)
    if (i < n) { e[i].key = (char *)k[i]; e[i].value = (char *)v[i]; dl_list_add_tail(&h.list, &e[i].list, &e[i]); }
  const char *want = wants[n];
  struct keyvalue_list *l = &h;
#endif
  v_begin();
  char *j;
  if (nl) j = serialize_keyvalue2json(NULL);
  else j = serialize_keyvalue2json(l);
  v_end();
  if (j == NULL) {
    REACH("c11 text refused");
    ENSURES(nl || n == 0 || g_oom, "c11: the text of an object is refused only for a missing or empty list or lack of memory");
  } else {
    REACH("c11 text made");
    ENSURES(!nl && n > 0 && !g_oom, "c11: no text without members or memory");
#ifdef GHOST
    ENSURES(is_js(j), "c11: the text is in its buffer");
    ENSURES(g_open && g_close && !g_js_bad, "c11: the members stand between one pair of braces");
    ENSURES(g_js_n == g_n && (!(g_k < g_n) || g_js_ok), "c11: every member is written once, in order, commas exactly between members");
    v_begin();
    free(j);
    v_end();
#else
    ENSURES(strcmp(j, want) == 0, "c11: every member is written once, in order, between one pair of braces, commas exactly between members");
    free(j);
#endif
  }
#ifdef GHOST
  ENSURES(!g_tok_live && !g_js_live, "c11: every piece is released");
#endif
  NO_LEAK("c11: writing an object leaks nothing");
}
void harness(void) {
  g_k = nd_size();
  size_t n = nd_size();
#ifdef GHOST
  check(n);
#else
  size_t p = nd_size();
  REQUIRES(n <= NPAIR && p <= 6);
  for (size_t i = 0; i <= NPAIR; i++)
    for (g_plan = 0; g_plan <= 6; g_plan++)
      if (n == i && p == g_plan) { g_seq = 0; check(i); return; }
#endif
}

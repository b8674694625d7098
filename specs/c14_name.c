/* add_x509name_keyvalues, lists of any length (C14) */
#if defined(VCBMC) && !defined(VSMALL)
#define OSSL_W
#endif
#include "ossl.h"
X509_NAME *add_x509name_keyvalues(struct keyvalue_list *pairs);
#define NPAIR 2
struct X509_name_st { int ref; };
static struct X509_name_st v_name;
static int g_live;
size_t g_nm_n; bool g_nm_ok, g_nm_kv;
#ifdef OSSL_W
struct keyvalue_list g_kv, g_kvh;
char *g_wkey, *g_wval, *g_okey;
#else
static struct { const char *k, *v; } g_got[NPAIR];
#endif
X509_NAME *X509_NAME_new(void) {
  if (lib_fails()) return NULL;
  PRE(!g_live, "one name");
  g_live = 1;
  return &v_name;
}
void X509_NAME_free(X509_NAME *n) {
  if (n == NULL) return;
  PRE(n == &v_name && g_live, "X509_NAME_free of a live name");
  g_live = 0;
}
int X509_NAME_add_entry_by_txt(X509_NAME *n, const char *field, int type, const unsigned char *bytes, int len, int loc, int set) {
  PRE(n == &v_name && g_live && field != NULL && bytes != NULL, "X509_NAME_add_entry_by_txt to a live name");
  if (lib_fails()) return 0;
  g_nm_ok = g_nm_ok && (type == MBSTRING_ASC || type == MBSTRING_UTF8) && len == -1 && loc == -1 && set == 0;
#ifdef OSSL_W
  if (g_nm_n == g_k) g_nm_kv = field == g_wkey && bytes == (unsigned char *)g_wval;
#else
  if (g_nm_n < NPAIR) { g_got[g_nm_n].k = field; g_got[g_nm_n].v = (const char *)bytes; }
#endif
  g_nm_n++;
  return 1;
}
void harness(void) {
  g_k = nd_size();
  g_live = 0; g_nm_n = 0; g_nm_ok = true; g_nm_kv = false;
#ifdef OSSL_W
  g_i = 0; g_n = nd_size();
  g_okey = mk_raw(1);
  g_wkey = nd_bool() ? NULL : mk_raw(2); g_wval = nd_bool() ? NULL : mk_raw(2);
  g_kv.list.el = &g_kv; g_kvh.list.el = &g_kvh;
  g_kvh.list.next = g_n > 0 ? &g_kv.list : &g_kvh.list;
  struct keyvalue_list *l = &g_kvh;
#else
  static struct keyvalue_list h, e[NPAIR];
  static char text[2 * NPAIR][2];
  size_t n = nd_size();
  REQUIRES(n <= NPAIR);
  dl_list_init(&h.list, &h);
  bool full = true;
  for (size_t i = 0; i < NPAIR; i++)
    if (i < n) {
      e[i].key = nd_bool() ? NULL : text[2 * i];
      e[i].value = nd_bool() ? NULL : text[2 * i + 1];
      if (e[i].key == NULL || e[i].value == NULL) full = false;
      dl_list_add_tail(&h.list, &e[i].list, &e[i]);
    }
  struct keyvalue_list *l = &h;
#endif
  v_begin();
  X509_NAME *r = add_x509name_keyvalues(l);
  v_end();
  if (r == NULL) {
    REACH("c14 name refused");
    ENSURES(!g_live, "c14: a refused name is released");
#ifndef OSSL_W
    ENSURES(g_depfail || g_oom || !full, "c14: a name is refused only for a failure or an incomplete pair");
#endif
  } else {
    REACH("c14 name");
    ENSURES(r == &v_name && g_live && !g_depfail, "c14: any failure on the way gives no name");
    ENSURES(g_nm_ok, "c14: every entry is added whole, as text, at the end");
#ifdef OSSL_W
    ENSURES(g_nm_n == g_n, "c14: the name has as many entries as the list");
    ENSURES(!(g_k < g_n) || g_nm_kv, "c14: every entry of the name is its pair of the list");
#else
    ENSURES(g_nm_n == n && full, "c14: the name has as many entries as the list");
    for (size_t i = 0; i < NPAIR; i++) if (i < n) ENSURES(g_got[i].k == e[i].key && g_got[i].v == e[i].value, "c14: every entry of the name is its pair of the list");
#endif
  }
  NO_LEAK("c14: building a name leaks nothing");
}

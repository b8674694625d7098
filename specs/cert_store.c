/* get_certificate_store and free_x509_store, trust lists of any length (C05, C07) */
#if defined(VCBMC) && !defined(VSMALL)
#define OSSL_W
#endif
#include "ossl.h"
struct ptr_list;
X509_STORE *get_certificate_store(const struct BinaryArrayList *store, struct ptr_list **x509_store_list);
void free_x509_store(X509_STORE *store, struct ptr_list *x509_store_list);
void free_x509_store_cert(void *cert, const int flags);
#ifdef OSSL_W
/* contracts of the pointer list, proved of the real functions in units ptr_push and ptr_list */
size_t g_pl_n; void *g_pl_k; int g_pl_f; int g_pl_live;
static int v_pl;
struct ptr_list *spec_init_ptr_list(void) {
  if (lib_fails()) return NULL;
  g_pl_live = 1;
  return (struct ptr_list *)&v_pl;
}
int spec_push_ptr_list(struct ptr_list *l, void *const p, const int flags) {
  if (l == NULL || p == NULL) { g_depfail = true; return -1; }
  PRE((void *)l == (void *)&v_pl && g_pl_live, "push to a live pointer list");
  if (lib_fails()) return -1;
  if (g_pl_n == g_k) { g_pl_k = p; g_pl_f = flags; }
  g_pl_n++;
  return 0;
}
void spec_free_ptr_list(struct ptr_list *l, void (*cb)(void *, const int)) {
  if (l == NULL) return;
  PRE((void *)l == (void *)&v_pl && g_pl_live, "free of a live pointer list");
  PRE(cb == free_x509_store_cert, "the pointers are released by the certificate callback");
  if (g_pl_n > g_k) free_x509_store_cert(g_pl_k, g_pl_f);
  g_pl_live = 0;
}
#endif
void harness(void) {
  g_k = nd_size();
#ifdef OSSL_W
  struct BinaryArrayList *l = w_list();
  g_pl_n = 0; g_pl_k = NULL; g_pl_live = 0;
  struct ptr_list *pl = (struct ptr_list *)&v_W;
#else
  static struct ghost_list g;
  struct BinaryArrayList *l = gl_make(&g, false, true);
  struct ptr_list *pl = (struct ptr_list *)&g;
#endif
  v_begin();
  X509_STORE *s = get_certificate_store(l, &pl);
  v_end();
  if (s == NULL) {
    REACH("cert_store refused");
#ifdef OSSL_W
    ENSURES(!g_ct_live && !g_pl_live && g_w_ref == 0 && g_c_ref == 0, "store: a refused list leaves nothing behind");
#else
    ENSURES(g_depfail || g_oom || !types_ok(&g), "store: refused only if an entry does not decode, has no known type or memory is short");
#endif
  } else {
    REACH("cert_store made");
    ENSURES(!g_depfail, "store: any failure on the way is a refusal");
#ifdef OSSL_W
    ENSURES(g_ct_live && g_ct_n == g_n, "store: as many entries as the list");
    ENSURES(!(g_k < g_n) || g_w_ok, "store: every entry is the decoding of its list entry");
    ENSURES(!(g_k < g_n) || (g_wf == CRYPTO_CERTIFICATE_VALID ? g_ct_kind == 1 && g_ct_k == g_W : g_ct_kind == 2 && g_ct_k == g_Wc), "store: certificates are trusted as certificates, revocation lists as revocation lists");
    ENSURES(!(g_k < g_n) || g_wf == CRYPTO_CERTIFICATE_VALID || g_wf == CRYPTO_CERTIFICATE_CRL, "store: an entry of unknown type is a refusal");
#else
    ENSURES(types_ok(&g), "store: an entry of unknown type is a refusal");
    ENSURES(store_is(s, &g), "store: every entry is trusted as what it is, and nothing else");
#endif
    v_begin();
    free_x509_store(s, pl);
    v_end();
#ifdef OSSL_W
    ENSURES(!g_ct_live && !g_pl_live && g_w_ref == 0 && g_c_ref == 0, "store: releasing the store releases every entry");
#endif
  }
  NO_LEAK("store: decoding the list leaks nothing");
}

/* get_certificate_stack, lists of any length (C05, C06, C07) */
#if defined(VCBMC) && !defined(VSMALL)
#define OSSL_W
#endif
#include "ossl.h"
STACK_OF(X509) *get_certificate_stack(const struct BinaryArrayList *certs);
void harness(void) {
  g_k = nd_size();
#ifdef OSSL_W
  struct BinaryArrayList *l = w_list();
#else
  static struct ghost_list g;
  struct BinaryArrayList *l = gl_make(&g, false, false);
#endif
  v_begin();
  OPENSSL_STACK *s = (OPENSSL_STACK *)get_certificate_stack(l);
  v_end();
  if (s == NULL) {
    REACH("cert_stack refused");
    ENSURES(g_depfail || g_oom, "stack: refused only if a certificate does not decode or memory is short");
#ifdef OSSL_W
    ENSURES(!g_ct_live && g_w_ref == 0, "stack: a refused list leaves no certificate and no stack behind");
#endif
  } else {
    REACH("cert_stack made");
    ENSURES(!g_depfail, "stack: any failure on the way is a refusal");
#ifdef OSSL_W
    ENSURES(g_ct_live && g_ct_n == g_n, "stack: as many certificates as the list has entries");
    ENSURES(!(g_k < g_n) || (g_ct_k == g_W && g_w_ok), "stack: every certificate is the decoding of its entry");
    ENSURES(!(g_k < g_n) || g_w_ref == 1, "stack: every certificate is owned by the stack alone");
#else
    ENSURES(stack_is(s, &g), "stack: the certificates are the decodings of the entries, in order");
    OPENSSL_sk_pop_free(s, (OPENSSL_sk_freefunc)X509_free);
#endif
  }
  NO_LEAK("stack: decoding the list leaks nothing");
}

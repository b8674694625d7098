/* C07: crypto_verify_cert */
#include "ossl.h"
static struct { int calls; bool target, stack, store; int num; } g_chain;
static const uint8_t *g_cert; static size_t g_cert_len;
static struct ghost_list g_certs, g_store;

STACK_OF(X509) *X509_build_chain(X509 *t, STACK_OF(X509) *certs, X509_STORE *store, int self, OSSL_LIB_CTX *lc, const char *pq) {
  (void)self; (void)lc; (void)pq;
  g_chain.calls++;
  g_chain.target = x_alive(t) && from_der(t->from, g_cert, g_cert_len);
  g_chain.stack = stack_is((OPENSSL_STACK *)certs, &g_certs);
  g_chain.store = store_is(store, &g_store);
  g_chain.num = -1;
  if (nd_bool()) return NULL;
  OPENSSL_STACK *s = malloc(sizeof *s);
  if (s == NULL) return NULL;
  int n = nd_bool() ? 1 : 0;
  s->num = n; s->tag = NULL;
  if (n) { s->at[0] = t; if (t) t->ref++; }
  g_chain.num = n;
  return (STACK_OF(X509) *)s;
}
void harness(void) {
  g_k = nd_size();
  g_cert_len = mk_len();
  g_cert = nd_bool() ? NULL : mk_bytes(g_cert_len);
  struct BinaryArrayList *certs = gl_make(&g_certs, true, false), *store = gl_make(&g_store, true, true);
  v_begin();
  int r = crypto_verify_cert(g_cert, g_cert_len, certs, store);
  v_end();
  if (r == 0) { REACH("c07 accepted"); } else { REACH("c07 rejected"); }
  ENSURES(r == 0 || r < 0, "c07: the result is 0 or negative");
  ENSURES(r != 0 || (g_cert != NULL && certs != NULL), "c07: nothing is accepted without a certificate or intermediates list");
  ENSURES(r != 0 || g_chain.calls > 0, "c07: accepted only if the library was asked for a chain");
  ENSURES(r != 0 || g_chain.target, "c07: the chain is built for that very certificate");
  ENSURES(r != 0 || g_chain.stack, "c07: the chain is built from exactly the given intermediates");
  ENSURES(r != 0 || g_chain.store, "c07: the chain is built from exactly the given trust store, certificates as certificates and revocation lists as revocation lists");
  ENSURES(r != 0 || g_chain.num >= 1, "c07: accepted only if the chain is not empty");
  ENSURES(r != 0 || !g_depfail, "c07: any failure on the way is a rejection");
  ENSURES(r == 0 || g_cert == NULL || certs == NULL || g_depfail || g_oom || g_cert_len == 0 || !types_ok(&g_store) || (g_chain.calls > 0 && g_chain.num < 1), "c07: a certificate with a chain is accepted");
  NO_LEAK("c07: checking leaks nothing");
}

/* C15: crypto_getcert_issuer */
#define OSSL_CERT
#include "ossl.h"
static struct blob g_text; static bool g_printed;
int X509_NAME_print_ex(BIO *b, const X509_NAME *n, int indent, unsigned long flags) {
  PRE(b != NULL && b->ref > 0 && n != NULL, "X509_NAME_print_ex of live objects");
  if (lib_fails()) { if (nd_bool() && g_text.n > 0) bio_put(b, g_text.p, g_text.n); return -1; }
  struct blob t = g_text;
  g_printed = n->i.how == N_ISSUER_OF && indent == 0 && flags == XN_FLAG_ONELINE;
  if (t.n > 0) bio_put(b, t.p, t.n);
  return (int)t.n;
}
void harness(void) {
  g_k = nd_size();
  uint8_t der[1];
  X509 *x = nd_bool() ? NULL : mk_raw(sizeof *x);
  if (x != NULL) { x->ref = 1; x->from.how = H_DER; x->from.src = der; x->from.len = 1; x->enc_made = false; cert_init(x); }
  g_text = mk_blob(0);
  v_begin();
  struct BinaryArray *r = crypto_getcert_issuer((CRYPTO_CERT)x);
  v_end();
  if (r != NULL) {
    REACH("c15 issuer");
    ENSURES(x != NULL && !g_depfail && g_printed, "c15: the issuer reported is the certificate's issuer name, on one line");
    ENSURES(r->length == g_text.n, "c15: the issuer text is complete");
    ENSURES(r->length == 0 || (r->array != NULL && r->array != g_text.p), "c15: the issuer text is the caller's own");
    ENSURES(r->array == NULL || r->length != g_text.n || BYTE_EQ(r->array, g_text.p, r->length), "c15: the issuer text is exact");
    free_binary_array(r);
  } else {
    REACH("c15 issuer refused");
    ENSURES(x == NULL || g_depfail || g_oom, "c15: an issuer that can be read is reported");
  }
  if (x != NULL) ENSURES(x->ref == 1 && x->c.mods == 0, "c15: the certificate stays as it was");
  NO_LEAK("c15: reading the issuer leaks nothing");
}

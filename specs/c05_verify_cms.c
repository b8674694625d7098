/* C05: crypto_verify_cms */
#if defined(VSMALL) || defined(VREPLAY)
#define OSSL_SIGNERS
#endif
#include "ossl.h"
static const uint8_t *g_cms; static size_t g_cms_len;
static struct ghost_list g_certs, g_store;
static struct blob g_content; /* what the message carries */
static struct { int calls; bool msg, stack, store, verified, said; struct blob out; int nsig; } g_v;

int CMS_verify(CMS_ContentInfo *cms, STACK_OF(X509) *certs, X509_STORE *store, BIO *dcont, BIO *out, unsigned int flags) {
  PRE(cms != NULL && cms->ref > 0, "CMS_verify of a live message");
  PRE(dcont == NULL, "the content verified is the one inside the message");
  g_v.calls++;
  g_v.msg = from_der(cms->from, g_cms, g_cms_len);
  g_v.nsig = cms->nsig;
  g_v.stack = stack_is((OPENSSL_STACK *)certs, &g_certs);
  g_v.store = store_is(store, &g_store);
  bool sig = nd_bool(), content = nd_bool(), chain = nd_bool();
  bool other = (flags & ~(unsigned)(CMS_NO_SIGNER_CERT_VERIFY | CMS_NO_CONTENT_VERIFY | CMS_NO_ATTR_VERIFY | CMS_TEXT | CMS_BINARY)) != 0;
  bool need_chain = !(flags & CMS_NO_SIGNER_CERT_VERIFY);
  bool ok = (sig || (flags & CMS_NO_ATTR_VERIFY)) && (content || (flags & CMS_NO_CONTENT_VERIFY)) && (!need_chain || (chain && store != NULL));
  if (other) ok = nd_bool();
  g_v.verified = sig && content && (g_store.l == NULL || chain);
  bool wrote = ok || nd_bool(); /* content reaches the output before its digest is compared */
  if (out != NULL && wrote) {
    struct blob c = g_content;
    if (flags & CMS_TEXT) c = mk_blob(0);
    if (c.n > 0) bio_put(out, c.p, c.n);
  }
  g_v.said = ok;
  return ok ? 1 : 0;
}
#if !GL_REAL
/* contract of exatract_cms_certs, proved of the real one in unit cms_signers */
static void *v_ext; static struct prov v_ext_from;
int spec_extract(CMS_ContentInfo *cms, struct BinaryArrayList **out) {
  PRE(cms != NULL && cms->ref > 0 && out != NULL && *out == NULL, "exatract_cms_certs of a live message, into an empty list");
  if (lib_fails()) return -1;
  v_ext = malloc(1);
  if (v_ext == NULL) return -1;
  v_ext_from = cms->from;
  *out = (struct BinaryArrayList *)v_ext;
  return 0;
}
#else
static bool signers_are(const struct BinaryArrayList *l) {
  if (l == NULL) return false;
  const struct dl_list *p = l->list.next;
  for (int i = 0; i < NST; i++)
    if (i < g_v.nsig) {
      if (p == &l->list) return false;
      const struct BinaryArrayList *e = (const struct BinaryArrayList *)p->el;
      if (e->length != g_sig[i].n || e->arr == NULL || !BYTE_EQ(e->arr, g_sig[i].p, e->length)) return false;
      p = p->next;
    }
  return p == &l->list;
}
#endif
void harness(void) {
  g_k = nd_size();
  struct BinaryArray in;
  in.length = g_cms_len = mk_len();
  in.array = (uint8_t *)(g_cms = mk_bytes(g_cms_len));
  bool no_cms = nd_bool(), want = nd_bool();
  struct BinaryArrayList *certs = gl_make(&g_certs, true, false), *store = gl_make(&g_store, true, true);
  g_content = mk_blob(0);
  uint8_t mark[1];
  uint8_t *data = mark;
  struct BinaryArrayList *out = (struct BinaryArrayList *)mark;
  v_begin();
  ssize_t r = crypto_verify_cms(no_cms ? NULL : &in, certs, store, &data, want ? &out : NULL);
  v_end();
  ENSURES(r >= 0 || data == mark || data == NULL, "c05: nothing is handed out unless verified");
  ENSURES(r >= 0 || !want || out == (struct BinaryArrayList *)mark || out == NULL, "c05: no signer list is handed out unless verified");
  ENSURES(in.array == g_cms && in.length == g_cms_len, "c05: the message is not changed");
  if (r >= 0) {
    REACH("c05 verified");
    ENSURES(!no_cms && g_v.calls == 1, "c05: accepted only if the library was asked to verify");
    ENSURES(g_v.said && g_v.verified, "c05: accepted only if signature and content verified, and with a trust store the signer's chain");
    ENSURES(g_v.msg, "c05: the verified message is the given one");
    ENSURES(g_v.stack, "c05: exactly the given certificates are available as untrusted ones");
    ENSURES(g_v.store, "c05: exactly the given trust store is trusted");
    ENSURES(!g_depfail, "c05: any failure on the way is a rejection");
    ENSURES((size_t)r == g_content.n, "c05: the length returned is that of the authenticated content");
    ENSURES(r == 0 || (data != NULL && data != mark && data != g_content.p), "c05: the content returned is the caller's own");
    ENSURES(r == 0 || data == NULL || data == mark || BYTE_EQ(data, g_content.p, (size_t)r), "c05: the content returned is exactly the authenticated content");
    ENSURES(r != 0 || data == NULL, "c05: no content is no content");
    if (data != mark) free(data);
    if (want) {
#if GL_REAL
      ENSURES(signers_are(out), "c05: the signer list is exactly the message's signers");
      free_array_list(out);
#else
      ENSURES((void *)out == v_ext && from_der(v_ext_from, g_cms, g_cms_len), "c05: the signer list is extracted from the verified message");
      free(out);
#endif
    } else
      ENSURES(out == (struct BinaryArrayList *)mark, "c05: no signer list unless asked for");
  } else {
    REACH("c05 refused");
    ENSURES(no_cms || g_depfail || g_oom || g_cms_len == 0 || !types_ok(&g_store) || (g_v.calls > 0 && !g_v.verified), "c05: a message that verifies is accepted");
  }
  NO_LEAK("c05: verifying leaks nothing");
}

/* exatract_cms_certs, messages with any number of signers (C05) */
#if defined(VCBMC) && !defined(VSMALL)
#define OSSL_W
#else
#define OSSL_SIGNERS
#endif
#include "ossl.h"
int exatract_cms_certs(CMS_ContentInfo *cms, struct BinaryArrayList **out);
#ifdef OSSL_W
struct CMS_ContentInfo_st { int x; };
static struct CMS_ContentInfo_st v_cms;
/* buffers the library hands to the caller: the encoding of signer g_k, of another one */
uint8_t *g_lw, *g_lo; size_t g_lwn, g_lon; int g_lend;
bool v_lend_free(const void *p) {
  if (g_lend == 0 || (p != g_lw && p != g_lo)) return false;
  PRE(p == (g_lend == 1 ? g_lw : g_lo), "the buffer freed is the one handed out");
  g_lend = 0;
  return true;
}
int i2d_X509(const X509 *x, unsigned char **out) {
  PRE(x == &v_W || x == &v_O, "i2d_X509 of a certificate");
  PRE(out != NULL && *out == NULL && g_lend == 0, "i2d_X509 into a fresh buffer");
  if (lib_fails()) return -1 - (int)(nd_u8() & 1);
  if (x == &v_W) { *out = g_lw; g_lend = 1; return (int)g_lwn; }
  *out = g_lo; g_lend = 2; return (int)g_lon;
}
STACK_OF(X509) *CMS_get0_signers(CMS_ContentInfo *c) {
  PRE(c == &v_cms, "CMS_get0_signers of the message");
  if (lib_fails()) return NULL;
  g_ct_live = 1;
  g_ct_n = g_n;
  return (STACK_OF(X509) *)&v_stack;
}
/* contracts of the array list, proved of the real functions under C13 */
size_t g_ls_n; bool g_ls_ok; int g_ls_live;
struct BinaryArrayList *spec_init_array_list(void) {
  if (lib_fails()) return NULL;
  g_ls_live = 1;
  return &g_head;
}
int spec_push_array_list(struct BinaryArrayList *l, uint8_t *const arr, const size_t length, const int flags) {
  if (l == NULL || arr == NULL) { g_depfail = true; return -1; }
  PRE(l == &g_head && g_ls_live && RD_OK(arr, length), "push_array_list to a live list");
  if (lib_fails()) return -1;
  if (g_ls_n == g_k) g_ls_ok = g_lend == 1 && arr == g_lw && length == g_lwn && flags == CRYPTO_CERTIFICATE_VALID;
  g_ls_n++;
  return 0;
}
void spec_free_array_list(struct BinaryArrayList *l) {
  if (l == NULL) return;
  PRE(l == &g_head && g_ls_live, "free_array_list of a live list");
  g_ls_live = 0;
}
#endif
void harness(void) {
  g_k = nd_size();
  struct BinaryArrayList *out = NULL;
#ifdef OSSL_W
  w_list();
  g_ls_n = 0; g_ls_ok = false; g_ls_live = 0; g_lend = 0;
  REQUIRES(g_n >= 1 && g_n <= 0x7fffffff);
  g_lwn = mk_len(); g_lon = mk_len();
  REQUIRES(g_lwn >= 1 && g_lwn <= 0x7fffffff && g_lon >= 1 && g_lon <= 0x7fffffff);
  g_lw = mk_raw(g_lwn); g_lo = mk_raw(g_lon);
  CMS_ContentInfo *c = &v_cms;
#else
  uint8_t b[1];
  const unsigned char *p = b;
  CMS_ContentInfo *c = d2i_CMS_ContentInfo(NULL, &p, 1);
  REQUIRES(c != NULL && c->signers);
  for (int i = 0; i < NST; i++) if (i < c->nsig) REQUIRES(c->sig[i]->ref == 1);
#endif
  v_begin();
  int r = exatract_cms_certs(c, &out);
  v_end();
  if (r < 0) {
    REACH("cms_signers refused");
    ENSURES(out == NULL, "signers: a failure leaves no list");
    ENSURES(g_depfail || g_oom, "signers: a failure has a cause");
  } else {
    REACH("cms_signers listed");
    ENSURES(out != NULL && !g_depfail, "signers: any failure on the way is an error");
  }
#ifdef OSSL_W
  ENSURES(!g_ct_live, "signers: the library's list is released");
  ENSURES(g_lend == 0, "signers: the encoding buffers are released");
  ENSURES(g_w_ref == 0, "signers: certificates of the message stay with the message");
  ENSURES(r >= 0 || !g_ls_live, "signers: a failure releases the list");
  if (r >= 0) {
    ENSURES(out == &g_head && g_ls_live, "signers: the list returned is the one built");
    ENSURES(g_ls_n == g_n, "signers: as many entries as the message has signers");
    ENSURES(!(g_k < g_n) || g_ls_ok, "signers: every entry is the encoding of its signer's certificate");
  }
#else
  for (int i = 0; i < NST; i++) if (i < c->nsig) ENSURES(c->sig[i]->ref == 1, "signers: certificates of the message stay with the message");
  if (r >= 0 && out != NULL) {
    const struct dl_list *q = out->list.next;
    for (int i = 0; i < NST; i++)
      if (i < c->nsig) {
        ENSURES(q != &out->list, "signers: as many entries as the message has signers");
        if (q != &out->list) {
          const struct BinaryArrayList *e = (const struct BinaryArrayList *)q->el;
          ENSURES(e->length == g_sig[i].n && e->arr != NULL && BYTE_EQ(e->arr, g_sig[i].p, e->length) && e->flags == CRYPTO_CERTIFICATE_VALID, "signers: every entry is the encoding of its signer's certificate");
          q = q->next;
        }
      }
    ENSURES(q == &out->list, "signers: no more entries than the message has signers");
    free_array_list(out);
  }
  CMS_ContentInfo_free(c);
#endif
  NO_LEAK("signers: listing the signers leaks nothing");
}

/* C14: crypto_generate_eccert, crypto_generate_rsacert */
#define OSSL_CERT
#include "ossl.h"
#if KIND == 1
#define GEN crypto_generate_eccert
#define KTYPE EVP_PKEY_EC
#else
#define GEN crypto_generate_rsacert
#define KTYPE EVP_PKEY_RSA
#endif
#define NPAIR 2
struct kvl { struct keyvalue_list h, e[NPAIR]; char text[2 * NPAIR][2]; size_t n; bool full; };
static struct kvl g_iss, g_sub;
#if !GL_REAL
/* contract of add_x509name_keyvalues, proved of the real one in unit c14_name */
X509_NAME *spec_name(struct keyvalue_list *l) {
  PRE(l == &g_iss.h || l == &g_sub.h, "add_x509name_keyvalues of a list");
  X509_NAME *n = X509_NAME_new();
  if (n == NULL) return NULL;
  if (lib_fails()) { free(n); return NULL; }
  n->i.how = N_LIST; n->i.tag = l;
  return n;
}
#endif
static struct keyvalue_list *mk_kvl(struct kvl *g) {
  g->n = 0; g->full = true;
  if (nd_bool()) return NULL;
  dl_list_init(&g->h.list, &g->h);
#if GL_REAL
  size_t n = nd_size();
  REQUIRES(n <= NPAIR);
  g->n = n;
  for (size_t i = 0; i < NPAIR; i++)
    if (i < n) {
      g->e[i].key = nd_bool() ? NULL : g->text[2 * i];
      g->e[i].value = nd_bool() ? NULL : g->text[2 * i + 1];
      if (g->e[i].key == NULL || g->e[i].value == NULL) g->full = false;
      dl_list_add_tail(&g->h.list, &g->e[i].list, &g->e[i]);
    }
#endif
  return &g->h;
}
static bool name_is(const struct X509_name_st *n, const struct keyvalue_list *l, const struct kvl *g) {
  if (l == NULL) return n->i.how == N_UNSET;
#if GL_REAL
  bool ok = n->i.how == N_PAIRS && n->i.exact && n->i.n == (int)g->n;
  for (int i = 0; i < NPAIR; i++)
    if (ok && i < (int)g->n) ok = n->i.k[i] == g->e[i].key && n->i.v[i] == g->e[i].value;
  return ok;
#else
  return n->i.how == N_LIST && n->i.tag == l;
#endif
}
void harness(void) {
  g_k = nd_size();
  struct crypto_cert_meta m;
  m.serial_number = nd_u64(); m.not_before = (long)nd_u64(); m.not_after = (long)nd_u64();
  static char abs_time[2], bc[2];
  m.not_after_absolute = nd_bool() ? NULL : abs_time;
  m.basic_constraints = nd_bool() ? NULL : bc;
  m.issuer = mk_kvl(&g_iss); m.subject = mk_kvl(&g_sub);
  struct crypto_cert_meta m0 = m;
  size_t klen = mk_len();
  uint8_t *key = nd_bool() ? NULL : mk_bytes(klen);
  bool nm = nd_bool(), no = nd_bool();
  uint8_t mark[1], *out = mark;
  v_begin();
  ssize_t r = GEN(nm ? NULL : &m, key, klen, no ? NULL : &out);
  v_end();
  struct certinfo *c = &g_i2d_c;
  if (r >= 0) {
    REACH("c14 generated");
    ENSURES(!nm && key && !no, "c14: nothing is generated without metadata, key and output");
    ENSURES(!g_depfail && g_i2d.calls == 1 && g_i2d.from.how == H_NEW, "c14: any failure on the way gives no certificate");
    ENSURES((size_t)r == g_i2d.enc.n && out == g_i2d.buf, "c14: what is returned is the encoding of the new certificate");
    ENSURES(c->mods == (M_VERSION | M_SERIAL | M_NB | M_NA | M_PUBKEY | (m0.issuer ? M_ISSUER : 0) | (m0.subject ? M_SUBJECT : 0) | (m0.basic_constraints ? M_EXT : 0)), "c14: exactly the fields asked for are set");
    ENSURES(c->version == 2, "c14: a version 3 certificate");
    ENSURES(c->sn_set && c->sn == m0.serial_number, "c14: the serial number is the given one");
    ENSURES(c->nb.kind == T_ADJ && c->nb.adj == m0.not_before, "c14: validity starts as given");
    ENSURES(m0.not_after_absolute ? m0.not_after == 0 && c->na.kind == T_STRING && c->na.str == m0.not_after_absolute : c->na.kind == T_ADJ && c->na.adj == m0.not_after, "c14: validity ends as given");
    ENSURES(name_is(&c->issuer, m0.issuer, &g_iss), "c14: the issuer is exactly the given one");
    ENSURES(name_is(&c->subject, m0.subject, &g_sub), "c14: the subject is exactly the given one");
    ENSURES(m0.basic_constraints ? c->next == 1 && c->ext.nid == NID_basic_constraints && c->ext.value == m0.basic_constraints : c->next == 0, "c14: the constraints are exactly the given ones");
    ENSURES(from_der(c->pub, key, klen) && c->pubtype == KTYPE, "c14: the public key is that of the given key");
    ENSURES(c->signed_ && c->sha256 && from_der(c->skey, key, klen), "c14: signed by the given key over the final content");
    ENSURES(c->verified, "c14: a certificate whose signature does not verify is never returned");
    if (out != NULL && out != mark) {
      ENSURES(BYTE_EQ(out, g_i2d.enc.p, (size_t)r), "c14: the encoding is returned unchanged");
      free(out);
    }
  } else {
    REACH("c14 not generated");
    ENSURES(out == mark || out == NULL, "c14: a failure gives no certificate");
    ENSURES(nm || !key || no || g_depfail || g_oom || klen == 0 || (m0.not_after_absolute && m0.not_after) || !g_iss.full || !g_sub.full, "c14: complete inputs give a certificate");
  }
  NO_LEAK("c14: generating leaks nothing");
}

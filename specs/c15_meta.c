/* C15: get_x509_keyvalue and get_x509_entry (WHICH 0), crypto_getcert_meta (WHICH 1);
 * g_k is the witness: an arbitrary one of the recognised kinds of entry */
#include "ossl.h"
#define NKIND 10
static const struct { int nid; const char *name; } KINDS[NKIND] = {
  {NID_countryName, "C"}, {NID_stateOrProvinceName, "ST"}, {NID_localityName, "L"}, {NID_organizationName, "O"}, {NID_organizationalUnitName, "OU"},
  {NID_commonName, "CN"}, {NID_pkcs9_emailAddress, "emailAddress"}, {NID_serialNumber, "serialNumber"}, {NID_surname, "SN"}, {NID_givenName, "GN"}};
struct X509_name_st { int which; };
struct X509_name_entry_st { ASN1_STRING s; int which, kind, pos; };
static struct X509_name_st v_issuer = {0}, v_subject = {1};
static struct X509_name_entry_st v_e;
static bool g_has[2]; /* the name has an entry of the witness kind */
static ASN1_INTEGER v_sn; static bool g_sn_has, g_sn_fits; static uint64_t g_sn;
static X509 *g_cert;
static struct keyvalue_list v_li, v_ls;
static int g_pushed[2]; static bool g_push_ok = true;

ASN1_INTEGER *X509_get_serialNumber(X509 *x) { PRE(x == g_cert, "X509_get_serialNumber of the certificate"); return g_sn_has ? &v_sn : NULL; }
int ASN1_INTEGER_get_uint64(uint64_t *p, const ASN1_INTEGER *a) {
  PRE(a == &v_sn, "ASN1_INTEGER_get_uint64 of the serial number");
  if (!g_sn_fits) return 0;
  *p = g_sn;
  return 1;
}
X509_NAME *X509_get_issuer_name(const X509 *x) { PRE(x == g_cert, "X509_get_issuer_name of the certificate"); return lib_fails() ? NULL : &v_issuer; }
X509_NAME *X509_get_subject_name(const X509 *x) { PRE(x == g_cert, "X509_get_subject_name of the certificate"); return lib_fails() ? NULL : &v_subject; }
static int kind_of(int nid) {
  for (int i = 0; i < NKIND; i++) if (KINDS[i].nid == nid) return i;
  return NKIND;
}
int X509_NAME_get_index_by_NID(const X509_NAME *n, int nid, int last) {
  PRE(n == &v_issuer || n == &v_subject, "X509_NAME_get_index_by_NID of a name");
  int i = kind_of(nid);
  bool has = i == (int)g_k ? g_has[n->which] : nd_bool();
  if (!has) return -1;
  if (last < 0) return 2 * i;          /* the first entry of this kind */
  return last < 2 * i + 1 && nd_bool() ? 2 * i + 1 : -1; /* a further one */
}
X509_NAME_ENTRY *X509_NAME_get_entry(const X509_NAME *n, int pos) {
  PRE(n == &v_issuer || n == &v_subject, "X509_NAME_get_entry of a name");
  if (pos < 0 || pos > 2 * NKIND + 1) return NULL;
  X509_NAME_ENTRY *e = &v_e;
  e->which = n->which; e->kind = pos / 2; e->pos = pos % 2;
  return e;
}
ASN1_STRING *X509_NAME_ENTRY_get_data(const X509_NAME_ENTRY *e) { return e == NULL ? NULL : (ASN1_STRING *)&e->s; }
#ifdef VCBMC
static unsigned char v_text[4]; static bool g_lent;
bool v_lend_free(const void *p) {
  if (p != v_text) return false;
  PRE(g_lent, "a text is freed once");
  g_lent = false;
  return true;
}
#endif
int ASN1_STRING_to_UTF8(unsigned char **out, const ASN1_STRING *s) {
  PRE(out != NULL && s != NULL, "ASN1_STRING_to_UTF8 of a string");
  const X509_NAME_ENTRY *e = (const X509_NAME_ENTRY *)s;
  if (lib_fails()) return -1;
#ifdef VCBMC
  PRE(!g_lent, "the previous text was released");
  unsigned char *t = v_text;
  g_lent = true;
#else
  unsigned char *t = malloc(4);
#endif
  /* the text says which entry it is of */
  t[0] = (unsigned char)(1 + e->which); t[1] = (unsigned char)(1 + e->kind); t[2] = (unsigned char)(1 + e->pos); t[3] = 0;
  *out = t;
  return 3;
}
void CRYPTO_free(void *p, const char *file, int line) { (void)file; (void)line; free(p); }
static bool eq(const char *a, const char *b) {
  for (int i = 0; i < 13; i++) {
    if (a[i] != b[i]) return false;
    if (a[i] == 0) return true;
  }
  return false;
}
/* contract of push_keyvalue_list (C13) */
int push_keyvalue_list(struct keyvalue_list *l, const char *k, const char *v) {
  PRE(l == &v_li || l == &v_ls, "push to the issuer or subject list");
  if (lib_fails()) return -1;
  if (k == NULL || v == NULL) { g_push_ok = false; return 0; }
  int w = l == &v_li ? 0 : 1;
  bool wit = eq(k, KINDS[g_k].name);
  if (v[0] != w + 1 || v[2] != 1 || wit != (v[1] == (char)(1 + g_k))) g_push_ok = false;
  if (v[1] >= 1 + NKIND) g_push_ok = false;
  if (wit && g_pushed[w] < 2) g_pushed[w]++;
  return 0;
}
#if WHICH == 1
/* contract of get_x509_keyvalue, proved of the real one in unit c15_keyvalue */
int spec_keyvalue(X509_NAME *n, struct keyvalue_list *l) {
  PRE((n == &v_issuer || n == &v_subject) && (l == &v_li || l == &v_ls), "get_x509_keyvalue of a name into a list");
  if (lib_fails()) return -1;
  int w = l == &v_li ? 0 : 1;
  if (n->which != w) g_push_ok = false;
  if (g_has[n->which] && g_pushed[w] < 2) g_pushed[w]++;
  return 0;
}
#endif
void harness(void) {
  g_k = nd_size();
  REQUIRES(g_k < NKIND);
  g_has[0] = nd_bool(); g_has[1] = nd_bool();
#if WHICH == 0
  bool sub = nd_bool();
  v_begin();
  int r = get_x509_keyvalue(sub ? &v_subject : &v_issuer, sub ? &v_ls : &v_li);
  v_end();
  if (r >= 0) {
    REACH("c15 entries");
    ENSURES(!g_depfail, "c15: any failure on the way is an error");
    ENSURES(g_push_ok, "c15: every entry reported is the first of its kind in this name, under its own short name");
    ENSURES(g_pushed[sub] == (g_has[sub] ? 1 : 0), "c15: every recognised entry is reported once, and no other");
  } else {
    REACH("c15 entries refused");
    ENSURES(g_depfail || g_oom, "c15: a name that can be read is reported");
  }
#else
  bool nc = nd_bool(), nm = nd_bool();
  static struct x509_st cert;
  cert.ref = 1;
  g_cert = &cert;
  g_sn_has = nd_bool(); g_sn_fits = nd_bool(); g_sn = nd_u64();
  struct crypto_cert_meta m;
  m.serial_number = nd_u64(); m.not_before = m.not_after = 0; m.not_after_absolute = NULL; m.basic_constraints = NULL;
  m.issuer = &v_li; m.subject = &v_ls;
  v_begin();
  int r = crypto_getcert_meta(nc ? NULL : (CRYPTO_CERT)&cert, nm ? NULL : &m);
  v_end();
  if (r >= 0) {
    REACH("c15 meta");
    ENSURES(r == 0 && !nc && !nm, "c15: nothing is reported without certificate and place for it");
    ENSURES(!g_depfail, "c15: any failure on the way is an error");
    ENSURES(m.serial_number == (g_sn_has && g_sn_fits ? g_sn : 0), "c15: the serial number is the certificate's");
    ENSURES(g_push_ok, "c15: every entry reported is the first of its kind, under its own short name, issuer entries as issuer and subject entries as subject");
    for (int w = 0; w < 2; w++) ENSURES(g_pushed[w] == (g_has[w] ? 1 : 0), "c15: every recognised entry is reported once, and no other");
  } else {
    REACH("c15 meta refused");
    ENSURES(nc || nm || g_depfail || g_oom, "c15: a certificate that can be read is reported");
  }
  ENSURES(m.issuer == &v_li && m.subject == &v_ls, "c15: the lists stay in place");
#endif
#ifdef VCBMC
  ENSURES(!g_lent, "c15: every text is released");
#endif
  NO_LEAK("c15: reading a certificate leaks nothing");
}

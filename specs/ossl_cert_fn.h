/* Contracts of the OpenSSL functions that set and read certificate content. */
static void t_init(struct v_time *t, bool own) { t->kind = T_UNSET; t->adj = 0; t->str = NULL; t->own = own; }
static void n_init(struct X509_name_st *n, int how, struct prov p) {
  n->ref = 1; n->own = false; n->i.how = how; n->i.tag = NULL; n->i.cert = p; n->i.n = 0; n->i.exact = true;
}
static void cert_init(X509 *x) {
  x->c.mods = 0; x->c.version = 0; x->c.sn_set = false; x->c.sn = 0;
  t_init(&x->c.nb, false); t_init(&x->c.na, false);
  n_init(&x->c.issuer, N_ISSUER_OF, x->from); n_init(&x->c.subject, N_SUBJECT_OF, x->from);
  if (x->from.how == H_NEW) x->c.issuer.i.how = x->c.subject.i.how = N_UNSET;
  x->c.pub.how = H_NONE; x->c.pubtype = 0; x->c.next = 0; x->c.ext.nid = 0; x->c.ext.value = NULL;
  x->c.signed_ = x->c.verified = x->c.sha256 = false; x->c.skey.how = H_NONE; x->c.skeytype = 0;
}
static void c_mod(X509 *x, unsigned m) { x->c.mods |= m; x->c.signed_ = x->c.verified = false; x->enc_made = false; }
int X509_set_version(X509 *x, long v) {
  PRE(x_alive(x), "X509_set_version of a live certificate");
  if (lib_fails()) return 0;
  c_mod(x, M_VERSION); x->c.version = v;
  return 1;
}
ASN1_INTEGER *ASN1_INTEGER_new(void) {
  if (lib_fails()) return NULL;
  struct v_int *i = malloc(sizeof *i);
  if (i == NULL) return NULL;
  i->set = false;
  return &i->s;
}
void ASN1_INTEGER_free(ASN1_INTEGER *i) { if (i != NULL) free(i); }
int ASN1_INTEGER_set_uint64(ASN1_INTEGER *a, uint64_t v) {
  PRE(a != NULL, "ASN1_INTEGER_set_uint64 of an integer");
  if (lib_fails()) return 0;
  struct v_int *i = (struct v_int *)a;
  i->set = true; i->v = v;
  return 1;
}
int X509_set_serialNumber(X509 *x, ASN1_INTEGER *a) {
  PRE(x_alive(x) && a != NULL, "X509_set_serialNumber of live objects");
  if (lib_fails()) return 0;
  c_mod(x, M_SERIAL);
  x->c.sn_set = ((struct v_int *)a)->set; x->c.sn = ((struct v_int *)a)->v;
  return 1;
}
ASN1_TIME *X509_getm_notBefore(const X509 *x) { PRE(x_alive(x), "X509_getm_notBefore of a live certificate"); c_mod((X509 *)x, M_NB); return (ASN1_TIME *)&x->c.nb.s; }
ASN1_TIME *X509_getm_notAfter(const X509 *x) { PRE(x_alive(x), "X509_getm_notAfter of a live certificate"); c_mod((X509 *)x, M_NA); return (ASN1_TIME *)&x->c.na.s; }
ASN1_TIME *X509_gmtime_adj(ASN1_TIME *t, long adj) {
  PRE(t != NULL, "X509_gmtime_adj of a time");
  if (lib_fails()) return NULL;
  struct v_time *v = (struct v_time *)t;
  v->kind = T_ADJ; v->adj = adj; v->str = NULL;
  return t;
}
ASN1_TIME *ASN1_TIME_set(ASN1_TIME *t, time_t when) {
  (void)when;
  if (lib_fails()) return NULL;
  struct v_time *v = (struct v_time *)t;
  if (v == NULL) {
    v = malloc(sizeof *v);
    if (v == NULL) return NULL;
    t_init(v, true);
  }
  v->kind = T_OTHER;
  return &v->s;
}
ASN1_TIME *ASN1_TIME_new(void) { return ASN1_TIME_set(NULL, 0); }
int ASN1_TIME_set_string(ASN1_TIME *t, const char *s) {
  if (lib_fails()) return 0;
  if (t != NULL) { struct v_time *v = (struct v_time *)t; v->kind = T_STRING; v->str = s; }
  return 1;
}
int ASN1_TIME_normalize(ASN1_TIME *t) {
  if (t == NULL || lib_fails()) return 0;
  return 1;
}
static void t_copy(struct v_time *d, const struct v_time *s) { d->kind = s->kind; d->adj = s->adj; d->str = s->str; }
int X509_set1_notAfter(X509 *x, const ASN1_TIME *t) {
  PRE(x_alive(x), "X509_set1_notAfter of a live certificate");
  if (t == NULL || lib_fails()) return 0;
  c_mod(x, M_NA); t_copy(&x->c.na, (const struct v_time *)t);
  return 1;
}
int X509_set1_notBefore(X509 *x, const ASN1_TIME *t) {
  PRE(x_alive(x), "X509_set1_notBefore of a live certificate");
  if (t == NULL || lib_fails()) return 0;
  c_mod(x, M_NB); t_copy(&x->c.nb, (const struct v_time *)t);
  return 1;
}
void ASN1_STRING_free(ASN1_STRING *s) {
  if (s == NULL) return;
  PRE(((struct v_time *)s)->own, "ASN1_STRING_free of an owned time");
  free(s);
}
void ASN1_TIME_free(ASN1_TIME *s) { ASN1_STRING_free(s); }
X509_NAME *X509_NAME_new(void) {
  if (lib_fails()) return NULL;
  X509_NAME *n = malloc(sizeof *n);
  if (n == NULL) return NULL;
  struct prov p; p.how = H_NONE; p.src = NULL; p.len = 0;
  n_init(n, N_PAIRS, p);
  n->own = true;
  return n;
}
void X509_NAME_free(X509_NAME *n) {
  if (n == NULL) return;
  PRE(n->own && n->ref > 0, "X509_NAME_free of an owned name");
  free(n);
}
#if GL_REAL
int X509_NAME_add_entry_by_txt(X509_NAME *n, const char *field, int type, const unsigned char *bytes, int len, int loc, int set) {
  PRE(n != NULL && n->ref > 0 && field != NULL && bytes != NULL, "X509_NAME_add_entry_by_txt to a live name");
  if (lib_fails()) return 0;
  REQUIRES(n->i.n < NST);
  n->i.k[n->i.n] = field; n->i.v[n->i.n] = (const char *)bytes;
  n->i.n++;
  n->i.exact = n->i.exact && (type == MBSTRING_ASC || type == MBSTRING_UTF8) && len == -1 && loc == -1 && set == 0;
  return 1;
}
#endif
X509_NAME *X509_get_subject_name(const X509 *x) { PRE(x_alive(x), "X509_get_subject_name of a live certificate"); return (X509_NAME *)&x->c.subject; }
X509_NAME *X509_get_issuer_name(const X509 *x) { PRE(x_alive(x), "X509_get_issuer_name of a live certificate"); return (X509_NAME *)&x->c.issuer; }
int X509_set_issuer_name(X509 *x, const X509_NAME *n) {
  PRE(x_alive(x) && n != NULL && n->ref > 0, "X509_set_issuer_name of live objects");
  if (lib_fails()) return 0;
  c_mod(x, M_ISSUER); x->c.issuer.i = n->i;
  return 1;
}
int X509_set_subject_name(X509 *x, const X509_NAME *n) {
  PRE(x_alive(x) && n != NULL && n->ref > 0, "X509_set_subject_name of live objects");
  if (lib_fails()) return 0;
  c_mod(x, M_SUBJECT); x->c.subject.i = n->i;
  return 1;
}
int X509_set_pubkey(X509 *x, EVP_PKEY *k) {
  PRE(x_alive(x) && k != NULL && k->ref > 0, "X509_set_pubkey of live objects");
  if (lib_fails()) return 0;
  c_mod(x, M_PUBKEY); x->c.pub = k->from; x->c.pubtype = k->type;
  return 1;
}
X509_EXTENSION *X509V3_EXT_conf_nid(LHASH_OF(CONF_VALUE) *c, X509V3_CTX *ctx, int nid, const char *value) {
  (void)c; (void)ctx;
  PRE(value != NULL, "X509V3_EXT_conf_nid of a value");
  if (lib_fails()) return NULL;
  X509_EXTENSION *e = malloc(sizeof *e);
  if (e == NULL) return NULL;
  e->nid = nid; e->value = value;
  return e;
}
void X509_EXTENSION_free(X509_EXTENSION *e) { if (e != NULL) free(e); }
int X509_add_ext(X509 *x, X509_EXTENSION *e, int loc) {
  (void)loc;
  PRE(x_alive(x) && e != NULL, "X509_add_ext of live objects");
  if (lib_fails()) return 0;
  c_mod(x, M_EXT); x->c.next++; x->c.ext = *e;
  return 1;
}
static int v_md;
const EVP_MD *EVP_sha256(void) { return (const EVP_MD *)&v_md; }
int X509_sign(X509 *x, EVP_PKEY *k, const EVP_MD *md) {
  PRE(x_alive(x) && k != NULL && k->ref > 0, "X509_sign of live objects");
  if (lib_fails()) return 0;
  c_mod(x, 0);
  x->c.signed_ = true; x->c.sha256 = md == (const EVP_MD *)&v_md; x->c.skey = k->from; x->c.skeytype = k->type;
  return 1 + (nd_u8() & 0x7f);
}
int X509_verify(X509 *x, EVP_PKEY *k) {
  PRE(x_alive(x) && k != NULL && k->ref > 0, "X509_verify of live objects");
  bool same = x->c.signed_ && x->c.skey.how == k->from.how && x->c.skey.src == k->from.src && x->c.skey.len == k->from.len;
  if (!same || nd_bool()) { g_depfail = true; return nd_bool() ? 0 : -1; }
  x->c.verified = true;
  return 1;
}

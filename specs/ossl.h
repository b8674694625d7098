/* Contracts of the OpenSSL functions the library uses (OpenSSL 3 manual pages).
 *
 * Objects carry ghost fields instead of cryptographic content: where they were
 * decoded from, what was put into them, how often they are referenced.  Every
 * call may fail (g_depfail).  Reference counts and frees are obligations: a use or
 * free of a dead object and a forgotten one are failed clauses. */
#ifndef OSSL_H
#define OSSL_H
#include "../lib/verif.h"
#include <openssl/asn1.h>
#include <openssl/bio.h>
#include <openssl/buffer.h>
#include <openssl/cms.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <stdio.h>
#include "/repo/src/voucher/array.h"
#include "/repo/src/voucher/crypto.h"
#include "/repo/src/voucher/keyvalue.h"

#ifdef VREPLAY
#define STUB(f) __wrap_##f
#else
#define STUB(f) f
#endif
#define NST 2 /* entries of a stack, store or pointer list in bounded builds */

enum how { H_NONE, H_DER, H_FILE, H_NEW, H_CMS, H_CHAIN };
struct prov { int how; const void *src; size_t len; };
static inline bool from_der(struct prov p, const void *src, size_t len) { return p.how == H_DER && p.src == src && p.len == len; }
static inline bool lib_fails(void) {
  if (nd_bool()) { g_depfail = true; return true; }
  return false;
}
/* a text or encoding owned by nobody in particular: len bytes of any content */
struct blob { uint8_t *p; size_t n; };
static inline struct blob mk_blob(size_t min) {
  struct blob b;
  b.n = mk_len();
  REQUIRES(b.n >= min);
#if defined(VCBMC) && !defined(VSMALL)
  REQUIRES(b.n < ((size_t)1 << 31)); /* library lengths are int */
#endif
  b.p = mk_bytes(b.n);
  return b;
}

/* ---- errors ---- */
unsigned long ERR_get_error(void) { return (unsigned long)nd_u64(); }
char *ERR_error_string(unsigned long e, char *buf) { (void)e; static char s[4]; return buf ? buf : s; }
const char *ERR_reason_error_string(unsigned long e) { (void)e; return nd_bool() ? NULL : ""; }

/* ---- certificates ---- */
#ifdef OSSL_CERT
#include "ossl_cert.h"
#endif
struct x509_st {
  int ref;
  struct prov from;
  struct blob enc; bool enc_made; /* its DER encoding in its present state */
#ifdef OSSL_CERT
  struct certinfo c; /* content, see ossl_cert.h */
#endif
};
struct X509_crl_st { int ref; struct prov from; };
#ifdef OSSL_CERT
static void cert_init(X509 *x);
#endif
struct evp_pkey_st { int ref; struct prov from; int type; int bits; struct blob enc; };

static inline bool x_alive(const X509 *x) { return x != NULL && x->ref > 0; }
static X509 *x_new(int how, const void *src, size_t len) {
  X509 *x = malloc(sizeof *x);
  if (x == NULL) return NULL;
  x->ref = 1; x->from.how = how; x->from.src = src; x->from.len = len;
  x->enc_made = false;
#ifdef OSSL_CERT
  cert_init(x);
#endif
  return x;
}
#ifdef OSSL_W
#include "ossl_w.h"
#else
X509 *d2i_X509(X509 **a, const unsigned char **pp, long len) {
  PRE(a == NULL || *a == NULL, "d2i_X509 makes a new object");
  PRE(len <= 0 || RD_OK(*pp, (size_t)len), "d2i_X509 reads inside its input");
  if (len <= 0) { g_depfail = true; return NULL; }
  if (lib_fails()) return NULL;
  X509 *x = x_new(H_DER, *pp, (size_t)len);
  if (x == NULL) return NULL;
  *pp += len;
  if (a) *a = x;
  return x;
}
X509 *X509_new(void) {
  if (lib_fails()) return NULL;
  return x_new(H_NEW, NULL, 0);
}
int X509_up_ref(X509 *x) {
  PRE(x_alive(x), "X509_up_ref of a live certificate");
  x->ref++;
  return 1;
}
void X509_free(X509 *x) {
  if (x == NULL) return;
  PRE(x->ref > 0, "X509_free of a live certificate");
  if (--x->ref == 0) free(x);
}
#endif
#ifndef OSSL_W
/* the certificate whose encoding was last produced, as it was then */
static struct { int calls; struct prov from; struct blob enc; const uint8_t *buf; } g_i2d;
int i2d_X509(const X509 *x, unsigned char **out) {
  PRE(x_alive(x), "i2d_X509 of a live certificate");
  if (lib_fails()) return -1 - (int)(nd_u8() & 1);
  X509 *m = (X509 *)x;
  if (!m->enc_made) { m->enc = mk_blob(1); m->enc_made = true; }
  if (out == NULL) return (int)m->enc.n;
  if (*out == NULL) {
    uint8_t *p = malloc(m->enc.n);
    if (p == NULL) return -1;
    memcpy(p, m->enc.p, m->enc.n);
    *out = p;
    g_i2d.buf = p;
  } else {
    PRE(WR_OK(*out, m->enc.n), "i2d_X509 writes inside its output");
    memcpy(*out, m->enc.p, m->enc.n);
    g_i2d.buf = *out;
    *out += m->enc.n;
  }
  g_i2d.calls++; g_i2d.from = x->from; g_i2d.enc = x->enc;
#ifdef OSSL_CERT
  g_i2d_c = x->c;
#endif
  return (int)m->enc.n;
}
X509_CRL *d2i_X509_CRL(X509_CRL **a, const unsigned char **pp, long len) {
  PRE(a == NULL || *a == NULL, "d2i_X509_CRL makes a new object");
  PRE(len <= 0 || RD_OK(*pp, (size_t)len), "d2i_X509_CRL reads inside its input");
  if (len <= 0) { g_depfail = true; return NULL; }
  if (lib_fails()) return NULL;
  X509_CRL *c = malloc(sizeof *c);
  if (c == NULL) return NULL;
  c->ref = 1; c->from.how = H_DER; c->from.src = *pp; c->from.len = (size_t)len;
  *pp += len;
  if (a) *a = c;
  return c;
}
void X509_CRL_free(X509_CRL *c) {
  if (c == NULL) return;
  PRE(c->ref > 0, "X509_CRL_free of a live list");
  if (--c->ref == 0) free(c);
}

#endif

/* ---- keys ---- */
static EVP_PKEY *pk_new(int type, int how, const void *src, size_t len) {
  EVP_PKEY *k = malloc(sizeof *k);
  if (k == NULL) return NULL;
  k->ref = 1; k->type = type; k->from.how = how; k->from.src = src; k->from.len = len; k->bits = 0;
  k->enc = mk_blob(1);
  return k;
}
static EVP_PKEY *pk_d2i(int type, EVP_PKEY **a, const unsigned char **pp, long len) {
  PRE(a == NULL || *a == NULL, "d2i_PrivateKey makes a new object");
  PRE(len <= 0 || RD_OK(*pp, (size_t)len), "d2i_PrivateKey reads inside its input");
  if (len <= 0) { g_depfail = true; return NULL; }
  if (lib_fails()) return NULL;
  EVP_PKEY *k = pk_new(type, H_DER, *pp, (size_t)len);
  if (k == NULL) return NULL;
  *pp += len;
  if (a) *a = k;
  return k;
}
EVP_PKEY *d2i_PrivateKey(int type, EVP_PKEY **a, const unsigned char **pp, long len) { return pk_d2i(type, a, pp, len); }
EVP_PKEY *d2i_AutoPrivateKey(EVP_PKEY **a, const unsigned char **pp, long len) { return pk_d2i(0, a, pp, len); }
void EVP_PKEY_free(EVP_PKEY *k) {
  if (k == NULL) return;
  PRE(k->ref > 0, "EVP_PKEY_free of a live key");
  if (--k->ref == 0) free(k);
}
static struct { int calls; struct prov from; int type, bits; struct blob enc; const uint8_t *buf; } g_i2dk;
int i2d_PrivateKey(const EVP_PKEY *k, unsigned char **out) {
  PRE(k != NULL && k->ref > 0, "i2d_PrivateKey of a live key");
  if (k == NULL) return -1;
  if (lib_fails()) return -1 - (int)(nd_u8() & 1);
  if (out == NULL) return (int)k->enc.n;
  if (*out == NULL) {
    uint8_t *p = malloc(k->enc.n);
    if (p == NULL) return -1;
    memcpy(p, k->enc.p, k->enc.n);
    *out = p;
    g_i2dk.buf = p;
  } else {
    PRE(WR_OK(*out, k->enc.n), "i2d_PrivateKey writes inside its output");
    memcpy(*out, k->enc.p, k->enc.n);
    g_i2dk.buf = *out;
    *out += k->enc.n;
  }
  g_i2dk.calls++; g_i2dk.from = k->from; g_i2dk.type = k->type; g_i2dk.bits = k->bits; g_i2dk.enc = k->enc;
  return (int)k->enc.n;
}

/* ---- memory BIOs ---- */
struct bio_st { int ref; BUF_MEM mem; int writes; bool mixed; };
const BIO_METHOD *BIO_s_mem(void) { return (const BIO_METHOD *)(uintptr_t)16; }
BIO *BIO_new_ex(OSSL_LIB_CTX *c, const BIO_METHOD *m) {
  PRE(c == NULL && m == (const BIO_METHOD *)(uintptr_t)16, "a memory BIO");
  if (lib_fails()) return NULL;
  BIO *b = malloc(sizeof *b);
  if (b == NULL) return NULL;
  b->ref = 1; b->mem.data = NULL; b->mem.length = 0; b->mem.max = 0; b->mem.flags = 0; b->writes = 0; b->mixed = false;
  return b;
}
BIO *BIO_new(const BIO_METHOD *m) { return BIO_new_ex(NULL, m); }
int BIO_free(BIO *b) {
  if (b == NULL) return 0;
  PRE(b->ref > 0, "BIO_free of a live BIO");
  if (--b->ref == 0) free(b);
  return 1;
}
static void bio_put(BIO *b, const void *p, size_t n) {
  if (b->writes++ && b->mem.length) b->mixed = true;
  b->mem.data = (char *)p; b->mem.length = n;
}
int BIO_write(BIO *b, const void *data, int len) {
  PRE(b != NULL && b->ref > 0, "BIO_write to a live BIO");
  if (len <= 0) return 0;
  PRE(RD_OK(data, (size_t)len), "BIO_write reads inside its input");
  if (lib_fails()) return -1;
  bio_put(b, data, (size_t)len);
  return len;
}
long BIO_ctrl(BIO *b, int cmd, long l, void *p) {
  PRE(b != NULL && b->ref > 0 && cmd == BIO_C_GET_BUF_MEM_PTR && l == 0, "BIO_get_mem_ptr of a live BIO");
  *(BUF_MEM **)p = &b->mem;
  return 1;
}

/* ---- stacks ---- */
struct stack_st { int num; const void *tag; void *at[NST]; };
struct x509_store_st { int ref; const void *tag; int n; X509 *cert[NST]; X509_CRL *crl[NST]; };
#ifndef OSSL_W
OPENSSL_STACK *OPENSSL_sk_new_null(void) {
  if (lib_fails()) return NULL;
  OPENSSL_STACK *s = malloc(sizeof *s);
  if (s == NULL) return NULL;
  s->num = 0; s->tag = NULL;
  for (int i = 0; i < NST; i++) s->at[i] = NULL;
  return s;
}
int OPENSSL_sk_push(OPENSSL_STACK *s, const void *d) {
  if (s == NULL) return 0;
  if (lib_fails()) return 0;
  REQUIRES(s->num < NST);
  s->at[s->num] = (void *)d;
  return ++s->num;
}
int OPENSSL_sk_num(const OPENSSL_STACK *s) { return s == NULL ? -1 : s->num; }
void *OPENSSL_sk_value(const OPENSSL_STACK *s, int i) {
  if (s == NULL || i < 0 || i >= s->num) return NULL;
  return s->at[i];
}
void OPENSSL_sk_free(OPENSSL_STACK *s) {
  if (s != NULL) free(s);
}
void OPENSSL_sk_pop_free(OPENSSL_STACK *s, OPENSSL_sk_freefunc f) {
  if (s == NULL) return;
  PRE((void *)f == (void *)X509_free, "certificate stacks are released with X509_free");
  for (int i = 0; i < NST; i++) if (i < s->num) X509_free((X509 *)s->at[i]);
  free(s);
}

/* ---- trust stores ---- */
X509_STORE *X509_STORE_new(void) {
  if (lib_fails()) return NULL;
  X509_STORE *s = malloc(sizeof *s);
  if (s == NULL) return NULL;
  s->ref = 1; s->tag = NULL; s->n = 0;
  for (int i = 0; i < NST; i++) { s->cert[i] = NULL; s->crl[i] = NULL; }
  return s;
}
int X509_STORE_add_cert(X509_STORE *s, X509 *x) {
  PRE(s != NULL && s->ref > 0 && x_alive(x), "X509_STORE_add_cert of live objects");
  if (lib_fails()) return 0;
  REQUIRES(s->n < NST);
  x->ref++;
  s->cert[s->n++] = x;
  return 1;
}
int X509_STORE_add_crl(X509_STORE *s, X509_CRL *x) {
  PRE(s != NULL && s->ref > 0 && x != NULL && x->ref > 0, "X509_STORE_add_crl of live objects");
  if (lib_fails()) return 0;
  REQUIRES(s->n < NST);
  x->ref++;
  s->crl[s->n++] = x;
  return 1;
}
void X509_STORE_free(X509_STORE *s) {
  if (s == NULL) return;
  PRE(s->ref > 0, "X509_STORE_free of a live store");
  if (--s->ref > 0) return;
  for (int i = 0; i < NST; i++) if (i < s->n) { X509_free(s->cert[i]); X509_CRL_free(s->crl[i]); }
  free(s);
}

#endif


/* ---- CMS messages ---- */
#ifndef OSSL_W
struct CMS_ContentInfo_st { int ref; struct prov from; struct blob enc; int nsig; X509 *sig[NST]; bool signers; };
static struct blob g_sig[NST]; /* the encodings of the signers' certificates */
/* a message as the library decodes it: its signers' certificates belong to it */
CMS_ContentInfo *d2i_CMS_ContentInfo(CMS_ContentInfo **a, const unsigned char **pp, long len) {
  PRE(a == NULL || *a == NULL, "d2i_CMS_ContentInfo makes a new object");
  PRE(len <= 0 || RD_OK(*pp, (size_t)len), "d2i_CMS_ContentInfo reads inside its input");
  if (len <= 0) { g_depfail = true; return NULL; }
  if (lib_fails()) return NULL;
  CMS_ContentInfo *c = malloc(sizeof *c);
  if (c == NULL) return NULL;
  c->ref = 1; c->from.how = H_DER; c->from.src = *pp; c->from.len = (size_t)len; c->nsig = 0; c->signers = true;
  for (int i = 0; i < NST; i++) c->sig[i] = NULL;
#ifdef OSSL_SIGNERS
  size_t n = nd_size();
  REQUIRES(n >= 1 && n <= NST);
  for (size_t i = 0; i < NST; i++)
    if (i < n && c->signers) {
      c->sig[i] = x_new(H_CMS, c, i);
      if (c->sig[i] != NULL) { c->nsig++; c->sig[i]->enc = g_sig[i] = mk_blob(1); c->sig[i]->enc_made = true; } else c->signers = false;
    }
#endif
  *pp += len;
  if (a) *a = c;
  return c;
}
void CMS_ContentInfo_free(CMS_ContentInfo *c) {
  if (c == NULL) return;
  PRE(c->ref > 0, "CMS_ContentInfo_free of a live message");
#ifdef OSSL_SIGNERS
  for (int i = 0; i < NST; i++) if (i < c->nsig) X509_free(c->sig[i]);
#endif
  free(c);
}
STACK_OF(X509) *CMS_get0_signers(CMS_ContentInfo *c) {
  PRE(c != NULL && c->ref > 0, "CMS_get0_signers of a live message");
  if (lib_fails()) return NULL;
  if (!c->signers) return NULL;
  OPENSSL_STACK *s = malloc(sizeof *s);
  if (s == NULL) return NULL;
  s->num = c->nsig; s->tag = c;
  for (int i = 0; i < NST; i++) s->at[i] = c->sig[i];
  return (STACK_OF(X509) *)s;
}
int i2d_CMS_bio(BIO *b, CMS_ContentInfo *c) {
  PRE(b != NULL && b->ref > 0 && c != NULL && c->ref > 0, "i2d_CMS_bio of live objects");
  if (lib_fails()) return 0;
  bio_put(b, c->enc.p, c->enc.n);
  return 1;
}
#endif

#ifndef OSSL_W
/* ---- byte array lists handed to the functions under contract ----
 * tagged: an opaque list of any length, only ever passed on to a replaced callee;
 * otherwise a real list of at most two elements (bounded builds) */
#define NLIST 2
struct ghost_list { struct BinaryArrayList *l; int n; struct BinaryArrayList *el[NLIST]; };
static struct BinaryArrayList *gl_make(struct ghost_list *g, bool maybe_null, bool types) {
  g->l = NULL; g->n = 0;
  if (maybe_null && nd_bool()) return NULL;
  g->l = mk_raw(sizeof *g->l);
  dl_list_init(&g->l->list, g->l);
#if defined(VSMALL) || defined(VREPLAY)
  g->l->arr = NULL; g->l->length = 0; g->l->flags = 0;
  size_t n = nd_size();
  REQUIRES(n <= NLIST);
  for (size_t i = 0; i < NLIST; i++)
    if (i < n) {
      struct BinaryArrayList *e = mk_raw(sizeof *e);
      e->length = 1 + (nd_u8() & 1);
      e->arr = mk_bytes(e->length);
      e->flags = types ? (nd_u8() & 3) : 0;
      dl_list_add_tail(&g->l->list, &e->list, e);
      g->el[g->n++] = e;
    }
#endif
  return g->l;
}
#if defined(VSMALL) || defined(VREPLAY)
#define GL_REAL 1
#else
#define GL_REAL 0
#endif
/* the stack holds exactly the decoded certificates of the list */
static bool stack_is(const OPENSSL_STACK *s, const struct ghost_list *g) {
  if (g->l == NULL) return s == NULL;
  if (s == NULL) return false;
  if (!GL_REAL) return s->tag == g->l;
  if (s->num != g->n) return false;
  bool ok = true;
  for (int i = 0; i < NLIST; i++)
    if (i < g->n) {
      const X509 *x = s->at[i];
      ok = ok && x_alive(x) && from_der(x->from, g->el[i]->arr, g->el[i]->length);
    }
  return ok;
}
static bool store_is(const X509_STORE *s, const struct ghost_list *g) {
  if (g->l == NULL) return s == NULL;
  if (s == NULL || s->ref <= 0) return false;
  if (!GL_REAL) return s->tag == g->l;
  if (s->n != g->n) return false;
  bool ok = true;
  for (int i = 0; i < NLIST; i++)
    if (i < g->n) {
      if (g->el[i]->flags == CRYPTO_CERTIFICATE_VALID) ok = ok && x_alive(s->cert[i]) && from_der(s->cert[i]->from, g->el[i]->arr, g->el[i]->length);
      else if (g->el[i]->flags == CRYPTO_CERTIFICATE_CRL) ok = ok && s->crl[i] != NULL && s->crl[i]->ref > 0 && from_der(s->crl[i]->from, g->el[i]->arr, g->el[i]->length);
      else ok = false;
    }
  return ok;
}
/* every entry of a trust list says what it is */
static bool types_ok(const struct ghost_list *g) {
  bool ok = true;
  for (int i = 0; i < NLIST; i++)
    if (i < g->n) ok = ok && (g->el[i]->flags == CRYPTO_CERTIFICATE_VALID || g->el[i]->flags == CRYPTO_CERTIFICATE_CRL);
  return ok;
}
/* contracts of the static list walkers, proved of the real ones in the units
 * cert_stack and cert_store */
struct ptr_list;
STACK_OF(X509) *spec_get_certificate_stack(const struct BinaryArrayList *certs) {
  PRE(certs != NULL, "get_certificate_stack of a list");
  OPENSSL_STACK *s = OPENSSL_sk_new_null();
  if (s == NULL) return NULL;
  if (lib_fails()) { free(s); return NULL; }
  s->tag = certs;
  return (STACK_OF(X509) *)s;
}
static void *v_store_list;
X509_STORE *spec_get_certificate_store(const struct BinaryArrayList *store, struct ptr_list **list) {
  PRE(store != NULL, "get_certificate_store of a list");
  *list = NULL;
  X509_STORE *s = X509_STORE_new();
  if (s == NULL) return NULL;
  if (lib_fails()) { free(s); return NULL; }
  v_store_list = malloc(1);
  if (v_store_list == NULL) { free(s); return NULL; }
  s->tag = store;
  *list = (struct ptr_list *)v_store_list;
  return s;
}
void spec_free_x509_store(X509_STORE *s, struct ptr_list *list) {
  PRE(s != NULL || list == NULL, "free_x509_store of a store and its list");
  if (s == NULL) return;
  PRE((void *)list == v_store_list && s->tag != NULL, "free_x509_store of a store with its own list");
  X509_STORE_free(s);
  free(list);
}
#endif /* OSSL_W */
#ifdef OSSL_CERT
#include "ossl_cert_fn.h"
#endif
#endif

/* C22: conversion of keys and certificates
 * WHICH 0 file_to_x509buf, 1 file_to_keybuf, 2 certbuf_to_file, 3 keybuf_to_file,
 * 4 crypto_generate_rsakey, 5 crypto_generate_eckey, 6 crypto_cert2buf,
 * 7 crypto_copycert, 8 crypto_getrand */
#include "ossl.h"
#include <openssl/ec.h>
#include <openssl/rsa.h>
/* ---- one file ---- */
static struct { int ref; bool read, named; int wrote; struct prov obj; int kind; bool plain, lost; } g_f;
static const char g_name[] = "name";
FILE *STUB(fopen)(const char *n, const char *mode) {
  PRE(n == g_name && mode != NULL && g_f.ref == 0, "fopen of the file");
  PRE(mode[0] == 'r' || mode[0] == 'w', "fopen for reading or writing");
  if (lib_fails()) return NULL;
  g_f.ref = 1; g_f.read = mode[0] == 'r';
  return (FILE *)&g_f;
}
int STUB(fclose)(FILE *f) {
  PRE((void *)f == (void *)&g_f && g_f.ref == 1, "fclose of an open file");
  g_f.ref = 0;
  if (!g_f.read && nd_bool()) { g_f.lost = true; g_depfail = true; return EOF; }
  return 0;
}
X509 *PEM_read_X509(FILE *f, X509 **x, pem_password_cb *cb, void *u) {
  (void)cb; (void)u;
  PRE((void *)f == (void *)&g_f && g_f.ref == 1 && g_f.read && (x == NULL || *x == NULL), "PEM_read_X509 from an open file");
  if (lib_fails()) return NULL;
  X509 *r = x_new(H_FILE, g_name, 0);
  if (x != NULL && r != NULL) *x = r;
  return r;
}
EVP_PKEY *PEM_read_PrivateKey(FILE *f, EVP_PKEY **x, pem_password_cb *cb, void *u) {
  (void)cb; (void)u;
  PRE((void *)f == (void *)&g_f && g_f.ref == 1 && g_f.read && (x == NULL || *x == NULL), "PEM_read_PrivateKey from an open file");
  if (lib_fails()) return NULL;
  EVP_PKEY *r = pk_new(0, H_FILE, g_name, 0);
  if (x != NULL && r != NULL) *x = r;
  return r;
}
int PEM_write_X509(FILE *f, const X509 *x) {
  PRE((void *)f == (void *)&g_f && g_f.ref == 1 && !g_f.read && x_alive(x), "PEM_write_X509 to an open file");
  if (lib_fails()) return 0;
  g_f.wrote++; g_f.obj = x->from; g_f.kind = 1; g_f.plain = true;
  return 1;
}
int PEM_write_PrivateKey(FILE *f, const EVP_PKEY *k, const EVP_CIPHER *enc, const unsigned char *kstr, int klen, pem_password_cb *cb, void *u) {
  (void)kstr; (void)klen; (void)cb; (void)u;
  PRE((void *)f == (void *)&g_f && g_f.ref == 1 && !g_f.read && k != NULL && k->ref > 0, "PEM_write_PrivateKey to an open file");
  if (lib_fails()) return 0;
  g_f.wrote++; g_f.obj = k->from; g_f.kind = 2; g_f.plain = enc == NULL;
  return 1;
}
/* ---- key generation ---- */
struct evp_pkey_ctx_st { int ref; int type; bool params; int pg, kg; int bits; int curve; };
static int some_failure(void) { int r = nd_int(); REQUIRES(r <= 0); g_depfail = true; return r; }
static EVP_PKEY_CTX *ctx_new(int type) {
  if (lib_fails()) return NULL;
  EVP_PKEY_CTX *c = malloc(sizeof *c);
  if (c == NULL) return NULL;
  c->ref = 1; c->type = type; c->params = false; c->pg = c->kg = 0; c->bits = 0; c->curve = 0;
  return c;
}
EVP_PKEY_CTX *EVP_PKEY_CTX_new_id(int id, ENGINE *e) { (void)e; return ctx_new(id); }
EVP_PKEY_CTX *EVP_PKEY_CTX_new(EVP_PKEY *k, ENGINE *e) {
  (void)e;
  PRE(k != NULL && k->ref > 0, "EVP_PKEY_CTX_new of live parameters");
  if (k == NULL) return NULL;
  EVP_PKEY_CTX *c = ctx_new(k->type);
  if (c != NULL) { c->params = true; c->curve = k->bits; }
  return c;
}
void EVP_PKEY_CTX_free(EVP_PKEY_CTX *c) {
  if (c == NULL) return;
  PRE(c->ref == 1, "EVP_PKEY_CTX_free of a live context");
  free(c);
}
int EVP_PKEY_keygen_init(EVP_PKEY_CTX *c) { PRE(c != NULL && c->ref == 1, "a live context"); if (nd_bool()) return some_failure(); c->kg = 1; return 1; }
int EVP_PKEY_paramgen_init(EVP_PKEY_CTX *c) { PRE(c != NULL && c->ref == 1, "a live context"); if (nd_bool()) return some_failure(); c->pg = 1; return 1; }
int EVP_PKEY_CTX_set_rsa_keygen_bits(EVP_PKEY_CTX *c, int bits) { PRE(c != NULL && c->ref == 1, "a live context"); if (nd_bool() || !c->kg) return some_failure(); c->bits = bits; return 1; }
int EVP_PKEY_CTX_set_ec_paramgen_curve_nid(EVP_PKEY_CTX *c, int nid) { PRE(c != NULL && c->ref == 1, "a live context"); if (nd_bool() || (!c->kg && !c->pg)) return some_failure(); c->curve = nid; return 1; }
static int gen(EVP_PKEY_CTX *c, EVP_PKEY **out, bool params) {
  PRE(c != NULL && c->ref == 1 && out != NULL && *out == NULL, "generation with a live context into a fresh key");
  if (nd_bool() || (params ? !c->pg : !c->kg) || (c->type == EVP_PKEY_EC && c->curve == 0)) return some_failure();
  EVP_PKEY *k = pk_new(c->type, H_NEW, params ? g_name : NULL, 0);
  if (k == NULL) return some_failure();
  k->bits = c->type == EVP_PKEY_EC ? c->curve : c->bits;
  *out = k;
  return 1;
}
int EVP_PKEY_keygen(EVP_PKEY_CTX *c, EVP_PKEY **k) { return gen(c, k, false); }
int EVP_PKEY_paramgen(EVP_PKEY_CTX *c, EVP_PKEY **k) { return gen(c, k, true); }
/* ---- randomness ---- */
static struct { int calls; const uint8_t *p; size_t n; uint8_t k; } g_r;
int RAND_bytes(unsigned char *b, int n) {
  if (n < 0) { g_depfail = true; return 0; }
  PRE(WR_OK(b, (size_t)n), "RAND_bytes writes inside its buffer");
  if (nd_bool()) { g_depfail = true; return nd_bool() ? 0 : -1; }
  g_r.calls++; g_r.p = b; g_r.n = (size_t)n; g_r.k = nd_u8();
  if (g_k < (size_t)n) b[g_k] = g_r.k;
  return 1;
}
void harness(void) {
  g_k = nd_size();
  g_f.ref = 0; g_f.wrote = 0; g_f.lost = false;
#if WHICH == 0 || WHICH == 1 || WHICH == 4 || WHICH == 6
  int bits = nd_int();
#if WHICH == 6
  X509 *x = nd_bool() ? NULL : mk_raw(sizeof *x);
  if (x != NULL) { x->ref = 1; x->from.how = H_DER; x->from.src = g_name; x->from.len = 4; x->enc_made = false; }
#endif
  v_begin();
#if WHICH == 0
  struct BinaryArray *r = file_to_x509buf(g_name);
#elif WHICH == 1
  struct BinaryArray *r = file_to_keybuf(g_name);
#elif WHICH == 4
  struct BinaryArray *r = crypto_generate_rsakey(bits);
#else
  struct BinaryArray *r = crypto_cert2buf((CRYPTO_CERT)x);
#endif
  v_end();
  if (r != NULL) {
    REACH("c22 converted");
    ENSURES(!g_depfail, "c22: any failure on the way is an error");
#if WHICH == 0 || WHICH == 6
    ENSURES(g_i2d.calls == 1 && r->array == g_i2d.buf && r->length == g_i2d.enc.n, "c22: the certificate's encoding is returned with its exact length");
    ENSURES(r->array != g_i2d.buf || r->length != g_i2d.enc.n || BYTE_EQ(r->array, g_i2d.enc.p, r->length), "c22: the encoding is returned unchanged");
#if WHICH == 0
    ENSURES(g_i2d.from.how == H_FILE && g_i2d.from.src == g_name, "c22: it is the certificate of the file");
#else
    ENSURES(x != NULL && g_i2d.from.src == g_name, "c22: it is the given certificate");
#endif
#else
    ENSURES(g_i2dk.calls == 1 && r->array == g_i2dk.buf && r->length == g_i2dk.enc.n, "c22: the key's encoding is returned with its exact length");
    ENSURES(r->array != g_i2dk.buf || r->length != g_i2dk.enc.n || BYTE_EQ(r->array, g_i2dk.enc.p, r->length), "c22: the encoding is returned unchanged");
#if WHICH == 1
    ENSURES(g_i2dk.from.how == H_FILE && g_i2dk.from.src == g_name, "c22: it is the key of the file");
#else
    ENSURES(g_i2dk.from.how == H_NEW && g_i2dk.type == EVP_PKEY_RSA && g_i2dk.bits == bits, "c22: it is a new RSA key of the given size");
#endif
#endif
    free_binary_array(r);
  } else {
    REACH("c22 not converted");
#if WHICH == 6
    ENSURES(x == NULL || g_depfail || g_oom, "c22: without a failure there is a result");
#else
    ENSURES(g_depfail || g_oom, "c22: without a failure there is a result");
#endif
  }
  ENSURES(g_f.ref == 0, "c22: the file is closed");
#if WHICH == 6
  if (x != NULL) ENSURES(x->ref == 1, "c22: the certificate stays with the caller");
#endif
#elif WHICH == 2 || WHICH == 3
  struct BinaryArray in;
  in.length = mk_len(); in.array = mk_bytes(in.length);
  v_begin();
#if WHICH == 2
  int r = certbuf_to_file(&in, g_name);
#else
  int r = keybuf_to_file(&in, g_name);
#endif
  v_end();
  if (r >= 0) {
    REACH("c22 written");
    ENSURES(r == 0 && !g_depfail && !g_f.lost, "c22: any failure on the way is an error");
    ENSURES(g_f.wrote == 1 && g_f.kind == WHICH - 1 && g_f.plain && from_der(g_f.obj, in.array, in.length), "c22: the given object is written");
  } else {
    REACH("c22 not written");
    ENSURES(g_depfail || g_oom || in.length == 0, "c22: without a failure the object is written");
  }
  ENSURES(g_f.ref == 0, "c22: the file is closed");
#elif WHICH == 5
  uint8_t mark[1], *key = mark;
  bool no = nd_bool();
  v_begin();
  ssize_t r = crypto_generate_eckey(no ? NULL : &key);
  v_end();
  if (r >= 0) {
    REACH("c22 generated");
    ENSURES(!no && !g_depfail, "c22: any failure on the way is an error");
    ENSURES(g_i2dk.calls == 1 && key == g_i2dk.buf && (size_t)r == g_i2dk.enc.n, "c22: the key's encoding is returned with its exact length");
    ENSURES(key != g_i2dk.buf || (size_t)r != g_i2dk.enc.n || BYTE_EQ(key, g_i2dk.enc.p, (size_t)r), "c22: the encoding is returned unchanged");
    ENSURES(g_i2dk.from.how == H_NEW && g_i2dk.from.src == NULL && g_i2dk.type == EVP_PKEY_EC && g_i2dk.bits == NID_X9_62_prime256v1, "c22: it is a new key on the prime256v1 curve");
    free(key);
  } else {
    REACH("c22 not generated");
    ENSURES(no || g_depfail || g_oom, "c22: without a failure there is a result");
    ENSURES(key == NULL || (no && key == mark), "c22: a failure leaves no output");
  }
#elif WHICH == 7
  X509 *x = nd_bool() ? NULL : mk_raw(sizeof *x);
  if (x != NULL) { x->ref = 1; x->from.how = H_DER; x->from.src = g_name; x->from.len = 4; x->enc_made = false; }
  v_begin();
  X509 *r = (X509 *)crypto_copycert((CRYPTO_CERT)x);
  v_end();
  if (r != NULL) {
    REACH("c22 copied");
    ENSURES(x != NULL && r != x && r->ref == 1, "c22: a copy is the caller's own");
    ENSURES(g_i2d.from.src == g_name && from_der(r->from, g_i2d.buf, g_i2d.enc.n), "c22: a copy is the decoding of the exact encoding of the original");
    X509_free(r);
  } else {
    REACH("c22 not copied");
    ENSURES(x == NULL || g_depfail || g_oom, "c22: without a failure there is a result");
  }
  if (x != NULL) ENSURES(x->ref == 1, "c22: the certificate stays with the caller");
#else
  struct BinaryArray b;
  b.length = mk_len(); b.array = nd_bool() ? NULL : mk_bytes(b.length);
  struct BinaryArray b0 = b;
  bool no = nd_bool();
  v_begin();
  int r = crypto_getrand(no ? NULL : &b);
  v_end();
  ENSURES(b.array == b0.array && b.length == b0.length, "c22: the buffer stays in place");
  if (r >= 0) {
    REACH("c22 random");
    ENSURES(r == 0 && !no && b.array && !g_depfail, "c22: any failure on the way is an error");
    ENSURES(g_r.calls >= 1 && g_r.p == b.array && g_r.n == b.length, "c22: random bytes fill the whole buffer");
    ENSURES(g_r.n != b.length || !(g_k < b.length) || b.array[g_k] == g_r.k, "c22: the random bytes are left as they are");
  } else {
    REACH("c22 no random");
    ENSURES(no || !b.array || b.length == 0 || b.length > 0x7fffffff || g_depfail || g_oom, "c22: without a failure the buffer is filled");
  }
#endif
  NO_LEAK("c22: nothing leaks");
}

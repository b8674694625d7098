/* C06: crypto_sign_cms, crypto_sign_eccms, crypto_sign_rsacms */
#include "ossl.h"
#if KIND == 0
#define SIGN crypto_sign_cms
#define KTYPE 0
#elif KIND == 1
#define SIGN crypto_sign_eccms
#define KTYPE EVP_PKEY_EC
#else
#define SIGN crypto_sign_rsacms
#define KTYPE EVP_PKEY_RSA
#endif
static const uint8_t *g_data, *g_cert, *g_key;
static size_t g_data_len, g_cert_len, g_key_len;
static struct ghost_list g_certs;
static struct { int calls; bool cert, key, ktype, certs, data, embedded, binary, complete; struct blob enc; } g_s;
CMS_ContentInfo *CMS_sign(X509 *cert, EVP_PKEY *key, STACK_OF(X509) *certs, BIO *data, unsigned int flags) {
  PRE(x_alive(cert) && key != NULL && key->ref > 0 && data != NULL && data->ref > 0, "CMS_sign of live objects");
  g_s.calls++;
  g_s.cert = from_der(cert->from, g_cert, g_cert_len);
  g_s.key = from_der(key->from, g_key, g_key_len);
  g_s.ktype = key->type == KTYPE;
  g_s.certs = stack_is((OPENSSL_STACK *)certs, &g_certs);
  g_s.data = !data->mixed && data->mem.length == g_data_len && (g_data_len == 0 || data->mem.data == (const char *)g_data);
  g_s.embedded = !(flags & CMS_DETACHED);
  g_s.binary = (flags & CMS_BINARY) && !(flags & CMS_TEXT);
  g_s.complete = !(flags & (CMS_STREAM | CMS_PARTIAL | CMS_NOCERTS));
  if (lib_fails()) return NULL;
  CMS_ContentInfo *c = malloc(sizeof *c);
  if (c == NULL) return NULL;
  c->ref = 1; c->from.how = H_NEW; c->nsig = 0; c->signers = true;
  c->enc = g_s.enc = mk_blob(1);
  return c;
}
void harness(void) {
  g_k = nd_size();
  g_data_len = mk_len(); g_cert_len = mk_len(); g_key_len = mk_len();
  g_data = nd_bool() ? NULL : mk_bytes(g_data_len);
  g_cert = nd_bool() ? NULL : mk_bytes(g_cert_len);
  g_key = nd_bool() ? NULL : mk_bytes(g_key_len);
  uint8_t dk = g_data && g_k < g_data_len ? g_data[g_k] : 0;
  bool no = nd_bool();
  struct BinaryArrayList *certs = gl_make(&g_certs, true, false);
  uint8_t mark[1], *out = mark;
  v_begin();
  ssize_t r = SIGN(g_data, g_data_len, g_cert, g_cert_len, g_key, g_key_len, certs, no ? NULL : &out);
  v_end();
  ENSURES(!g_data || !(g_k < g_data_len) || g_data[g_k] == dk, "c06: the content is not changed");
  if (r >= 0) {
    REACH("c06 signed");
    ENSURES(g_data && g_cert && g_key && !no, "c06: nothing is signed without content, certificate, key and output");
    ENSURES(g_s.calls == 1, "c06: the library signed once");
    ENSURES(g_s.cert, "c06: signed as the given certificate");
    ENSURES(g_s.key, "c06: signed with the given key");
    ENSURES(g_s.ktype, "c06: the key is decoded as the requested kind");
    ENSURES(g_s.certs, "c06: exactly the given additional certificates are included");
    ENSURES(g_s.data, "c06: exactly the given bytes are signed");
    ENSURES(g_s.embedded, "c06: the content is embedded");
    ENSURES(g_s.binary, "c06: the content is signed as binary");
    ENSURES(g_s.complete, "c06: the message is complete, with the signer certificate");
    ENSURES(!g_depfail, "c06: any failure on the way is an error");
    ENSURES((size_t)r == g_s.enc.n, "c06: the length returned is that of the encoded message");
    ENSURES(out != NULL && out != mark && out != g_s.enc.p, "c06: the message returned is the caller's own");
    if (out != NULL && out != mark) {
      ENSURES(BYTE_EQ(out, g_s.enc.p, (size_t)r), "c06: the message returned is exactly the encoding");
      free(out);
    }
  } else {
    REACH("c06 refused");
    ENSURES(out == mark || out == NULL, "c06: an error gives no output");
    ENSURES(!g_data || !g_cert || !g_key || no || g_depfail || g_oom || g_cert_len == 0 || g_key_len == 0 || g_data_len > 0x7fffffff, "c06: complete inputs are signed");
  }
  NO_LEAK("c06: signing leaks nothing");
}

/* C14: crypto_sign_cert */
#define OSSL_CERT
#include "ossl.h"
void harness(void) {
  g_k = nd_size();
  size_t klen = mk_len(), calen = mk_len(), clen = mk_len();
  REQUIRES(clen > 0);
  uint8_t *key = nd_bool() ? NULL : mk_bytes(klen), *ca = mk_bytes(calen);
  bool none = nd_bool(), no = nd_bool();
  uint8_t *in = none ? NULL : cal_bytes(clen);
  uint8_t k0 = in && g_k < clen ? in[g_k] : 0;
  uint8_t *cert = in;
  v_begin();
  ssize_t r = crypto_sign_cert(key, klen, ca, calen, clen, no ? NULL : &cert);
  v_end();
  struct certinfo *c = &g_i2d_c;
  if (r >= 0) {
    REACH("c14 signed");
    ENSURES(key && !no && !none, "c14: nothing is signed without key and certificate");
    ENSURES(!g_depfail && g_i2d.calls == 1, "c14: any failure on the way gives no certificate");
    ENSURES(from_der(g_i2d.from, in, clen), "c14: the certificate signed is the given one");
    ENSURES(c->mods == M_ISSUER, "c14: only the issuer is changed");
    ENSURES(c->issuer.i.how == N_SUBJECT_OF && from_der(c->issuer.i.cert, ca, calen), "c14: the issuer becomes the subject of the given CA certificate");
    ENSURES(c->signed_ && c->sha256 && from_der(c->skey, key, klen), "c14: signed by the given key over the final content");
    ENSURES(c->verified, "c14: a certificate whose signature does not verify is never returned");
    ENSURES((size_t)r == g_i2d.enc.n && cert == g_i2d.buf, "c14: what is returned is the encoding of the signed certificate");
    if (cert == g_i2d.buf) ENSURES(BYTE_EQ(cert, g_i2d.enc.p, (size_t)r), "c14: the encoding is returned unchanged");
    free(cert);
  } else {
    REACH("c14 not signed");
    ENSURES(cert == in, "c14: on failure the caller's certificate stays in place");
    if (in != NULL && cert == in) {
      ENSURES(!(g_k < clen) || in[g_k] == k0, "c14: on failure the caller's certificate is unchanged");
      free(in);
    }
    ENSURES(!key || none || no || g_depfail || g_oom || klen == 0 || calen == 0, "c14: complete inputs are signed");
  }
  NO_LEAK("c14: signing leaks nothing");
}

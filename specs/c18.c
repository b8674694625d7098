/* C18: registrar_est_simpleenroll, save_to_log (C++, translated by lib/cxx2c.py) */
#include <stdio.h>
#include "handlers.h"
#include "/repo/src/brski/masa/masa_config.h"
#include "/repo/src/brski/registrar/registrar_config.h"
uint32_t registrar_est_simpleenroll(void *request_header, void *request_body, void *peer_certificate, void *response_header, void *response, void *user_ctx);
static struct masa_config mconf;
static struct registrar_config rconf;
static struct RegistrarContext ctx;
static char peer;
static uint8_t *g_sa; static size_t g_sl; /* the certificate signed */
static int g_signed;
static bool g_verified;
static char *g_ctxt;
enum { P_TLS, P_SIGN, P_KEY, P_TLSKEY, P_CA, P_CAKEY };
struct keyvalue_list *init_keyvalue_list(void) { struct keyvalue_list *l = malloc(sizeof *l); return l; }
void free_keyvalue_list(struct keyvalue_list *l) { free(l); }
int crypto_getcert_meta(CRYPTO_CERT cert, struct crypto_cert_meta *meta) {
  PRE(cert == NULL || cert == (void *)&peer || cert == g_ctxt, "c18: the log is of the certificates at hand");
  PRE(RD_OK(meta->issuer, sizeof *meta->issuer) && RD_OK(meta->subject, sizeof *meta->subject), "c18: certificate names go into lists");
  return cert == NULL || nd_bool() ? -1 : 0;
}
static char g_serial[2];
char *crypto_getcert_serial(struct crypto_cert_meta *meta) { return nd_bool() ? NULL : g_serial; }
struct BinaryArray *crypto_getcert_issuer(CRYPTO_CERT cert) { return NULL; }
CRYPTO_CERT crypto_cert2context(const uint8_t *cert, const size_t length) {
  PRE(RD_OK(cert, length), "c18: the certificate logged is readable");
  return g_ctxt = nd_bool() ? NULL : malloc(1);
}
static uint8_t *g_pa; static size_t g_pl; /* the peer's certificate */
struct BinaryArray *crypto_cert2buf(CRYPTO_CERT cert) {
  if (cert != (void *)&peer || nd_bool()) return NULL;
  return new_array(&g_pa, &g_pl);
}
/* the one call of the library that verifies a certificate */
int crypto_verify_cert(const uint8_t *cert, const size_t cert_length, const struct BinaryArrayList *certs, const struct BinaryArrayList *store) {
  if (nd_bool()) { g_depfail = true; return -1; }
  /* against the configured manufacturer trust */
  if (g_pa != NULL && cert == g_pa && cert_length == g_pl && store != NULL && store == g_certs[1]) g_verified = true;
  return 0;
}
struct BinaryArray *sign_voucher_request(const struct BinaryArray *cms, const struct tm *created_on, const char *serial, const struct BinaryArray *issuer,
    const struct BinaryArray *tls, const struct BinaryArray *cert, const struct BinaryArray *key, const struct BinaryArrayList *pv,
    const struct BinaryArrayList *ps, const struct BinaryArrayList *add) { return NULL; }
uint32_t https_post_request(void *ckey, void *ccert, void *host, uint32_t port, void *path, uint8_t verify, void *body, void *ctype, void *res) { return -1; }
ssize_t crypto_sign_cert(const uint8_t *key, const size_t key_length, const uint8_t *ca, const size_t ca_length, const size_t length, uint8_t **cert) {
  PRE(g_file[P_CA] != NULL && g_fkind[P_CA] == 1 && ca == g_fa[P_CA] && ca_length == g_fl[P_CA], "c18: signed with the configured CA certificate");
  PRE(g_file[P_CAKEY] != NULL && g_fkind[P_CAKEY] == 2 && key == g_fa[P_CAKEY] && key_length == g_fl[P_CAKEY], "c18: signed with the configured CA key");
  PRE(g_decoded[T_REQ] && cert != NULL && *cert == g_da[T_REQ] && length == g_dl[T_REQ], "c18: the certificate signed is the one submitted");
  g_signed++;
  if (nd_bool()) { g_depfail = true; return -1; }
  free(*cert); /* replaced (C14) */
  g_sl = mk_len();
#ifndef VCBMC
  g_sl &= 63;
#endif
  g_sa = malloc(g_sl + 1);
  REQUIRES(g_sa != NULL);
#ifndef VCBMC
  for (size_t i = 0; i <= g_sl; i++) g_sa[i] = 0;
#endif
  *cert = g_sa;
  return (ssize_t)g_sl;
}
static int enc_of(const uint8_t *src, size_t length) {
  bool ok = g_sa != NULL && src == g_sa && length == g_sl;
  PRE(ok, "c18: what is answered is the certificate signed");
  return ok ? T_OUT : -1;
}
#ifdef VCBMC
static FILE g_f;
static int g_open;
FILE *fopen(const char *name, const char *mode) {
  PRE(name == ctx.log_path, "c18: the log is the configured one");
  PRE(mode[0] == 'a', "c18: the log is appended to");
  if (nd_bool()) return NULL;
  g_open++;
  return &g_f;
}
int fclose(FILE *f) { PRE(f == &g_f && g_open == 1, "c18: the log is closed once"); g_open--; return 0; }
int fprintf(FILE *f, const char *fmt, ...) { PRE(f == &g_f && g_open == 1, "c18: the log written is open"); return 0; }
#endif
void harness(void) {
  g_k = nd_size();
  mk_config(6, 3);
  rconf.tls_cert_path = g_path[P_TLS]; rconf.tls_key_path = g_path[P_TLSKEY];
  rconf.tls_ca_cert_path = g_path[P_CA]; rconf.tls_ca_key_path = g_path[P_CAKEY];
  rconf.cms_sign_cert_path = g_path[P_SIGN]; rconf.cms_sign_key_path = g_path[P_KEY];
  rconf.cms_verify_certs_paths = g_lpaths[0];
  rconf.cms_verify_store_paths = g_lpaths[1];
  rconf.cms_add_certs_paths = g_lpaths[2];
  ctx.rconf = &rconf; ctx.mconf = &mconf;
  const char *lp = "/dev/null";
  for (int i = 0; i < 10; i++) ctx.log_path[i] = lp[i];
  g_serial[0] = '1';
  static struct vpair header, rheader;
  static struct vstring body, response;
  new_run();
  mk_text(T_REQ); mk_text(T_OUT);
  g_chars[T_OUT] = NULL;
  REQUIRES(g_tlen[T_OUT] > 0);
  vs_set(&body, g_own[T_REQ]);
  bool have = nd_bool();
  v_begin();
  int r = (int)registrar_est_simpleenroll(&header, &body, have ? &peer : NULL, &rheader, &response, &ctx);
  v_end();
#ifdef C18_PEER
  if (g_signed > 0) {
    REACH("c18 signed");
    ENSURES(have && g_verified, "c18: a certificate is signed only for a verified peer");
  }
#else
  if (r >= 200 && r < 300) {
    REACH("c18 enrolled");
    ENSURES(!g_depfail, "c18: any failure is answered with an error");
    ENSURES(g_signed == 1, "c18: success only with a certificate signed");
    ENSURES(is_text(&response, T_OUT), "c18: success answers exactly the signed certificate");
  } else {
    REACH("c18 refused");
    ENSURES(r >= 400 && r <= 599, "c18: anything else is an error status");
    ENSURES(g_depfail || g_oom, "c18: an error has a cause");
    ENSURES(!is_text(&response, T_OUT), "c18: an error answers no certificate");
  }
#ifdef VCBMC
  ENSURES(g_open == 0, "c18: the log is closed");
#endif
  NO_LEAK("c18: a request leaks nothing");
#endif
}

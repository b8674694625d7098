/* C17: registrar_requestvoucher, post_voucher_request (C++, translated by lib/cxx2c.py) */
#include "handlers.h"
#include "/repo/src/brski/masa/masa_config.h"
#include "/repo/src/brski/registrar/registrar_config.h"
uint32_t registrar_requestvoucher(void *request_header, void *request_body, void *peer_certificate, void *response_header, void *response, void *user_ctx);
static struct masa_config mconf;
static struct registrar_config rconf;
static struct RegistrarContext ctx;
static char g_host[2], g_other[2], peer;
static struct BinaryArray *g_issuer, *g_voucher;
static uint8_t *g_ia, *g_va; static size_t g_il, g_vl;
static struct keyvalue_list *g_subject, *g_issuerl;
static bool g_meta;
static int g_signed, g_posted;
static int g_status;
enum { P_TLS, P_SIGN, P_KEY, P_TLSKEY, P_CA, P_CAKEY };
struct keyvalue_list *init_keyvalue_list(void) {
  struct keyvalue_list *l = malloc(sizeof *l);
  if (l != NULL) { l->key = l->value = NULL; l->list.next = l->list.prev = &l->list; l->list.el = l; }
  return l;
}
void free_keyvalue_list(struct keyvalue_list *l) {
  if (l == NULL) return;
  if (l == g_subject) { free(g_chars[T_SERIAL]); g_chars[T_SERIAL] = NULL; g_subject = NULL; }
  free(l);
}
int crypto_getcert_meta(CRYPTO_CERT cert, struct crypto_cert_meta *meta) {
  PRE(cert == NULL || cert == (void *)&peer, "c17: the certificate read is the connecting peer's");
  PRE(RD_OK(meta->issuer, sizeof *meta->issuer) && RD_OK(meta->subject, sizeof *meta->subject), "c17: certificate names go into lists");
  if (cert == NULL || nd_bool()) { g_depfail = true; return -1; }
  g_subject = meta->subject;
  g_issuerl = meta->issuer;
  g_meta = true;
  return 0;
}
char *crypto_getcert_serial(struct crypto_cert_meta *meta) {
  PRE(g_meta && meta->subject == g_subject && g_subject != NULL, "c17: the serial number is the peer's");
  if (nd_bool()) { g_depfail = true; return NULL; }
  if (g_chars[T_SERIAL] == NULL) g_chars[T_SERIAL] = mk_cal(T_SERIAL);
  return g_chars[T_SERIAL];
}
struct BinaryArray *crypto_getcert_issuer(CRYPTO_CERT cert) {
  PRE(cert == NULL || cert == (void *)&peer, "c17: the issuer read is the connecting peer's");
  if (cert == NULL || nd_bool()) { g_depfail = true; return NULL; }
  return g_issuer = new_array(&g_ia, &g_il);
}
static int enc_of(const uint8_t *src, size_t length) {
  bool ok = g_voucher != NULL && src == g_va && length == g_vl;
  PRE(ok, "c17: what is forwarded is the request countersigned");
  return ok ? T_OUT : -1;
}
struct BinaryArray *sign_voucher_request(const struct BinaryArray *cms, const struct tm *created_on, const char *serial, const struct BinaryArray *issuer,
    const struct BinaryArray *tls, const struct BinaryArray *cert, const struct BinaryArray *key, const struct BinaryArrayList *pv,
    const struct BinaryArrayList *ps, const struct BinaryArrayList *add) {
  PRE(DECODED(cms, T_REQ), "c17: the request countersigned is the decoded body");
  PRE(same_time(created_on), "c17: the request is dated now");
  PRE(serial != NULL && RD_OK(serial, 1) && v_text(serial) == &g_tid[T_SERIAL], "c17: the serial number is of the peer's certificate");
  PRE(issuer != NULL && issuer == g_issuer && issuer->array == g_ia && issuer->length == g_il, "c17: the issuer is of the peer's certificate");
  PRE(FILE_OK(tls, P_TLS, 1), "c17: the registrar certificate is the one it serves with");
  PRE(FILE_OK(cert, P_SIGN, 1), "c17: countersigned with the registrar's certificate");
  PRE(FILE_OK(key, P_KEY, 2), "c17: countersigned with the registrar's key");
  PRE(pv == g_certs[0], "c17: pledges are verified with the configured certificates");
  PRE(ps == g_certs[1], "c17: pledges are verified against the configured trust");
  PRE(add == g_certs[2], "c17: the request carries the configured certificates");
  if (nd_bool()) { g_depfail = true; return NULL; }
  g_signed++;
  return g_voucher = new_array(&g_va, &g_vl);
}
uint32_t https_post_request(void *ckey, void *ccert, void *host, uint32_t port, void *path, uint8_t verify, void *body, void *ctype, void *res) {
  struct HttpResponse *h = res;
  PRE(((struct vstring *)ckey)->n == 1 && ((struct vstring *)ckey)->a[0] == g_path[P_TLSKEY] && ((struct vstring *)ccert)->n == 1 && ((struct vstring *)ccert)->a[0] == g_path[P_TLS],
    "c17: the registrar connects with its own key and certificate");
  PRE(((struct vstring *)host)->n == 1 && ((struct vstring *)host)->a[0] == mconf.bind_address && port == mconf.port, "c17: the MASA asked is the configured one");
  PRE(spells(path, "/.well-known/brski/requestvoucher", -1, NULL), "c17: the MASA is asked for a voucher");
  PRE(g_encoded[T_OUT] && is_text(body, T_OUT), "c17: the MASA gets exactly the countersigned request");
  g_posted++;
  if (nd_bool()) { g_depfail = true; return (uint32_t)-1; }
  h->peer_certificate = peer_new();
  vs_set(&h->response, g_own[T_ANS]);
  g_status = (int)(nd_size() % 500) + 100;
  if (g_status >= 400) g_depfail = true;
  return g_status;
}
void harness(void) {
  g_k = nd_size();
  mk_config(6, 3);
  rconf.tls_cert_path = g_path[P_TLS]; rconf.tls_key_path = g_path[P_TLSKEY];
  rconf.tls_ca_cert_path = g_path[P_CA]; rconf.tls_ca_key_path = g_path[P_CAKEY];
  rconf.cms_sign_cert_path = g_path[P_SIGN]; rconf.cms_sign_key_path = g_path[P_KEY];
  rconf.cms_verify_certs_paths = g_lpaths[0];
  rconf.cms_verify_store_paths = g_lpaths[1];
  rconf.cms_add_certs_paths = g_lpaths[2];
  g_host[0] = g_other[0] = 'h';
  mconf.bind_address = g_host; rconf.bind_address = g_other;
  mconf.port = (unsigned)nd_size(); rconf.port = (unsigned)nd_size();
  ctx.rconf = &rconf; ctx.mconf = &mconf;
  static struct vpair header, rheader;
  static struct vstring body, response;
  new_run();
  fill_tm(&g_time);
  mk_text(T_REQ); mk_text(T_OUT); mk_text(T_ANS); mk_text(T_SERIAL);
  g_chars[T_SERIAL] = g_chars[T_OUT] = NULL;
  REQUIRES(g_tlen[T_OUT] > 0 && g_tlen[T_SERIAL] > 0 && g_tlen[T_ANS] > 0);
  vs_set(&body, g_own[T_REQ]);
  bool have = nd_bool();
  v_begin();
  int r = (int)registrar_requestvoucher(&header, &body, have ? &peer : NULL, &rheader, &response, &ctx);
  v_end();
  if (r >= 200 && r < 300) {
    REACH("c17 voucher");
    ENSURES(have, "c17: success only for a peer with a certificate");
    ENSURES(!g_depfail && !g_oom, "c17: any failure is answered with an error");
    ENSURES(g_signed == 1 && g_posted == 1, "c17: success only with a request countersigned and forwarded");
    ENSURES(g_status < 400, "c17: success only if the MASA answered no error");
    ENSURES(is_text(&response, T_ANS), "c17: success answers exactly the MASA's voucher");
  } else {
    REACH("c17 refused");
    ENSURES(r >= 400 && r <= 599, "c17: anything else is an error status");
    ENSURES(g_depfail || g_oom, "c17: an error has a cause");
    ENSURES(!is_text(&response, T_ANS) && !is_text(&response, T_OUT), "c17: an error answers no voucher");
  }
  NO_LEAK("c17: a request leaks nothing");
}

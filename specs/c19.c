/* C19: post_voucher_pledge_request, verify_masa_pledge_request, generate_sign_cert, post_sign_cert
 * (C++, translated by lib/cxx2c.py), voucher_pledge_request_to_array, voucher_pledge_request_to_base64 (C) */
#include "handlers.h"
#include "/repo/src/brski/masa/masa_config.h"
#include "/repo/src/brski/registrar/registrar_config.h"
#include "/repo/src/brski/pledge/pledge_config.h"
uint32_t post_voucher_pledge_request(void *pconf, void *rconf, void *mconf, void *pinned);
uint32_t post_sign_cert(void *pconf, void *rconf, void *mconf, void *out_cert, void *out_key);
static struct masa_config mconf;
static struct registrar_config rconf;
static struct pledge_config pconf;
static char g_host[2], g_serial[2], g_created[2];
enum { P_IKEY, P_ICERT, P_SIGN, P_KEY, P_ICA };
static struct BinaryArray *g_cms, *g_rbuf; /* the request signed; the registrar's certificate (of the last exchange) */
static uint8_t *g_ca, *g_ra, *g_pa, *g_ka, *g_ga; static size_t g_cl, g_rl, g_pl, g_kl, g_gl;
static int g_exchanges, g_status, g_enrolled;
static bool g_accepted, g_peer_is_last;
static uint8_t *fresh(size_t *l) {
  *l = mk_len();
#ifndef VCBMC
  *l &= 63;
#endif
  uint8_t *p = malloc(*l + 1);
  REQUIRES(p != NULL);
#ifndef VCBMC
  for (size_t i = 0; i <= *l; i++) p[i] = 0;
#endif
  return p;
}
int serialize_str2time(const char *str, const struct tm *tm) {
  PRE(str == NULL || str == pconf.created_on, "the date read is the configured one");
  if (str == NULL || nd_bool()) { g_depfail = true; return -1; }
  *(struct tm *)tm = g_time;
  return 0;
}
struct keyvalue_list *init_keyvalue_list(void) {
  struct keyvalue_list *l = malloc(sizeof *l);
  return l;
}
void free_keyvalue_list(struct keyvalue_list *l) { free(l); }
int push_keyvalue_list(struct keyvalue_list *l, char *const key, char *const value) {
  PRE(RD_OK(l, sizeof *l) && RD_OK(key, 1) && RD_OK(value, 1), "names go into a list");
  if (nd_bool()) { g_depfail = true; return -1; }
  return 0;
}
int crypto_getrand(struct BinaryArray *b) {
  PRE(RD_OK(b->array, b->length), "random bytes go into a buffer");
  if (nd_bool()) { g_depfail = true; return -1; }
  return 0;
}
ssize_t crypto_generate_eckey(uint8_t **key) {
  *key = NULL;
  if (nd_bool()) { g_depfail = true; return -1; }
  *key = g_ka = fresh(&g_kl);
  return (ssize_t)g_kl;
}
ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta, const uint8_t *key, const size_t key_length, uint8_t **cert) {
  PRE(g_ka != NULL && key == g_ka && key_length == g_kl, "c19: the certificate is for the key generated");
  *cert = NULL;
  if (nd_bool()) { g_depfail = true; return -1; }
  *cert = g_ga = fresh(&g_gl);
  return (ssize_t)g_gl;
}
struct BinaryArray *crypto_cert2buf(CRYPTO_CERT cert) {
  PRE(cert == NULL || RD_OK((char *)cert, 1), "c19: the certificate read is there");
  PRE(g_exchanges > 0 && (char *)cert == g_peer, "c19: the certificate read is that of the registrar connected to");
  if (cert == NULL || nd_bool()) { g_depfail = true; return NULL; }
  return g_rbuf = new_array(&g_ra, &g_rl);
}
struct BinaryArray *sign_pledge_voucher_request(const struct tm *created_on, const char *serial, const struct BinaryArray *nonce,
    const struct BinaryArray *tls, const struct BinaryArray *cert, const struct BinaryArray *key, const struct BinaryArrayList *add) {
  PRE(same_time(created_on), "c19: the request is dated as configured, or now");
  PRE(serial == pconf.serial_number, "c19: the request is for the configured serial number");
  PRE(pconf.nonce == NULL ? nonce == NULL : DECODED(nonce, T_NONCE), "c19: the request carries the configured nonce");
  PRE(g_exchanges == 1 && tls != NULL && tls == g_rbuf && tls->array == g_ra && tls->length == g_rl, "c19: the request is bound to the registrar's TLS certificate");
  PRE(FILE_OK(cert, P_SIGN, 1), "c19: signed with the configured certificate");
  PRE(FILE_OK(key, P_KEY, 2), "c19: signed with the configured key");
  PRE(add == g_certs[0], "c19: the request carries the configured certificates");
  if (nd_bool()) { g_depfail = true; return NULL; }
  return g_cms = new_array(&g_ca, &g_cl);
}
int verify_masa_pledge_voucher(const struct BinaryArray *cms, const char *serial, const struct BinaryArray *nonce, const struct BinaryArray *tls,
    const struct BinaryArrayList *domain, const struct BinaryArrayList *certs, const struct BinaryArrayList *store,
    struct BinaryArrayList **out_certs, struct BinaryArray *const pinned) {
  PRE(g_exchanges == 2 && g_status < 400, "c19: a voucher is accepted only if the registrar answered no error");
  PRE(DECODED(cms, T_ANS), "c19: the voucher verified is the decoded answer");
  PRE(serial == pconf.serial_number, "c19: the voucher is verified for the configured serial number");
  PRE(pconf.nonce == NULL ? nonce == NULL : DECODED(nonce, T_NONCE), "c19: the voucher is verified for the nonce sent");
  PRE(tls != NULL && tls == g_rbuf && tls->array == g_ra && tls->length == g_rl, "c19: the voucher is verified for the registrar connected to");
  PRE(domain == NULL, "c19: no further trust decides");
  PRE(certs == g_certs[1], "c19: the MASA is verified with the configured certificates");
  PRE(store == g_certs[2], "c19: the MASA is verified against the configured trust");
  PRE(out_certs == NULL, "c19: no certificates are asked for");
  if (nd_bool()) { g_depfail = true; return -1; }
  g_accepted = true;
  pinned->array = g_pa = fresh(&g_pl);
  pinned->length = g_pl;
  return 0;
}
static int enc_of(const uint8_t *src, size_t length) {
  if (g_cms != NULL && src == g_ca && length == g_cl) return T_OUT;
  if (g_pa != NULL && src == g_pa && length == g_pl) return T_PIN;
  if (g_ga != NULL && src == g_ga && length == g_gl) return T_CERT;
  PRE(false, "c19: what is sent is the signed request, the generated certificate or the pinned one");
  return -1;
}
static void connects(const struct vstring *ckey, const struct vstring *ccert, const struct vstring *host, uint32_t port) {
  PRE(ckey->n == 1 && ckey->a[0] == g_path[P_IKEY] && ccert->n == 1 && ccert->a[0] == g_path[P_ICERT], "c19: the pledge connects with its own key and certificate");
  PRE(host->n == 1 && host->a[0] == g_host && port == rconf.port, "c19: the registrar is the configured one");
}
uint32_t https_post_request(void *ckey, void *ccert, void *host, uint32_t port, void *path, uint8_t verify, void *body, void *ctype, void *res) {
  struct HttpResponse *h = res;
  connects(ckey, ccert, host, port);
  PRE(spells(path, "/.well-known/brski/requestvoucher", -1, NULL), "c19: the registrar is asked for a voucher");
  g_exchanges++;
  if (g_exchanges == 2) PRE(g_encoded[T_OUT] && is_text(body, T_OUT), "c19: the registrar gets exactly the signed request");
  PRE(g_exchanges <= 2, "c19: two exchanges");
  if (nd_bool()) { g_depfail = true; return (uint32_t)-1; }
  h->peer_certificate = peer_new();
  vs_set(&h->response, g_own[g_exchanges == 1 ? T_ANS0 : T_ANS]);
  g_status = (int)(nd_size() % 500) + 100;
  if (g_exchanges == 2 && g_status >= 400) g_depfail = true;
  return g_status;
}
uint32_t https_post_request_ca(void *ckey, void *ccert, void *ca, void *host, uint32_t port, void *path, void *body, void *ctype, void *response) {
  connects(ckey, ccert, host, port);
  PRE(g_accepted, "c19: enrolment only after accepting a voucher");
  PRE(g_encoded[T_PIN] && spells(ca, "-----BEGIN CERTIFICATE-----\n", T_PIN, "\n-----END CERTIFICATE-----"), "c19: the connection is verified against the pinned certificate");
  PRE(spells(path, "/.well-known/est/simpleenroll", -1, NULL), "c19: the registrar is asked to enrol");
  PRE(g_encoded[T_CERT] && is_text(body, T_CERT), "c19: the registrar gets exactly the generated certificate");
  g_enrolled++;
  if (nd_bool()) { g_depfail = true; return (uint32_t)-1; }
  vs_set(response, g_own[T_REQ]);
  int st = (int)(nd_size() % 500) + 100;
  if (st >= 400) g_depfail = true;
  return st;
}
size_t printf_hex(char *buf, size_t buf_size, const uint8_t *data, size_t len, int uppercase) {
  PRE(buf_size > 0 && RD_OK(buf, buf_size) && RD_OK(data, len), "c19: the random bytes are written to a buffer that takes them");
  buf[0] = 0;
  return 0;
}
int rand(void) { return (int)(nd_u64() & 0x7fffffff); }
void srand(unsigned s) {}
/* the contract of post_voucher_pledge_request (unit c19_voucher) */
uint32_t spec_post_voucher(void *p, void *r, void *m, void *pinned) {
  PRE(p == &pconf && r == &rconf && m == &mconf, "c19: the voucher is requested as configured");
  if (nd_bool()) { g_depfail = true; return (uint32_t)-1; }
  g_accepted = true;
  struct BinaryArray *b = pinned;
  b->array = g_pa = fresh(&g_pl);
  b->length = g_pl;
  return 0;
}
void harness(void) {
  g_k = nd_size();
  mk_config(5, 3);
  pconf.idevid_key_path = g_path[P_IKEY]; pconf.idevid_cert_path = g_path[P_ICERT]; pconf.idevid_ca_cert_path = g_path[P_ICA];
  pconf.cms_sign_cert_path = g_path[P_SIGN]; pconf.cms_sign_key_path = g_path[P_KEY];
  pconf.cms_add_certs_paths = g_lpaths[0];
  pconf.cms_verify_certs_paths = g_lpaths[1];
  pconf.cms_verify_store_paths = g_lpaths[2];
  g_host[0] = 'h'; g_serial[0] = '1'; g_created[0] = '2';
  rconf.bind_address = nd_bool() ? NULL : g_host;
  rconf.port = (unsigned)nd_size(); mconf.port = (unsigned)nd_size();
  pconf.serial_number = nd_bool() ? NULL : g_serial;
  pconf.created_on = nd_bool() ? NULL : g_created;
  new_run();
  fill_tm(&g_time);
  mk_text(T_OUT); mk_text(T_ANS); mk_text(T_ANS0); mk_text(T_NONCE); mk_text(T_PIN); mk_text(T_CERT); mk_text(T_REQ);
  g_chars[T_OUT] = g_chars[T_PIN] = g_chars[T_CERT] = NULL;
  REQUIRES(g_tlen[T_OUT] > 0 && g_tlen[T_PIN] > 0 && g_tlen[T_CERT] > 0);
  pconf.nonce = nd_bool() ? NULL : g_own[T_NONCE];
  bool nocfg = rconf.bind_address == NULL || pconf.idevid_key_path == NULL || pconf.idevid_cert_path == NULL;
#ifdef C19_ENROL
  struct BinaryArray cert = {0}, key = {0};
  v_begin();
  int r = (int)post_sign_cert(&pconf, &rconf, &mconf, &cert, &key);
  v_end();
  if (r == 0) {
    REACH("c19 enrolled");
    ENSURES(!g_depfail && !g_oom && !nocfg, "c19: any failure is reported");
    ENSURES(g_accepted && g_enrolled == 1, "c19: enrolled only after accepting a voucher");
    ENSURES(DECODED(&cert, T_REQ), "c19: the certificate handed out is the registrar's answer");
    ENSURES(key.array == g_ka && key.length == g_kl, "c19: the key handed out is the one generated");
    free(cert.array); free(key.array);
  } else {
    REACH("c19 enrolment failed");
    ENSURES(r < 0, "c19: a failure is negative");
    ENSURES(g_depfail || g_oom || nocfg, "c19: a failure has a cause");
    ENSURES(cert.array == NULL && key.array == NULL, "c19: a failure hands out nothing");
  }
#else
  struct BinaryArray pinned = {0};
  v_begin();
  int r = (int)post_voucher_pledge_request(&pconf, &rconf, &mconf, &pinned);
  v_end();
  if (r == 0) {
    REACH("c19 accepted");
    ENSURES(!g_depfail && !g_oom && !nocfg, "c19: any failure is reported");
    ENSURES(g_accepted, "c19: success only with a voucher accepted");
    ENSURES(pinned.array == g_pa && pinned.length == g_pl, "c19: the pinned certificate handed out is the voucher's");
    free(pinned.array);
  } else {
    REACH("c19 failed");
    ENSURES(r < 0, "c19: a failure is negative");
    ENSURES(g_depfail || g_oom || nocfg, "c19: a failure has a cause");
    ENSURES(pinned.array == NULL, "c19: a failure hands out no certificate");
  }
#endif
  NO_LEAK("c19: a request leaks nothing");
}

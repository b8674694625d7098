/* C16: masa_requestvoucher, voucher_req_cb (C++, translated by lib/cxx2c.py) */
#include "handlers.h"
#include "/repo/src/brski/masa/masa_config.h"
#include "/repo/src/brski/registrar/registrar_config.h"
uint32_t masa_requestvoucher(void *request_header, void *request_body, void *peer_certificate, void *response_header, void *response, void *user_ctx);
static struct masa_config mconf;
static struct registrar_config rconf;
static struct MasaContext ctx;
static char g_expires[2];
static struct BinaryArray *g_voucher;
static uint8_t *g_va; static size_t g_vl;
static int g_signed;
enum { P_SIGN, P_KEY, P_CA, P_OTHER };
int serialize_str2time(const char *str, const struct tm *tm) {
  PRE(str == NULL || str == mconf.expires_on, "the expiry read is the configured one");
  if (str == NULL || nd_bool()) { g_depfail = true; return -1; }
  *(struct tm *)tm = g_time;
  return 0;
}
static int enc_of(const uint8_t *src, size_t length) {
  bool ok = g_voucher != NULL && src == g_va && length == g_vl;
  PRE(ok, "what is answered is the voucher signed");
  return ok ? T_OUT : -1;
}
struct BinaryArray *sign_masa_pledge_voucher(const struct BinaryArray *cms, const struct tm *expires_on, voucher_req_fn cb, void *user_ctx,
    const struct BinaryArray *cert, const struct BinaryArray *key, const struct BinaryArrayList *rv, const struct BinaryArrayList *rs,
    const struct BinaryArrayList *pv, const struct BinaryArrayList *ps, const struct BinaryArrayList *add) {
  PRE(DECODED(cms, T_REQ), "c16: the request signed for is the decoded body");
  PRE(same_time(expires_on), "c16: the expiry is the configured one");
  PRE(FILE_OK(cert, P_SIGN, 1), "c16: the voucher is signed with the MASA's certificate");
  PRE(FILE_OK(key, P_KEY, 2), "c16: the voucher is signed with the MASA's key");
  PRE(rv == g_certs[0], "c16: registrars are verified with the configured certificates");
  PRE(rs == g_certs[1], "c16: registrars are verified against the configured trust");
  PRE(pv == g_certs[2], "c16: pledges are verified with the configured certificates");
  PRE(ps == g_certs[3], "c16: pledges are verified against the configured trust");
  PRE(add == g_certs[4], "c16: the voucher carries the configured certificates");
  g_signed++;
  if (nd_bool()) {
    struct BinaryArray pin = {0};
    bool oom = g_oom;
    int r = cb("serial", NULL, user_ctx, &pin);
    PRE(r <= 0, "c16: the callback decides");
    if (r == 0) {
      PRE(g_file[P_CA] != NULL && g_fkind[P_CA] == 1 && pin.length == g_fl[P_CA], "c16: the pinned certificate is the configured one of this request (length)");
      PRE(g_file[P_CA] == NULL || pin.array != NULL && pin.array != g_fa[P_CA], "c16: the pinned certificate is a copy");
      if (g_file[P_CA] != NULL && pin.array != NULL) PRE(BYTE_EQ(pin.array, g_fa[P_CA], g_fl[P_CA]), "c16: the pinned certificate is the configured one of this request");
      free(pin.array);
      if (nd_bool()) { g_depfail = true; return NULL; }
    } else {
      g_depfail = true;
      PRE(pin.array == NULL, "c16: a refusing callback leaves nothing behind");
      return NULL;
    }
  } else if (nd_bool()) { g_depfail = true; return NULL; }
  g_voucher = new_array(&g_va, &g_vl);
  return g_voucher;
}
void harness(void) {
  g_k = nd_size();
  mk_config(4, 5);
  mconf.expires_on = nd_bool() ? NULL : g_expires;
  mconf.cms_sign_cert_path = g_path[P_SIGN];
  mconf.cms_sign_key_path = g_path[P_KEY];
  mconf.ldevid_ca_cert_path = g_path[P_CA];
  mconf.tls_cert_path = mconf.tls_key_path = mconf.tls_ca_cert_path = g_path[P_OTHER];
  mconf.cms_verify_certs_paths = g_lpaths[0];
  mconf.cms_verify_store_paths = g_lpaths[1];
  rconf.cms_verify_certs_paths = g_lpaths[2];
  rconf.cms_verify_store_paths = g_lpaths[3];
  mconf.cms_add_certs_paths = g_lpaths[4];
  ctx.rconf = &rconf; ctx.mconf = &mconf; ctx.ldevid_ca_cert = NULL; ctx.srv_ctx = NULL;
  static struct vpair header, rheader;
  static struct vstring body, response;
  static char peer;
  /* any request, and any request after it */
  for (int run = 0; run < 2; run++) {
    new_run();
    g_voucher = NULL; g_signed = 0;
    for (int t = 0; t < NT; t++) { g_encoded[t] = g_decoded[t] = false; }
    fill_tm(&g_time);
    mk_text(T_REQ);
    mk_text(T_OUT);
    REQUIRES(g_tlen[T_OUT] > 0);
    vs_set(&body, g_own[T_REQ]);
    vs_init(&response); vs_init(&header.second); vs_init(&rheader.second);
    v_begin();
    int r = (int)masa_requestvoucher(&header, &body, nd_bool() ? NULL : &peer, &rheader, &response, &ctx);
    v_end();
    if (r == 200) {
      REACH("c16 voucher");
      ENSURES(!g_depfail && !g_oom, "c16: any failure is answered with an error");
      ENSURES(g_signed == 1 && g_voucher != NULL && g_encoded[T_OUT], "c16: success only with a voucher signed");
      ENSURES(is_text(&response, T_OUT), "c16: success answers exactly the voucher's text");
    } else {
      REACH("c16 refused");
      ENSURES(r >= 400 && r <= 599, "c16: anything else is an error status");
      ENSURES(g_depfail || g_oom, "c16: an error has a cause");
      ENSURES(response.n == 0 || !is_text(&response, T_OUT), "c16: an error answers no voucher");
    }
    NO_LEAK("c16: a request leaks nothing");
  }
}

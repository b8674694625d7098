/* C02: sign_voucher_request (src/voucher/request.c) */
#include "voucher_stubs.h"

void harness(void) {
  g_k = nd_size();
  struct BinaryArray *cms = mk_arr_ptr(true);
  struct tm created; fill_tm(&created);
  char *serial = nd_bool() ? NULL : mk_str(SN - 1);
  struct BinaryArray *issuer = mk_arr_ptr(true);
  struct BinaryArray *tls = mk_arr_ptr(true);
  struct BinaryArray *cert = mk_arr_ptr(true), *key = mk_arr_ptr(true);
  struct BinaryArrayList *pcerts = mk_list(true), *pstore = mk_list(true), *add = mk_list(true);
  g_like_serial = serial; g_like_proximity = tls;
  struct bsnap cms0 = {0}, issuer0 = {0}, tls0 = {0};
  if (cms) cms0 = snap_arr(cms);
  if (issuer) issuer0 = snap_arr(issuer);
  if (tls) tls0 = snap_arr(tls);

  v_begin();
  struct BinaryArray *r = sign_voucher_request(cms, &created, serial, issuer, tls, cert, key, pcerts, pstore, add);
  v_end();
  if (r) { REACH("c02 signs"); } else { REACH("c02 refuses"); }
  const struct vcall *c = &g_vc[0];
  if (r != NULL) {
    ENSURES(g_nvc == 1 && !g_vc_overflow && c->ok, "c02: countersigned only a pledge request whose signature was verified");
    ENSURES(c->cms == cms && c->certs == pcerts && c->store == pstore, "c02: the received request was authenticated against the pledge trust anchors");
    ENSURES(serial != NULL && c->v.has_serial && str_eq(c->v.serial, serial), "c02: the pledge's serial number is the one of its IDevID");
    ENSURES(tls != NULL && bsnap_eq(c->v.proximity, tls0), "c02: the pledge's proximity certificate is this registrar's certificate");
    ENSURES(c->v.assertion == VOUCHER_ASSERTION_PROXIMITY, "c02: the pledge asserted proximity");
    ENSURES(g_nsign == 1 && is_signed_result(r), "c02: the result is the signed registrar request");
    ENSURES(g_sign_cert == cert && g_sign_key == key && g_sign_certs == add, "c02: signed with the registrar's certificate, key and extra certificates");
    ENSURES(tm_eq(&g_signed.created_on, &created), "c02: created-on is the given time");
    ENSURES(g_signed.has_serial && serial != NULL && str_eq(g_signed.serial, serial), "c02: serial-number is the IDevID serial number");
    ENSURES(issuer != NULL && bsnap_eq(g_signed.issuer, issuer0), "c02: idevid-issuer is the given issuer");
    ENSURES(g_signed.prior.present && bsnap_eq(g_signed.prior, cms0), "c02: prior-signed-voucher-request is the pledge request received");
    ENSURES(g_signed.nonce.present == c->v.nonce.present && bsnap_eq(g_signed.nonce, c->v.nonce), "c02: nonce is exactly the pledge's nonce");
    ENSURES(g_signed.assertion == VOUCHER_ASSERTION_NONE && !g_signed.pinned.present && !g_signed.proximity.present &&
            tm_zero(&g_signed.expires_on) && tm_zero(&g_signed.last_renewal_date) && !g_signed.revocation,
            "c02: nothing else is asserted in the registrar request");
  } else {
    bool all = cms != NULL && cms0.present && cms0.len > 0 && serial != NULL && issuer != NULL && issuer0.present && issuer0.len > 0 && tls != NULL &&
               cert != NULL && key != NULL && g_nvc >= 1 && c->ok && c->same_serial && c->same_proximity &&
               c->v.assertion == VOUCHER_ASSERTION_PROXIMITY;
    ENSURES(!all || g_oom || g_depfail, "c02: a request meeting every condition is countersigned");
    ENSURES(cms == NULL || serial == NULL || issuer == NULL || g_nvc >= 1, "c02: the received request is examined");
  }
  ENSURES(cms == NULL || bsnap_is(cms0, cms->array, cms->length), "c02: request input unchanged");
  ENSURES(issuer == NULL || bsnap_is(issuer0, issuer->array, issuer->length), "c02: issuer input unchanged");
  ENSURES(tls == NULL || bsnap_is(tls0, tls->array, tls->length), "c02: certificate input unchanged");
  drop_arr(r);
  NO_LEAK("c02: everything allocated during the call is released or handed out");
}

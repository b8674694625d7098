/* C04: sign_pledge_voucher_request (src/voucher/request.c) */
#include "voucher_stubs.h"

void harness(void) {
  g_k = nd_size();
  struct tm created; fill_tm(&created);
  char *serial = nd_bool() ? NULL : mk_str(SN + 8);
  struct BinaryArray *nonce = mk_arr_ptr(true), *tls = mk_arr_ptr(true), *cert = mk_arr_ptr(true), *key = mk_arr_ptr(true);
  struct BinaryArrayList *add = mk_list(true);
  struct bsnap nonce0 = {0}, tls0 = {0};
  if (nonce) nonce0 = snap_arr(nonce);
  if (tls) tls0 = snap_arr(tls);

  v_begin();
  struct BinaryArray *r = sign_pledge_voucher_request(&created, serial, nonce, tls, cert, key, add);
  v_end();
  if (r) { REACH("c04 signs"); } else { REACH("c04 refuses"); }
  if (r != NULL) {
    ENSURES(g_nsign == 1 && is_signed_result(r), "c04: the result is the signed pledge request");
    ENSURES(g_sign_cert == cert && g_sign_key == key && g_sign_certs == add, "c04: signed with the pledge's certificate, key and extra certificates");
    ENSURES(tm_eq(&g_signed.created_on, &created), "c04: created-on is the given time");
    ENSURES(g_signed.nonce.present == (nonce != NULL) && (nonce == NULL || bsnap_eq(g_signed.nonce, nonce0)), "c04: nonce is exactly the given nonce");
    ENSURES(g_signed.assertion == VOUCHER_ASSERTION_PROXIMITY, "c04: assertion is proximity");
    ENSURES(tls != NULL && g_signed.proximity.present && bsnap_eq(g_signed.proximity, tls0), "c04: proximity certificate is the registrar's TLS certificate");
    ENSURES(serial != NULL && g_signed.has_serial && str_eq(g_signed.serial, serial), "c04: serial-number is the given serial number");
    ENSURES(!g_signed.issuer.present && !g_signed.pinned.present && !g_signed.prior.present && !g_signed.revocation &&
            tm_zero(&g_signed.expires_on) && tm_zero(&g_signed.last_renewal_date), "c04: nothing else is asserted in the request");
  } else {
    bool all = serial != NULL && strlen(serial) < SN && (nonce == NULL || nonce0.len > 0) && tls != NULL && tls0.len > 0 && cert != NULL && key != NULL;
    ENSURES(!all || g_oom || g_depfail, "c04: complete inputs give a signed request");
  }
  ENSURES(nonce == NULL || bsnap_is(nonce0, nonce->array, nonce->length), "c04: nonce input unchanged");
  ENSURES(tls == NULL || bsnap_is(tls0, tls->array, tls->length), "c04: certificate input unchanged");
  drop_arr(r);
  NO_LEAK("c04: everything allocated during the call is released or handed out");
}

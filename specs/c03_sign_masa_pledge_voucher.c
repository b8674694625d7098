/* C03: sign_masa_pledge_voucher (src/voucher/request.c) */
#include "voucher_stubs.h"

/* the caller's callback: arbitrary behaviour; on failure it leaves no allocation
 * behind (documented callback contract) */
static int g_ncb; static bool g_cb_ok; static char g_cb_serial[SN];
static const struct BinaryArrayList *g_cb_certs; static void *g_cb_ctx;
static struct bsnap g_cb_pinned;
static int cb(const char *serial_number, const struct BinaryArrayList *additional_registrar_certs, void *user_ctx,
              struct BinaryArray *pinned_domain_cert) {
  PRE(serial_number != NULL, "callback: serial number given");
  PRE(WR_OK(pinned_domain_cert, sizeof *pinned_domain_cert), "callback: output writable");
  PRE(pinned_domain_cert->array == NULL && pinned_domain_cert->length == 0, "callback: output starts empty");
  g_ncb++;
  str_copy(g_cb_serial, serial_number);
  g_cb_certs = additional_registrar_certs; g_cb_ctx = user_ctx;
  g_cb_ok = nd_bool();
  if (!g_cb_ok) return -1;
  cal_arr(pinned_domain_cert);
  g_cb_pinned = snap_arr(pinned_domain_cert);
  return 0;
}

void harness(void) {
  g_k = nd_size();
  struct BinaryArray *cms = mk_arr_ptr(true);
  struct tm expires_v; fill_tm(&expires_v);
  struct tm *expires = nd_bool() ? NULL : &expires_v;
  bool has_cb = nd_bool();
  char ctx;
  struct BinaryArray *cert = mk_arr_ptr(true), *key = mk_arr_ptr(true);
  struct BinaryArrayList *rcerts = mk_list(true), *rstore = mk_list(true), *pcerts = mk_list(true), *pstore = mk_list(true), *add = mk_list(true);
  static char like[SN];
  fill_bytes(like, VSMALL_LEN);
  like[VSMALL_LEN] = '\0';
  g_like_serial = like; /* both requests may carry the same serial number */
  struct bsnap cms0 = {0};
  if (cms) cms0 = snap_arr(cms);

  v_begin();
  struct BinaryArray *r = sign_masa_pledge_voucher(cms, expires, has_cb ? cb : NULL, &ctx, cert, key, rcerts, rstore, pcerts, pstore, add);
  v_end();
  if (r) { REACH("c03 issues"); } else { REACH("c03 refuses"); }
  const struct vcall *a = &g_vc[0], *b = &g_vc[1];
  if (r != NULL) {
    ENSURES(g_nvc == 2 && !g_vc_overflow && a->ok && b->ok, "c03: issued only after both request signatures were verified");
    ENSURES(a->cms == cms && a->certs == rcerts && a->store == rstore, "c03: the registrar request was authenticated against the registrar trust anchors");
    ENSURES(a->v.prior.present && bsnap_eq(b->cms_snap, a->v.prior), "c03: the pledge request authenticated is the one embedded in the registrar request");
    ENSURES(b->certs == pcerts && b->store == pstore, "c03: the pledge request was authenticated against the pledge trust anchors");
    ENSURES(a->v.has_serial && b->v.has_serial && str_eq(a->v.serial, b->v.serial), "c03: both requests name the same serial number");
    ENSURES(g_ncb == 1 && g_cb_ok, "c03: issued only when the domain certificate decision succeeded");
    ENSURES(str_eq(g_cb_serial, b->v.serial) && g_cb_certs == a->out && g_cb_ctx == &ctx, "c03: the decision saw the pledge serial, the registrar's certificates and the caller's context");
    ENSURES(g_nsign == 1 && is_signed_result(r), "c03: the result is the signed voucher");
    ENSURES(g_sign_cert == cert && g_sign_key == key && g_sign_certs == add, "c03: signed with the MASA certificate, key and extra certificates");
    ENSURES(g_signed.nonce.present == a->v.nonce.present && bsnap_eq(g_signed.nonce, a->v.nonce), "c03: nonce is exactly the request's nonce");
    ENSURES(g_signed.assertion == VOUCHER_ASSERTION_PROXIMITY, "c03: assertion is proximity");
    ENSURES(g_signed.pinned.present && bsnap_eq(g_signed.pinned, g_cb_pinned), "c03: pinned-domain-cert is the decided certificate");
    ENSURES(g_signed.has_serial && str_eq(g_signed.serial, b->v.serial), "c03: serial-number is the pledge's");
    ENSURES(!g_signed.revocation, "c03: revocation checks are not demanded");
    ENSURES(expires != NULL && tm_eq(&g_signed.expires_on, &expires_v), "c03: expires-on is the given time");
    ENSURES(!g_signed.issuer.present && !g_signed.prior.present && !g_signed.proximity.present &&
            tm_zero(&g_signed.created_on) && tm_zero(&g_signed.last_renewal_date), "c03: nothing else is asserted in the voucher");
  } else {
    bool all = cms != NULL && expires != NULL && has_cb && cert != NULL && key != NULL && g_nvc == 2 && a->ok && b->ok &&
               a->same_serial && b->same_serial && a->v.prior.present && (g_ncb == 0 || (g_cb_ok && g_cb_pinned.present));
    ENSURES(!all || g_oom || g_depfail, "c03: requests meeting every condition get a voucher");
    ENSURES(cms == NULL || expires == NULL || !has_cb || g_nvc >= 1, "c03: the received request is examined");
    ENSURES(!(g_nvc == 1 && a->ok && a->v.has_serial && a->v.prior.present), "c03: the embedded pledge request is examined");
  }
  ENSURES(cms == NULL || bsnap_is(cms0, cms->array, cms->length), "c03: request input unchanged");
  drop_arr(r);
  NO_LEAK("c03: everything allocated during the call is released or handed out");
}

/* C01: verify_masa_pledge_voucher (src/voucher/request.c) */
#include "voucher_stubs.h"

void harness(void) {
  g_k = nd_size();
  /* requires */
  struct BinaryArray *cms = mk_arr_ptr(true);
  char *serial = nd_bool() ? NULL : mk_str(SN - 1);
  struct BinaryArray *nonce = mk_arr_ptr(true);
  struct BinaryArray *tls = mk_arr_ptr(false);
  struct BinaryArrayList *dstore = mk_list(true), *certs = mk_list(true), *store = mk_list(true);
  struct BinaryArrayList *out_certs = NULL;
  bool want = nd_bool();
  struct BinaryArray pinned = {0};
  g_like_nonce = nonce; g_like_serial = serial;

  struct bsnap nonce0 = {0}, tls0 = snap_arr(tls);
  if (nonce) nonce0 = snap_arr(nonce);
  const uint8_t *tls_arr0 = tls->array;

  v_begin();
  int r = verify_masa_pledge_voucher(cms, serial, nonce, tls, dstore, certs, store,
                                     want ? &out_certs : NULL, &pinned);
  v_end();
  REACH("c01 returns");
  if (r == 0) { REACH("c01 accepts"); } else { REACH("c01 rejects"); }

  ENSURES(r == 0 || r < 0, "c01: result is 0 or negative");
  if (r == 0) {
    const struct vcall *c = &g_vc[0];
    ENSURES(g_nvc == 1 && !g_vc_overflow && c->ok, "c01: accepted only a voucher whose signature was verified");
    ENSURES(c->cms == cms, "c01: the voucher that was authenticated is the one received");
    ENSURES(c->certs == certs && c->store == store, "c01: authenticated against the caller's MASA trust anchors");
    ENSURES(!want || c->want_out, "c01: signer certificates are handed out when asked for");
    ENSURES(!want || out_certs == c->out, "c01: signer certificate list is the voucher's");
    ENSURES(serial != NULL && c->v.has_serial && str_eq(c->v.serial, serial), "c01: accepted voucher carries the pledge's serial number");
    ENSURES(nonce == NULL || c->v.nonce.present, "c01: accepted voucher carries a nonce when one was sent");
    ENSURES(nonce == NULL || bsnap_eq(c->v.nonce, nonce0), "c01: accepted voucher echoes the nonce that was sent");
    ENSURES(c->v.pinned.present, "c01: accepted voucher has a pinned domain certificate");
    ENSURES(g_ncvc >= 1 && g_cvc_ok, "c01: accepted only after the registrar certificate check succeeded");
    ENSURES(g_cvc_cert == tls_arr0 && g_cvc_len == tls0.len, "c01: the certificate checked is the registrar's TLS certificate");
    ENSURES(g_cvc_one && bsnap_eq(g_cvc_int, c->v.pinned), "c01: checked against the pinned domain certificate");
    ENSURES(g_cvc_store == dstore, "c01: checked against the caller's domain trust store");
    ENSURES(pinned.length == c->v.pinned.len && pinned.array != NULL && RD_OK(pinned.array, pinned.length),
            "c01: output certificate is a live copy of the pinned certificate");
    ENSURES(bsnap_is(c->v.pinned, pinned.array, pinned.length), "c01: output certificate equals the pinned certificate");
  } else {
    ENSURES(pinned.array == NULL, "c01: no certificate is output on rejection");
    const struct vcall *c = &g_vc[0];
    bool all = serial != NULL && g_nvc >= 1 && c->ok && c->same_serial &&
               (nonce == NULL || c->same_nonce) && c->v.pinned.present &&
               (g_ncvc == 0 || g_cvc_ok) && tls->array != NULL;
    ENSURES(!all || g_oom || g_depfail, "c01: a voucher meeting every condition is accepted");
    ENSURES(cms == NULL || serial == NULL || g_nvc >= 1 || g_oom, "c01: the received voucher is examined");
  }
  /* frame */
  ENSURES(nonce == NULL || bsnap_is(nonce0, nonce->array, nonce->length), "c01: nonce input unchanged");
  ENSURES(tls->array == tls_arr0 && bsnap_is(tls0, tls->array, tls->length), "c01: registrar certificate input unchanged");
  /* ownership */
  if (pinned.array) free(pinned.array);
  if (g_nvc && g_vc[0].out) free(g_vc[0].out);
  NO_LEAK("c01: everything allocated during the call is released or handed out");
}

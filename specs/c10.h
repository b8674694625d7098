/* shared by the C10 units: an arbitrary voucher and its observable state */
#include "voucher_stubs.h"
#include "../lib/vstr.h"
enum { K_BOOL, K_TIME, K_ENUM, K_STR, K_ARR, K_NONE };
static inline int kind_of(int attr) {
  switch (attr) {
    case ATTR_CREATED_ON: case ATTR_EXPIRES_ON: case ATTR_LAST_RENEWAL_DATE: return K_TIME;
    case ATTR_ASSERTION: return K_ENUM;
    case ATTR_SERIAL_NUMBER: return K_STR;
    case ATTR_IDEVID_ISSUER: case ATTR_PINNED_DOMAIN_CERT: case ATTR_NONCE:
    case ATTR_PRIOR_SIGNED_VOUCHER_REQUEST: case ATTR_PROXIMITY_REGISTRAR_CERT: return K_ARR;
    case ATTR_DOMAIN_CERT_REVOCATION_CHECKS: return K_BOOL;
    default: return K_NONE;
  }
}
static inline struct Voucher *mk_voucher(void) {
  struct Voucher *v = cal_alloc(sizeof *v);
  fill_tm(&v->created_on);
  fill_tm(&v->expires_on);
  fill_tm(&v->last_renewal_date);
  v->assertion = (enum VoucherAssertions)(nd_u8() & 3);
  v->domain_cert_revocation_checks = nd_bool();
  v->serial_number = nd_bool() ? NULL : cal_cstr();
  cal_arr(&v->idevid_issuer);
  cal_arr(&v->pinned_domain_cert);
  cal_arr(&v->nonce);
  cal_arr(&v->prior_signed_voucher_request);
  cal_arr(&v->proximity_registrar_cert);
  return v;
}
struct vstate { struct Voucher raw; struct bsnap issuer, pinned, nonce, prior, proximity; char sk; };
/* the witness byte of the serial number (any length) */
static inline char serial_k(const struct Voucher *v) {
  if (v->serial_number == NULL) return 0;
  size_t n = str_len(v->serial_number);
  return v->serial_number[g_k <= n ? g_k : 0];
}
static inline struct vstate see(const struct Voucher *v) {
  struct vstate x;
  x.raw = *v;
  x.issuer = snap_arr(&v->idevid_issuer);
  x.pinned = snap_arr(&v->pinned_domain_cert);
  x.nonce = snap_arr(&v->nonce);
  x.prior = snap_arr(&v->prior_signed_voucher_request);
  x.proximity = snap_arr(&v->proximity_registrar_cert);
  x.sk = serial_k(v);
  return x;
}
static inline bool arr_same(const struct BinaryArray *a, const struct BinaryArray *raw, struct bsnap s) {
  return a->array == raw->array && a->length == raw->length && bsnap_is(s, a->array, a->length);
}
/* every attribute except `attr` (-1: every attribute) is exactly as before */
#define OTHERS_SAME(v, o, attr, what) do { \
  ENSURES((attr) == ATTR_CREATED_ON || tm_eq(&(v)->created_on, &(o)->raw.created_on), what " (created-on)"); \
  ENSURES((attr) == ATTR_EXPIRES_ON || tm_eq(&(v)->expires_on, &(o)->raw.expires_on), what " (expires-on)"); \
  ENSURES((attr) == ATTR_LAST_RENEWAL_DATE || tm_eq(&(v)->last_renewal_date, &(o)->raw.last_renewal_date), what " (last-renewal-date)"); \
  ENSURES((attr) == ATTR_ASSERTION || (v)->assertion == (o)->raw.assertion, what " (assertion)"); \
  ENSURES((attr) == ATTR_SERIAL_NUMBER || ((v)->serial_number == (o)->raw.serial_number && serial_k(v) == (o)->sk), what " (serial-number)"); \
  ENSURES((attr) == ATTR_IDEVID_ISSUER || arr_same(&(v)->idevid_issuer, &(o)->raw.idevid_issuer, (o)->issuer), what " (idevid-issuer)"); \
  ENSURES((attr) == ATTR_PINNED_DOMAIN_CERT || arr_same(&(v)->pinned_domain_cert, &(o)->raw.pinned_domain_cert, (o)->pinned), what " (pinned-domain-cert)"); \
  ENSURES((attr) == ATTR_DOMAIN_CERT_REVOCATION_CHECKS || (v)->domain_cert_revocation_checks == (o)->raw.domain_cert_revocation_checks, what " (revocation checks)"); \
  ENSURES((attr) == ATTR_NONCE || arr_same(&(v)->nonce, &(o)->raw.nonce, (o)->nonce), what " (nonce)"); \
  ENSURES((attr) == ATTR_PRIOR_SIGNED_VOUCHER_REQUEST || arr_same(&(v)->prior_signed_voucher_request, &(o)->raw.prior_signed_voucher_request, (o)->prior), what " (prior-signed-voucher-request)"); \
  ENSURES((attr) == ATTR_PROXIMITY_REGISTRAR_CERT || arr_same(&(v)->proximity_registrar_cert, &(o)->raw.proximity_registrar_cert, (o)->proximity), what " (proximity-registrar-cert)"); \
} while (0)

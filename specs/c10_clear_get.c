/* C10: clearing, reading and releasing, from an arbitrary voucher state */
#include "c10.h"

void harness(void) {
  g_k = nd_size();
  bool nv = nd_bool(), clear = nd_bool();
  struct Voucher *v = mk_voucher();
  struct vstate s0 = see(v);
  int attr = nd_int();
  int kind = kind_of(attr);
  enum VoucherAttributes at = (enum VoucherAttributes)attr;
  struct Voucher *arg = nv ? NULL : v;
  if (clear) {
    v_begin();
    int r = clear_attr_voucher(arg, at);
    v_end();
    ENSURES((r < 0) == nv, "c10: clearing fails only without a voucher");
    OTHERS_SAME(v, &s0, nv ? -1 : attr, "c10: clearing changes no other attribute");
    if (r == 0) {
      REACH("c10 cleared");
      if (kind == K_BOOL) ENSURES(!v->domain_cert_revocation_checks, "c10: the cleared boolean is false");
      else ENSURES(!is_attr_voucher_nonempty(v, at), "c10: a cleared attribute is absent");
      if (kind == K_STR) ENSURES(*get_attr_str_voucher(v, at) == NULL, "c10: a cleared serial number does not dangle");
      if (kind == K_ARR) ENSURES(get_attr_array_voucher(v, at)->array == NULL && get_attr_array_voucher(v, at)->length == 0, "c10: a cleared array does not dangle");
    }
  } else {
    v_begin();
    const bool *gb = get_attr_bool_voucher(arg, at);
    const struct tm *gt = get_attr_time_voucher(arg, at);
    const int *ge = get_attr_enum_voucher(arg, at);
    const char *const *gs = get_attr_str_voucher(arg, at);
    const struct BinaryArray *ga = get_attr_array_voucher(arg, at);
    bool p = is_attr_voucher_nonempty(v, at);
    v_end();
    ENSURES((gb != NULL) == (!nv && kind == K_BOOL) && (gt != NULL) == (!nv && kind == K_TIME) && (ge != NULL) == (!nv && kind == K_ENUM) &&
            (gs != NULL) == (!nv && kind == K_STR) && (ga != NULL) == (!nv && kind == K_ARR), "c10: a getter answers exactly for attributes of its kind");
    if (gb) ENSURES(*gb == s0.raw.domain_cert_revocation_checks, "c10: the boolean getter reads its attribute");
    if (gt) {
      REACH("c10 get time");
      const struct tm *w = attr == ATTR_CREATED_ON ? &s0.raw.created_on : attr == ATTR_EXPIRES_ON ? &s0.raw.expires_on : &s0.raw.last_renewal_date;
      ENSURES(tm_eq(gt, w), "c10: the time getter reads the attribute asked for");
      ENSURES(p == !tm_zero(w), "c10: a time is reported present exactly when it is");
    }
    if (ge) ENSURES(*ge == (int)s0.raw.assertion && p == (*ge != VOUCHER_ASSERTION_NONE), "c10: the assertion getter reads its attribute");
    if (gs) ENSURES(*gs == s0.raw.serial_number && p == (*gs != NULL), "c10: the serial number getter reads its attribute");
    if (ga) {
      REACH("c10 get array");
      const struct BinaryArray *w = attr == ATTR_IDEVID_ISSUER ? &s0.raw.idevid_issuer : attr == ATTR_PINNED_DOMAIN_CERT ? &s0.raw.pinned_domain_cert :
        attr == ATTR_NONCE ? &s0.raw.nonce : attr == ATTR_PRIOR_SIGNED_VOUCHER_REQUEST ? &s0.raw.prior_signed_voucher_request : &s0.raw.proximity_registrar_cert;
      ENSURES(ga->array == w->array && ga->length == w->length, "c10: the array getter reads the attribute asked for");
      ENSURES(p == !(w->array == NULL && w->length == 0), "c10: an array is reported present exactly when it is");
    }
    OTHERS_SAME(v, &s0, -1, "c10: reading changes nothing");
  }
  v_begin();
  struct Voucher *n = init_voucher();
  if (n != NULL) {
    bool any = false;
    for (int i = 0; i < 11; i++)
      any = any || (kind_of(i) != K_BOOL && is_attr_voucher_nonempty(n, (enum VoucherAttributes)i));
    ENSURES(!any && !n->domain_cert_revocation_checks, "c10: a new voucher has no attribute");
  } else ENSURES(g_oom, "c10: a new voucher is refused only for lack of memory");
  free_voucher(n);
  free_voucher(NULL);
  free_voucher(v);
  v_end();
  NO_LEAK("c10: releasing a voucher releases every value exactly once");
}

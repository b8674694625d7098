/* C10: every setter of one voucher attribute, from an arbitrary voucher state */
#include "c10.h"

void harness(void) {
  g_k = nd_size();
  bool nv = nd_bool();
  struct Voucher *v = mk_voucher();
  struct vstate s0 = see(v);
#if ATTR >= 0
  int attr = ATTR; /* one unit per attribute ... */
#else
  int attr = nd_int(); /* ... and one per setter for every attribute of another kind */
#endif
  int how = HOW; /* 0..4: the typed setter, 5: set_attr_voucher */
  struct tm t; fill_tm(&t);
  bool nt = nd_bool();
  int e = nd_int();
  bool b = nd_bool();
  struct BinaryArray *a = HOW != 4 && kind_of(attr) != K_ARR && kind_of(attr) != K_NONE ? NULL : mk_arr_ptr(true);
  struct bsnap a0 = {0};
  if (a) a0 = snap_arr(a);
  char *str = (HOW != 3 && kind_of(attr) != K_STR) || nd_bool() ? NULL : mk_cstr();
  size_t sl = 0;
  char strk = 0;
  if (str) { sl = str_len(str); strk = g_k <= sl ? str[g_k] : 0; }
  struct Voucher *arg = nv ? NULL : v;
  int kind = kind_of(attr), r;
#if ATTR < 0
  REQUIRES(kind != HOW);
#endif

  v_begin();
  switch (how) {
    case 0: r = set_attr_bool_voucher(arg, (enum VoucherAttributes)attr, b); break;
    case 1: r = set_attr_time_voucher(arg, (enum VoucherAttributes)attr, nt ? NULL : &t); break;
    case 2: r = set_attr_enum_voucher(arg, (enum VoucherAttributes)attr, e); break;
    case 3: r = set_attr_str_voucher(arg, (enum VoucherAttributes)attr, str); break;
    case 4: r = set_attr_array_voucher(arg, (enum VoucherAttributes)attr, a); break;
    default:
      switch (kind) {
        case K_BOOL: r = set_attr_voucher(arg, (enum VoucherAttributes)attr, (int)b); break;
        case K_TIME: r = set_attr_voucher(arg, (enum VoucherAttributes)attr, nt ? NULL : &t); break;
        case K_ENUM: r = set_attr_voucher(arg, (enum VoucherAttributes)attr, e); break;
        case K_STR: r = set_attr_voucher(arg, (enum VoucherAttributes)attr, str); break;
        default: r = set_attr_voucher(arg, (enum VoucherAttributes)attr, a); break;
      }
  }
  v_end();
  bool right = !nv && kind != K_NONE && (how >= 5 || how == kind);
  ENSURES(r == 0 || r < 0, "c10: a setter returns 0 or a negative value");
  OTHERS_SAME(v, &s0, right ? attr : -1, "c10: no other attribute is changed");
  if (r == 0) {
#if ATTR >= 0 && ATTR < 11
    REACH("c10 set");
#endif
    ENSURES(right, "c10: setting without a voucher or with the wrong kind of attribute is an error");
    if (!right) return;
    switch (kind) {
      case K_BOOL: {
        const bool *g = get_attr_bool_voucher(v, (enum VoucherAttributes)attr);
        ENSURES(g != NULL && *g == b, "c10: the boolean reads back as set");
        break;
      }
      case K_TIME: {
        const struct tm *g = get_attr_time_voucher(v, (enum VoucherAttributes)attr);
        ENSURES(!nt && g != NULL && g != &t && tm_eq(g, &t), "c10: the time reads back as set");
        ENSURES(tm_zero(&t) || is_attr_voucher_nonempty(v, (enum VoucherAttributes)attr), "c10: a set time is present");
        break;
      }
      case K_ENUM: {
        const int *g = get_attr_enum_voucher(v, (enum VoucherAttributes)attr);
        ENSURES(e >= VOUCHER_ASSERTION_VERIFIED && e <= VOUCHER_ASSERTION_PROXIMITY, "c10: an assertion outside the range is an error");
        ENSURES(g != NULL && *g == e, "c10: the assertion reads back as set");
        ENSURES(is_attr_voucher_nonempty(v, (enum VoucherAttributes)attr), "c10: a set assertion is present");
        break;
      }
      case K_STR: {
        const char *const *g = get_attr_str_voucher(v, (enum VoucherAttributes)attr);
        ENSURES(str != NULL && sl < SN, "c10: a missing or over-long serial number is an error");
        ENSURES(g != NULL && *g != NULL && *g != str && str != NULL && RD_OK(*g, sl + 1) && (*g)[sl] == 0 && (!(g_k <= sl) || (*g)[g_k] == strk), "c10: the serial number reads back as an independent equal copy");
        ENSURES(is_attr_voucher_nonempty(v, (enum VoucherAttributes)attr), "c10: a set serial number is present");
        break;
      }
      default: {
        const struct BinaryArray *g = get_attr_array_voucher(v, (enum VoucherAttributes)attr);
        ENSURES(a != NULL && a->array != NULL, "c10: an empty array is an error");
        ENSURES(g != NULL && a != NULL && g->array != a->array && RD_OK(g->array, g->length) && bsnap_is(a0, g->array, g->length), "c10: the array reads back as an independent equal copy");
        ENSURES(is_attr_voucher_nonempty(v, (enum VoucherAttributes)attr), "c10: a set array is present");
      }
    }
  } else {
    REACH("c10 refuses");
    bool good = right && (kind == K_BOOL || (kind == K_TIME && !nt) || (kind == K_ENUM && e >= 1 && e <= 3) ||
                          (kind == K_STR && str != NULL && sl < SN) || (kind == K_ARR && a != NULL && a->array != NULL));
    ENSURES(!good || g_oom, "c10: a valid value is refused only for lack of memory");
  }
  ENSURES(a == NULL || bsnap_is(a0, a->array, a->length), "c10: the given array is unchanged");
  ENSURES(str == NULL || !(g_k <= sl) || str[g_k] == strk, "c10: the given string is unchanged");
  v_begin();
  free_voucher(v);
  v_end();
  NO_LEAK("c10: a replaced value is released, and so is the whole voucher");
}

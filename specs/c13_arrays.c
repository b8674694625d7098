/* C13: copy_binary_array, compare_binary_array, free_binary_array*, init_binary_array, init_array_list */
#include "voucher_stubs.h"

static void h_copy(void) {
  struct BinaryArray *src = mk_arr_ptr(true);
  struct BinaryArray dst_v; struct BinaryArray *dst = nd_bool() ? NULL : &dst_v;
  dst_v.array = (uint8_t *)&dst_v; dst_v.length = 3; /* old content is not released by copying */
  struct bsnap s0 = {0};
  if (src) s0 = snap_arr(src);
  uint8_t *sa = src ? src->array : NULL;
  v_begin();
  int r = copy_binary_array(dst, src);
  v_end();
  if (r == 0) { REACH("copy succeeds"); } else { REACH("copy refuses"); }
  ENSURES(r == 0 || r < 0, "c13: copy result is 0 or negative");
  if (r == 0) {
    ENSURES(dst != NULL && src != NULL, "c13: copy of nothing is refused");
    ENSURES(dst_v.length == s0.len && bsnap_is(s0, dst_v.array, dst_v.length), "c13: copy equals its source");
    ENSURES(dst_v.array != sa && RD_OK(dst_v.array, dst_v.length), "c13: copy is independent of its source");
    free(dst_v.array);
  } else {
    ENSURES(dst == NULL || (dst_v.array == NULL && dst_v.length == 0) || src == NULL, "c13: a failed copy leaves an empty destination");
    ENSURES(dst == NULL || src == NULL || src->array == NULL || g_oom, "c13: copying succeeds unless there is nothing to copy or no memory");
  }
  if (src) ENSURES(src->array == sa && bsnap_is(s0, src->array, src->length), "c13: copy leaves its source unchanged");
  NO_LEAK("c13: copy leaks nothing");
}

static void h_compare(void) {
  struct BinaryArray *a = mk_arr_ptr(true), *b;
  bool same = false;
  if (a != NULL && a->array != NULL && nd_bool()) {
    b = mk_raw(sizeof *b);
    b->length = a->length;
    b->array = mk_raw(a->length);
    memcpy(b->array, a->array, a->length);
    same = true;
  } else b = mk_arr_ptr(true);
  struct bsnap a0 = {0}, b0 = {0};
  if (a) a0 = snap_arr(a);
  if (b) b0 = snap_arr(b);
  v_begin();
  int r = compare_binary_array(a, b);
  v_end();
  if (r == 1) { REACH("equal"); } else { REACH("different"); }
  if (a == NULL || b == NULL) { REACH("compare null"); ENSURES(r < 0, "c13: comparing with nothing is an error"); }
  else {
    ENSURES(r == 0 || r == 1, "c13: comparison result is 0 or 1");
    ENSURES(r != 1 || bsnap_eq(a0, b0), "c13: arrays reported equal have the same length and bytes");
    ENSURES(!same || r == 1, "c13: equal arrays are reported equal");
    ENSURES(bsnap_is(a0, a->array, a->length) && bsnap_is(b0, b->array, b->length), "c13: comparison changes nothing");
  }
}

static void h_alloc(void) {
  v_begin();
  struct BinaryArray *a = init_binary_array();
  struct BinaryArrayList *l = init_array_list();
  v_end();
  if (a) {
    REACH("init array");
    ENSURES(WR_OK(a, sizeof *a) && a->array == NULL && a->length == 0, "c13: a new array is empty");
    cal_arr(a);
    free_binary_array(a);
  } else ENSURES(g_oom, "c13: a new array is refused only without memory");
  if (l) {
    REACH("init list");
    ENSURES(WR_OK(l, sizeof *l) && l->list.next == &l->list && l->list.prev == &l->list && dl_list_len(&l->list) == 0, "c13: a new list is empty");
    free_array_list(l);
  } else ENSURES(g_oom, "c13: a new list is refused only without memory");
  struct BinaryArray c;
  cal_arr(&c);
  free_binary_array_content(&c);
  ENSURES(c.array == NULL && c.length == 0, "c13: a freed array is empty");
  free_binary_array_content(&c);
  free_binary_array_content(NULL);
  free_binary_array(NULL);
  free_array_list(NULL);
  NO_LEAK("c13: init and free leak nothing");
}

void harness(void) {
  g_k = nd_size();
  switch (nd_int()) {
    case 0: h_copy(); break;
    case 1: h_compare(); break;
    default: h_alloc(); break;
  }
}

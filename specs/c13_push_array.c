/* C13: push_array_list on a list of any length.
 *
 * Appending touches the list head and the last element only: the list is given as
 * head, optional first element, optional last element; everything between is an
 * opaque object without readable content, so touching it is a failed obligation. */
#include "voucher_stubs.h"

struct node { struct BinaryArrayList *el; uint8_t *arr; size_t len; int flags; struct bsnap s; struct dl_list *next, *prev; };
static struct BinaryArrayList *mknode(void) {
  struct BinaryArrayList *e = mk_raw(sizeof *e);
  e->length = mk_len();
  e->arr = mk_bytes(e->length);
  e->flags = nd_int();
  e->list.el = e;
  return e;
}
static struct node see(struct BinaryArrayList *e) {
  struct node n = {e, e->arr, e->length, e->flags, snap_bytes(e->arr, e->length), e->list.next, e->list.prev};
  return n;
}
static bool same_content(struct node n) {
  return n.el->arr == n.arr && n.el->length == n.len && n.el->flags == n.flags && n.el->list.el == n.el && bsnap_is(n.s, n.arr, n.len);
}

void harness(void) {
  g_k = nd_size();
  int n = nd_int();
  REQUIRES(n >= 0 && n <= 3); /* 0, 1, 2, or "3 or more" elements */
  struct BinaryArrayList *head = mk_raw(sizeof *head);
  head->arr = NULL; head->length = 0; head->flags = 0; head->list.el = head;
  struct BinaryArrayList *first = mknode(), *last = n <= 1 ? first : mknode();
  char *middle = mk_raw(1);
  if (n == 0) { head->list.next = head->list.prev = &head->list; }
  else {
    head->list.next = &first->list; head->list.prev = &last->list;
    first->list.prev = &head->list; last->list.next = &head->list;
    if (n == 2) { first->list.next = &last->list; last->list.prev = &first->list; }
    if (n == 3) { first->list.next = (struct dl_list *)middle; last->list.prev = (struct dl_list *)middle; }
  }
  struct node f0 = see(first), l0 = see(last);
  bool nl = nd_bool(), na = nd_bool();
  size_t len = mk_len();
  int flags = nd_int();
  uint8_t *arr = mk_bytes(len);
  struct bsnap a0 = snap_bytes(arr, len);
  v_begin();
  int r = push_array_list(nl ? NULL : head, na ? NULL : arr, len, flags);
  v_end();
  ENSURES(r == 0 || r < 0, "c13: append result is 0 or negative");
  if (r == 0) {
    REACH("append succeeds");
    ENSURES(!nl && !na, "c13: appending to or of nothing is refused");
    struct BinaryArrayList *e = head->list.prev->el;
    ENSURES(&e->list == head->list.prev && e != head && (n == 0 || (e != first && e != last)), "c13: a new element is at the end");
    ENSURES(e->list.next == &head->list, "c13: the new element ends the list");
    ENSURES(e->list.prev == (n == 0 ? &head->list : &last->list), "c13: the new element follows the former last one");
    ENSURES(n == 0 ? head->list.next == &e->list : last->list.next == &e->list, "c13: the former last element leads to the new one");
    ENSURES(n == 0 || head->list.next == &first->list, "c13: the first element stays first");
    ENSURES(e->length == len && e->flags == flags && e->list.el == e, "c13: the element has the given length and flags");
    ENSURES(e->arr != arr && RD_OK(e->arr, len) && bsnap_is(a0, e->arr, e->length), "c13: the element is an independent copy of the given bytes");
    free(e->arr); free(e);
  } else {
    REACH("append refused");
    ENSURES(nl || na || g_oom, "c13: append is refused only for missing arguments or memory");
    ENSURES(n == 0 ? head->list.next == &head->list && head->list.prev == &head->list
                   : head->list.next == &first->list && head->list.prev == &last->list && last->list.next == &head->list,
            "c13: a refused append leaves the list as it was");
  }
  ENSURES(same_content(f0) && same_content(l0), "c13: elements already there are unchanged");
  ENSURES(n == 0 || first->list.prev == f0.prev, "c13: the order of the elements is unchanged");
  ENSURES(n < 2 || (first->list.next == f0.next && last->list.prev == l0.prev), "c13: the links between the elements are unchanged");
  ENSURES(bsnap_is(a0, arr, len), "c13: the appended bytes are unchanged");
  NO_LEAK("c13: append leaks nothing");
}

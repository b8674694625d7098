/* the pointer list of crypto_ossl.c: init_ptr_list, and push_ptr_list on a list of any length
 * (head, optional first and last element; what is between is opaque, touching it fails) */
#include "ossl.h"
struct ptr_list { void *ptr; int flags; struct dl_list list; };
struct ptr_list *init_ptr_list(void);
int push_ptr_list(struct ptr_list *l, void *const ptr, const int flags);
static int obj[3];
static struct ptr_list *mknode(void *p) {
  struct ptr_list *e = mk_raw(sizeof *e);
  e->ptr = p; e->flags = nd_int(); e->list.el = e;
  return e;
}
void harness(void) {
  v_begin();
  struct ptr_list *l = init_ptr_list();
  v_end();
  ENSURES(l != NULL || g_oom, "ptr_list: creating fails only without memory");
  if (l != NULL) {
    REACH("ptr_list created");
    ENSURES(l->ptr == NULL && l->list.next == &l->list && l->list.prev == &l->list && l->list.el == l, "ptr_list: a new list is empty");
    free(l);
  }
  NO_LEAK("ptr_list: creating leaks nothing");
  int n = nd_int();
  REQUIRES(n >= 0 && n <= 3); /* 0, 1, 2, or "3 or more" elements */
  struct ptr_list *head = mknode(NULL), *first = mknode(&obj[0]), *last = n <= 1 ? first : mknode(&obj[1]);
  char *middle = mk_raw(1);
  if (n == 0) { head->list.next = head->list.prev = &head->list; }
  else {
    head->list.next = &first->list; head->list.prev = &last->list;
    first->list.prev = &head->list; last->list.next = &head->list;
    if (n == 2) { first->list.next = &last->list; last->list.prev = &first->list; }
    if (n == 3) { first->list.next = (struct dl_list *)middle; last->list.prev = (struct dl_list *)middle; }
  }
  struct ptr_list f0 = *first, l0 = *last;
  bool nl = nd_bool(), np = nd_bool();
  int flags = nd_int();
  v_begin();
  int r = push_ptr_list(nl ? NULL : head, np ? NULL : &obj[2], flags);
  v_end();
  if (r == 0) {
    REACH("ptr_list pushed");
    ENSURES(!nl && !np, "ptr_list: pushing to or of nothing is refused");
    struct ptr_list *e = head->list.prev->el;
    ENSURES(&e->list == head->list.prev && e != head && (n == 0 || (e != first && e != last)), "ptr_list: a new element is at the end");
    ENSURES(e->list.next == &head->list && e->list.prev == (n == 0 ? &head->list : &last->list), "ptr_list: it follows the former last one");
    ENSURES(n == 0 ? head->list.next == &e->list : last->list.next == &e->list && head->list.next == &first->list, "ptr_list: the others lead to it");
    ENSURES(e->ptr == &obj[2] && e->flags == flags && e->list.el == e, "ptr_list: it holds the pointer and the flags given");
    free(e);
  } else {
    REACH("ptr_list refused");
    ENSURES(nl || np || g_oom, "ptr_list: pushing is refused only for missing arguments or memory");
    ENSURES(n == 0 ? head->list.next == &head->list && head->list.prev == &head->list
                   : head->list.next == &first->list && head->list.prev == &last->list && last->list.next == &head->list, "ptr_list: a refused push leaves the list as it was");
  }
  ENSURES(first->ptr == f0.ptr && first->flags == f0.flags && last->ptr == l0.ptr && last->flags == l0.flags, "ptr_list: elements already there are unchanged");
  ENSURES(n == 0 || first->list.prev == f0.list.prev, "ptr_list: the order is unchanged");
  ENSURES(n < 2 || (first->list.next == f0.list.next && last->list.prev == l0.list.prev), "ptr_list: the links between are unchanged");
  NO_LEAK("ptr_list: pushing leaks nothing");
}

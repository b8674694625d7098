/* C13: push_keyvalue_list on a list of any length, keys and values of any length */
#include "voucher_stubs.h"
#include "../lib/vstr.h"
#include "/repo/src/voucher/keyvalue.h"

/* contract of sys_strdup / sys_strndup, proved of the real functions in unit
 * c13_strdup: NULL when memory is refused, else a fresh copy of exactly the string */
char *sys_strndup(const char *const s, const size_t length) {
  if (s == NULL) return NULL;
  size_t n = str_len(s);
  PRE(length == n, "sys_strndup: length is the string's length");
  if (nd_bool()) { g_oom = true; return NULL; }
  char *d = cal_alloc(n + 1);
  memcpy(d, s, n);
  d[n] = 0;
  return d;
}
char *sys_strdup(const char *const s) { return sys_strndup(s, str_len(s)); }

/* existing pairs: their key and value are opaque one-byte objects, so that any
 * change of a key or value pointer or byte is seen */
static struct keyvalue_list *mknode(void) {
  struct keyvalue_list *e = mk_raw(sizeof *e);
  e->key = (char *)mk_bytes(1); e->value = (char *)mk_bytes(1);
  e->list.el = e;
  return e;
}
struct node { struct keyvalue_list *el; char *key, *value; char kk, vk; struct dl_list *next, *prev; };
static char at(const char *s, size_t n) { return g_k <= n ? s[g_k] : 0; }
static struct node see(struct keyvalue_list *e) {
  struct node n = {e, e->key, e->value, e->key[0], e->value[0], e->list.next, e->list.prev};
  return n;
}
static bool same_content(struct node n) {
  return n.el->key == n.key && n.el->value == n.value && n.el->list.el == n.el &&
         n.key[0] == n.kk && n.value[0] == n.vk;
}
static bool is_copy(const char *c, const char *s, size_t n, char atk) {
  return c != s && RD_OK(c, n + 1) && c[n] == 0 && (!(g_k < n) || c[g_k] == atk);
}

void harness(void) {
  g_k = nd_size();
  int n = nd_int();
  REQUIRES(n >= 0 && n <= 3); /* 0, 1, 2, or "3 or more" elements, see c13_push_array.c */
  struct keyvalue_list *head = mk_raw(sizeof *head);
  head->key = head->value = NULL; head->list.el = head;
  struct keyvalue_list *first = mknode(), *last = n <= 1 ? first : mknode();
  char *middle = mk_raw(1);
  if (n == 0) { head->list.next = head->list.prev = &head->list; }
  else {
    head->list.next = &first->list; head->list.prev = &last->list;
    first->list.prev = &head->list; last->list.next = &head->list;
    if (n == 2) { first->list.next = &last->list; last->list.prev = &first->list; }
    if (n == 3) { first->list.next = (struct dl_list *)middle; last->list.prev = (struct dl_list *)middle; }
  }
  struct node f0 = see(first), l0 = see(last);
  bool nl = nd_bool(), nk = nd_bool(), nv = nd_bool();
  char *key = mk_cstr(), *val = mk_cstr();
  size_t kn = str_len(key), vn = str_len(val);
  char kk = at(key, kn), vk = at(val, vn);
  v_begin();
  int r = push_keyvalue_list(nl ? NULL : head, nk ? NULL : key, nv ? NULL : val);
  v_end();
  ENSURES(r == 0 || r < 0, "c13: key-value append result is 0 or negative");
  if (r == 0) {
    REACH("kv append succeeds");
    ENSURES(!nl && !nk && !nv, "c13: appending a pair without list, key or value is refused");
    struct keyvalue_list *e = head->list.prev->el;
    ENSURES(&e->list == head->list.prev && e != head && (n == 0 || (e != first && e != last)), "c13: a new pair is at the end");
    ENSURES(e->list.next == &head->list && e->list.prev == (n == 0 ? &head->list : &last->list), "c13: the new pair follows the former last one and ends the list");
    ENSURES(n == 0 ? head->list.next == &e->list : last->list.next == &e->list && head->list.next == &first->list, "c13: the existing pairs lead to the new one");
    ENSURES(is_copy(e->key, key, kn, kk), "c13: the key is an independent equal copy");
    ENSURES(is_copy(e->value, val, vn, vk), "c13: the value is an independent equal copy");
    free(e->key); free(e->value); free(e);
  } else {
    REACH("kv append refused");
    ENSURES(nl || nk || nv || g_oom, "c13: a pair is refused only for missing arguments or memory");
    ENSURES(n == 0 ? head->list.next == &head->list && head->list.prev == &head->list
                   : head->list.next == &first->list && head->list.prev == &last->list && last->list.next == &head->list,
            "c13: a refused pair leaves the list as it was");
  }
  ENSURES(same_content(f0) && same_content(l0), "c13: pairs already there are unchanged");
  ENSURES(n == 0 || first->list.prev == f0.prev, "c13: the order of the pairs is unchanged");
  ENSURES(n < 2 || (first->list.next == f0.next && last->list.prev == l0.prev), "c13: the links between the pairs are unchanged");
  ENSURES(at(key, kn) == kk && at(val, vn) == vk, "c13: the appended key and value are unchanged");
  NO_LEAK("c13: key-value append leaks nothing");
}

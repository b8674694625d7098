/* the pointer list of crypto_ossl.c: init_ptr_list, push_ptr_list, free_ptr_list */
#include "ossl.h"
struct ptr_list { void *ptr; int flags; struct dl_list list; };
struct ptr_list *init_ptr_list(void);
int push_ptr_list(struct ptr_list *l, void *const ptr, const int flags);
void free_ptr_list(struct ptr_list *l, void (*cb)(void *, const int));
#define NP 3
static int obj[NP], n_cb[NP];
static const int flag_of[NP] = {5, 7, 9};
static bool flags_ok = true;
static void cb(void *p, const int f) {
  for (int i = 0; i < NP; i++)
    if (p == (void *)&obj[i]) { n_cb[i]++; if (f != flag_of[i]) flags_ok = false; }
}
void harness(void) {
  v_begin();
  struct ptr_list *l = init_ptr_list();
  int n = 0;
  bool ok = true, bad = false;
  if (l != NULL) {
    int want = (int)(nd_u8() & 3);
    for (int i = 0; i < NP; i++)
      if (i < want && ok) {
        bool oom0 = g_oom;
        g_oom = false;
        if (push_ptr_list(l, &obj[i], flag_of[i]) == 0) n++;
        else { ok = false; if (!g_oom) bad = true; }
        g_oom = g_oom || oom0;
      }
    if (push_ptr_list(l, NULL, 0) == 0) bad = true;
    free_ptr_list(l, cb);
  }
  v_end();
  if (n == NP) { REACH("ptr_list three"); }
  ENSURES(!bad, "ptr_list: a push fails only without memory or pointer");
  for (int i = 0; i < NP; i++) ENSURES(n_cb[i] == (i < n ? 1 : 0), "ptr_list: freeing hands every pushed pointer to the callback exactly once");
  ENSURES(flags_ok, "ptr_list: with its own flags");
  NO_LEAK("ptr_list: freeing releases every element");
}

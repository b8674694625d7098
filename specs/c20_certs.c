/* C20: load_cert_files, lists of any length: the certificates of the configured files, in order */
#include "c20.h"
#include "/repo/src/voucher/crypto.h"
#if defined(VCBMC) && !defined(VSMALL)
#define W
#endif
#ifdef W
size_t g_i, g_n;
struct BinaryArrayList g_node, g_head;
const uint8_t *g_wa; size_t g_wl; int g_wf;
uint8_t *g_oa; size_t g_oal, g_ol;
/* the certificate handed out last: 1 of entry g_k, 2 of another entry */
static struct BinaryArray g_cw, g_co;
int g_lend;
size_t g_ls_n; bool g_ls_ok; static int g_ls_live;
static struct BinaryArrayList g_out;
bool v_lend_free(const void *p) { return false; }
/* contract of file_to_x509buf (C22) */
struct BinaryArray *file_to_x509buf(const char *name) {
  PRE(g_lend == 0, "the certificate before is released");
  PRE(name == (const char *)g_node.arr, "the certificate loaded is the one of the entry");
  if (nd_bool()) { g_depfail = true; return NULL; }
  g_lend = g_i - 1 == g_k ? 1 : 2;
  return g_lend == 1 ? &g_cw : &g_co;
}
void spec_free_binary_array(struct BinaryArray *a) {
  if (a == NULL) return;
  PRE(a == (g_lend == 1 ? &g_cw : &g_co) && g_lend != 0, "the certificate released is the one loaded");
  g_lend = 0;
}
/* contracts of the array list, proved of the real functions under C13 */
struct BinaryArrayList *spec_init_array_list(void) {
  if (nd_bool()) { g_oom = true; return NULL; }
  g_ls_live = 1;
  return &g_out;
}
int spec_push_array_list(struct BinaryArrayList *l, uint8_t *const arr, const size_t length, const int flags) {
  PRE(l == &g_out && g_ls_live && RD_OK(arr, length), "push_array_list to a live list");
  if (nd_bool()) { g_oom = true; return -1; }
  if (g_ls_n == g_k) g_ls_ok = g_lend == 1 && arr == g_cw.array && length == g_cw.length && flags == 0;
  g_ls_n++;
  return 0;
}
void spec_free_array_list(struct BinaryArrayList *l) {
  if (l == NULL) return;
  PRE(l == &g_out && g_ls_live, "free_array_list of a live list");
  g_ls_live = 0;
}
unsigned int spec_len(struct dl_list *l) { PRE(l == &g_head.list, "the length of the list given"); return (unsigned int)g_n; }
#else
#define NC 2
static int g_fail; /* the entry whose certificate cannot be loaded */
extern size_t g_plan, g_seq; /* the allocation refused */
static char g_name[NC][2];
static uint8_t g_cert[NC][2];
static size_t g_clen[NC];
struct BinaryArray *file_to_x509buf(const char *name) {
  for (int i = 0; i < NC; i++)
    if (name[0] == g_name[i][0]) {
      if (i == g_fail) { g_depfail = true; return NULL; }
      struct BinaryArray *b = cal_alloc(sizeof *b);
      b->length = g_clen[i];
      b->array = cal_alloc(g_clen[i]);
      memcpy(b->array, g_cert[i], g_clen[i]);
      return b;
    }
  PRE(false, "the certificate loaded is the one of an entry");
  return NULL;
}
#endif
static void run(int n_, int fail_) {
  struct BinaryArrayList *out = NULL, *in;
#ifdef W
  g_n = nd_size(); g_i = 0; g_ls_n = 0; g_ls_ok = false; g_ls_live = 0; g_lend = 0;
  REQUIRES(g_n <= 0x7fffffff);
  g_wl = mk_len(); g_wa = mk_raw(g_wl + 1); g_wf = nd_int();
  g_oal = mk_len(); g_oa = mk_raw(g_oal + 1);
  g_cw.length = mk_len(); g_cw.array = mk_raw(g_cw.length);
  g_co.length = mk_len(); g_co.array = mk_raw(g_co.length);
  g_head.arr = NULL; g_head.length = 0; g_head.flags = 0; g_head.list.el = &g_head;
  g_head.list.next = g_n > 0 ? &g_node.list : &g_head.list; g_head.list.prev = g_head.list.next;
  g_node.list.el = &g_node; g_node.list.next = g_node.list.prev = &g_head.list;
  in = nd_bool() ? NULL : &g_head;
  size_t n = in == NULL ? 0 : g_n;
#else
  static struct BinaryArrayList head, node[NC];
  int n = n_;
  g_fail = fail_;
  head.list.el = &head; head.list.next = head.list.prev = &head.list;
  for (int i = 0; i < NC; i++) {
    g_name[i][0] = (char)('a' + i); g_name[i][1] = 0;
    g_clen[i] = 1 + i; g_cert[i][0] = nd_u8(); g_cert[i][1] = nd_u8();
    node[i].list.el = &node[i]; node[i].arr = (uint8_t *)g_name[i]; node[i].length = 2;
    if (i < n) dl_list_add_tail(&head.list, &node[i].list, &node[i]);
  }
  in = n < 0 ? NULL : &head;
  if (in == NULL) n = 0;
#endif
  v_begin();
  int r = load_cert_files(in, &out);
  v_end();
  if (r == 0) {
    ENSURES(!g_depfail && !g_oom, "c20: any failure to load a certificate is reported");
    if (n == 0) { REACH("c20 certs none"); ENSURES(out == NULL, "c20: no certificates configured, no list"); }
#ifdef W
    else {
      REACH("c20 certs loaded");
      ENSURES(out == &g_out && g_ls_live, "c20: the list made is handed out");
      ENSURES(g_ls_n == n, "c20: as many certificates as configured");
      ENSURES(!(g_k < n) || g_ls_ok, "c20: each certificate is the one of its entry, in order");
    }
#else
    else {
      REACH("c20 certs loaded");
      ENSURES(out != NULL, "c20: the list made is handed out");
      if (out == NULL) return;
      const struct dl_list *p = out->list.next;
      for (int i = 0; i < NC; i++) {
        if (i >= n) continue;
        ENSURES(p != &out->list, "c20: as many certificates as configured");
        if (p == &out->list) continue;
        const struct BinaryArrayList *el = (const struct BinaryArrayList *)p->el;
        ENSURES(el->arr != NULL && el->length == g_clen[i] && el->arr[0] == g_cert[i][0] && (g_clen[i] < 2 || el->arr[1] == g_cert[i][1]), "c20: each certificate is the one of its entry, in order");
        p = p->next;
      }
      ENSURES(p == &out->list, "c20: no more certificates than configured");
      free_array_list(out);
    }
#endif
  } else {
    REACH("c20 certs refused");
    ENSURES(r < 0 && (g_depfail || g_oom), "c20: a failure has a cause");
    ENSURES(out == NULL, "c20: a failure leaves no list");
#ifdef W
    ENSURES(!g_ls_live, "c20: a failure releases the list");
#endif
  }
#ifdef W
  ENSURES(g_lend == 0, "c20: every certificate loaded is released");
#endif
  NO_LEAK("c20: loading certificates leaks nothing");
}

void harness(void) {
  g_k = nd_size();
#ifdef W
  run(0, 0);
#else
  /* no list, no entries, one, two; one certificate or one allocation refused, or none */
  static const int n[] = {-1, 0, 1, 2, 2, 2, 2, 2, 2, 2}, fail[] = {-1, -1, -1, -1, 0, 1, -1, -1, -1, -1}, plan[] = {-1, -1, -1, -1, -1, -1, 0, 1, 3, 4};
  int which = nd_int();
  for (int a = 0; a < 10; a++)
    if (which == a) {
#ifdef VCBMC
      g_seq = 0; g_plan = (size_t)plan[a];
#endif
      run(n[a], fail[a]);
    }
#endif
}

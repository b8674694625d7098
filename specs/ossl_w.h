/* Witness contracts of the OpenSSL containers, for loops over lists of any length
 * (included by ossl.h when OSSL_W is defined).
 *
 * The list under way has g_n entries; entry g_k (arbitrary) is the witness: its
 * decoded object is g_W, all other entries decode to g_O.  Containers record how
 * many entries they hold and which object entry g_k is.  Since g_k is arbitrary,
 * what is shown of entry g_k holds of every entry.
 *
 * The list itself is materialised one entry at a time: a single node whose content
 * is chosen anew by the ghost step at the head of the loop body and which links
 * either to itself or, after the last entry, to the list head. */
static struct x509_st v_W, v_O;
static struct X509_crl_st v_Wc, v_Oc;
void *g_W = &v_W, *g_Wc = &v_Wc;
int g_w_ref, g_c_ref;          /* references to the witness certificate, revocation list */
bool g_w_ok;                   /* the witness was decoded from exactly entry g_k */
size_t g_i, g_n;               /* entries begun, entries of the list */
struct BinaryArrayList g_node, g_head;
const uint8_t *g_wa; size_t g_wl; int g_wf; /* entry g_k */
uint8_t *g_oa; size_t g_oal, g_ol; /* bytes of the other entries: any content, read-only */
/* the container being filled */
size_t g_ct_n; void *g_ct_k; int g_ct_kind;
static struct stack_st v_stack;
static struct x509_store_st v_store;
int g_ct_live;

#define IS_W ((g_i - 1) == g_k && g_i > 0)
X509 *d2i_X509(X509 **a, const unsigned char **pp, long len) {
  PRE(a == NULL || *a == NULL, "d2i_X509 makes a new object");
  PRE(len <= 0 || RD_OK(*pp, (size_t)len), "d2i_X509 reads inside its input");
  if (len <= 0) { g_depfail = true; return NULL; }
  if (lib_fails()) return NULL;
  X509 *x = IS_W ? &v_W : &v_O;
  if (IS_W) { g_w_ref++; g_w_ok = *pp == g_wa && (size_t)len == g_wl; }
  *pp += len;
  if (a) *a = x;
  return x;
}
X509_CRL *d2i_X509_CRL(X509_CRL **a, const unsigned char **pp, long len) {
  PRE(a == NULL || *a == NULL, "d2i_X509_CRL makes a new object");
  PRE(len <= 0 || RD_OK(*pp, (size_t)len), "d2i_X509_CRL reads inside its input");
  if (len <= 0) { g_depfail = true; return NULL; }
  if (lib_fails()) return NULL;
  X509_CRL *x = IS_W ? &v_Wc : &v_Oc;
  if (IS_W) { g_c_ref++; g_w_ok = *pp == g_wa && (size_t)len == g_wl; }
  *pp += len;
  if (a) *a = x;
  return x;
}
int X509_up_ref(X509 *x) { if (x == &v_W) g_w_ref++; return 1; }
void X509_free(X509 *x) {
  if (x == NULL) return;
  PRE(x == &v_W || x == &v_O, "X509_free of a certificate");
  if (x == &v_W) { PRE(g_w_ref > 0, "X509_free of a live certificate"); g_w_ref--; }
}
void X509_CRL_free(X509_CRL *x) {
  if (x == NULL) return;
  PRE(x == &v_Wc || x == &v_Oc, "X509_CRL_free of a revocation list");
  if (x == &v_Wc) { PRE(g_c_ref > 0, "X509_CRL_free of a live list"); g_c_ref--; }
}
static void w_put(void *d, int kind) {
  if (g_ct_n == g_k) { g_ct_k = d; g_ct_kind = kind; }
  g_ct_n++;
}
OPENSSL_STACK *OPENSSL_sk_new_null(void) {
  if (lib_fails()) return NULL;
  PRE(!g_ct_live, "one stack");
  g_ct_live = 1;
  return &v_stack;
}
int OPENSSL_sk_push(OPENSSL_STACK *s, const void *d) {
  if (s == NULL) return 0;
  PRE(s == &v_stack && g_ct_live, "sk_push to a live stack");
  if (lib_fails()) return 0;
  w_put((void *)d, 0);
  return 1; /* the new size is not used */
}
int OPENSSL_sk_num(const OPENSSL_STACK *s) {
  if (s == NULL) return -1;
  PRE(s == &v_stack && g_ct_live, "sk_num of a live stack");
  return (int)g_ct_n;
}
void *OPENSSL_sk_value(const OPENSSL_STACK *s, int i) {
  if (s == NULL || i < 0 || (size_t)i >= g_ct_n) return NULL;
  PRE(s == &v_stack && g_ct_live, "sk_value of a live stack");
  return (size_t)i == g_k ? (void *)&v_W : (void *)&v_O;
}
void OPENSSL_sk_free(OPENSSL_STACK *s) {
  if (s == NULL) return;
  PRE(s == &v_stack && g_ct_live, "sk_free of a live stack");
  g_ct_live = 0;
}
void OPENSSL_sk_pop_free(OPENSSL_STACK *s, OPENSSL_sk_freefunc f) {
  if (s == NULL) return;
  PRE(s == &v_stack && g_ct_live && (void *)f == (void *)X509_free, "sk_pop_free of a live stack of certificates");
  if (g_ct_n > g_k) X509_free((X509 *)g_ct_k);
  g_ct_live = 0;
}
X509_STORE *X509_STORE_new(void) {
  if (lib_fails()) return NULL;
  PRE(!g_ct_live, "one store");
  g_ct_live = 1;
  return &v_store;
}
int X509_STORE_add_cert(X509_STORE *s, X509 *x) {
  PRE(s == &v_store && g_ct_live && (x == &v_W || x == &v_O), "X509_STORE_add_cert of live objects");
  if (lib_fails()) return 0;
  if (x == &v_W) { PRE(g_w_ref > 0, "X509_STORE_add_cert of a live certificate"); g_w_ref++; }
  w_put(x, 1);
  return 1;
}
int X509_STORE_add_crl(X509_STORE *s, X509_CRL *x) {
  PRE(s == &v_store && g_ct_live && (x == &v_Wc || x == &v_Oc), "X509_STORE_add_crl of live objects");
  if (lib_fails()) return 0;
  if (x == &v_Wc) { PRE(g_c_ref > 0, "X509_STORE_add_crl of a live list"); g_c_ref++; }
  w_put(x, 2);
  return 1;
}
void X509_STORE_free(X509_STORE *s) {
  if (s == NULL) return;
  PRE(s == &v_store && g_ct_live, "X509_STORE_free of a live store");
  if (g_ct_n > g_k) {
    if (g_ct_kind == 1) X509_free((X509 *)g_ct_k);
    else X509_CRL_free((X509_CRL *)g_ct_k);
  }
  g_ct_live = 0;
}
/* the list of any length: its first node */
static struct BinaryArrayList *w_list(void) {
  g_i = 0; g_w_ref = g_c_ref = 0; g_w_ok = false;
  g_ct_n = 0; g_ct_k = NULL; g_ct_live = 0;
  g_W = &v_W; g_Wc = &v_Wc;
  g_n = nd_size();
  g_wl = mk_len(); g_wf = nd_int();
  g_wa = mk_bytes(g_wl);
  g_oal = mk_len();
  g_oa = mk_raw(g_oal);
  g_node.list.el = &g_node; g_head.list.el = &g_head;
  g_head.list.next = g_n > 0 ? &g_node.list : &g_head.list;
  return &g_head;
}

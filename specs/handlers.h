/* Contracts of the C functions the service handlers call, each proved of the real function
 * by the units of its own property: loading certificates and keys (C22, C20), base64 (C09),
 * times (C21).  Objects and texts are known by identity: which file an object was loaded
 * from, which object a text is the base64 form of, which text an array was decoded from. */
#include "../lib/vcxx.h"
#include <time.h>
#include "/repo/src/voucher/array.h"
#include "/repo/src/voucher/crypto.h"
#include "/repo/src/voucher/keyvalue.h"
#include "/repo/src/voucher/serialize.h"
#include "/repo/src/voucher/voucher.h"
#include "/repo/src/brski/config.h"
struct vpair { struct vstring first, second; };
struct HttpResponse { struct vstring response; CRYPTO_CERT peer_certificate; };
static int same_text(const char *a, const char *b) { size_t i; for (i = 0; a[i] != 0 && a[i] == b[i]; i++) ; return a[i] == b[i]; }
/* texts */
enum { T_REQ, T_OUT, T_ANS, T_PIN, T_CERT, T_NONCE, T_SERIAL, T_ANS0, NT };
static char *g_chars[NT], *g_own[NT]; /* the characters given or made; the string's own copy */
static size_t g_tlen[NT];
static char g_tid[NT];
static char *text(size_t n) {
  char *p = mk_raw(n + 1);
#ifndef VCBMC
  for (size_t i = 0; i < n; i++) p[i] = 'x';
#endif
  p[n] = 0;
  return p;
}
static void mk_text(int t) {
  g_tlen[t] = mk_len();
#ifndef VCBMC
  g_tlen[t] &= 63;
#endif
  g_own[t] = text(g_tlen[t]);
  g_chars[t] = g_own[t];
}
/* the same text in memory of the code's own (released with its owner) */
static char *mk_cal(int t) {
  char *p = malloc(g_tlen[t] + 1);
  REQUIRES(p != NULL);
#ifndef VCBMC
  for (size_t i = 0; i < g_tlen[t]; i++) p[i] = 'x';
#endif
  p[g_tlen[t]] = 0;
  return p;
}
const void *v_text(const char *s) {
  for (int t = 0; t < NT; t++)
    if ((g_chars[t] != NULL && s == g_chars[t]) || (g_own[t] != NULL && s == g_own[t])) return &g_tid[t];
  return s[0] == 0 ? NULL : s;
}
const char *v_chars(const void *id) {
  for (int t = 0; t < NT; t++) if (id == &g_tid[t]) return g_own[t];
  return id;
}
static size_t lit_len(const char *s) { size_t n; for (n = 0; s[n] != 0; n++) ; return n; }
size_t v_textlen(const void *id) {
  if (id == NULL) return 0;
  for (int t = 0; t < NT; t++) if (id == &g_tid[t]) return g_tlen[t];
  return lit_len(id);
}
#ifdef VCBMC
size_t strlen(const char *s) {
  PRE(s != NULL, "strlen of a string");
  for (int t = 0; t < NT; t++)
    if (s != NULL && (s == g_chars[t] || s == g_own[t])) return g_tlen[t];
  return lit_len(s);
}
#endif
static bool is_text(const struct vstring *s, int t) { return s->n == 1 && s->a[0] == &g_tid[t]; }
/* files */
#ifndef NP
#define NP 12
#endif
static char *g_path[NP]; /* the configured paths (NULL: not configured) */
static char g_pathid[NP][2];
static struct BinaryArray *g_file[NP]; /* loaded from there */
static uint8_t *g_fa[NP]; static size_t g_fl[NP];
static int g_fkind[NP];
static struct BinaryArray *new_array(uint8_t **a, size_t *l) {
  struct BinaryArray *b = malloc(sizeof *b);
  REQUIRES(b != NULL);
  b->length = mk_len();
#ifndef VCBMC
  b->length &= 63;
#endif
  b->array = malloc(b->length + 1);
  REQUIRES(b->array != NULL);
#ifndef VCBMC
  for (size_t i = 0; i < b->length; i++) b->array[i] = 0;
#endif
  *a = b->array; *l = b->length;
  return b;
}
static struct BinaryArray *load_file(const char *name, int kind) {
  if (name == NULL || nd_bool()) { g_depfail = true; return NULL; }
  int i;
  for (i = 0; i < NP; i++) if (name == g_path[i]) break;
  PRE(i < NP, "the file loaded is a configured one");
  if (i >= NP) return NULL;
  g_fkind[i] = kind;
  g_file[i] = new_array(&g_fa[i], &g_fl[i]);
  return g_file[i];
}
struct BinaryArray *file_to_x509buf(const char *name) { return load_file(name, 1); }
struct BinaryArray *file_to_keybuf(const char *name) { return load_file(name, 2); }
#define FILE_OK(b, i, k) ((b) != NULL && (b) == g_file[i] && g_fkind[i] == (k) && (b)->array == g_fa[i] && (b)->length == g_fl[i])
/* configured lists and what was loaded for them */
#define NLI 6
static struct BinaryArrayList *g_lpaths[NLI], *g_certs[NLI];
static struct BinaryArrayList g_lhead[NLI];
static int g_lfree[NLI];
int load_cert_files(struct BinaryArrayList *paths, struct BinaryArrayList **out) {
  PRE(out != NULL, "the list goes somewhere");
  *out = NULL;
  if (paths == NULL) return 0;
  int i;
  for (i = 0; i < NLI; i++) if (paths == g_lpaths[i]) break;
  PRE(i < NLI, "the list loaded is a configured one");
  if (i >= NLI || nd_bool()) { g_depfail = true; return -1; }
  if (nd_bool()) return 0; /* no entries */
  struct BinaryArrayList *l = malloc(sizeof *l);
  REQUIRES(l != NULL);
  l->arr = NULL; l->length = 0; l->flags = 0;
  l->list.next = l->list.prev = &l->list; l->list.el = l;
  g_certs[i] = l;
  *out = l;
  return 0;
}
void v_global_init(void); /* what the C++ file runs before main */
static void mk_config(int np, int nl) {
  v_global_init();
  for (int i = 0; i < NP; i++) { g_pathid[i][0] = 'p'; g_path[i] = i < np && nd_bool() ? g_pathid[i] : NULL; }
  for (int i = 0; i < NLI; i++) { g_lpaths[i] = i < nl && nd_bool() ? &g_lhead[i] : NULL; }
}
static void new_run(void) {
  for (int i = 0; i < NP; i++) { g_file[i] = NULL; g_fkind[i] = 0; }
  for (int i = 0; i < NLI; i++) g_certs[i] = NULL;
  g_oom = false; g_depfail = false;
}
/* base64: what a text decodes to, what an array encodes to (which[]: decided by the unit) */
static int enc_of(const uint8_t *src, size_t length); /* the text, or -1 */
static bool g_encoded[NT], g_decoded[NT];
static uint8_t *g_da[NT]; static size_t g_dl[NT];
ssize_t serialize_base64str2array(const uint8_t *src, const size_t length, uint8_t **out) {
  int t;
  for (t = 0; t < NT; t++) if (src != NULL && ((const char *)src == g_own[t] || (const char *)src == g_chars[t])) break;
  PRE(t < NT, "the text decoded is one given");
  if (t >= NT) { *out = NULL; return -1; }
  PRE(length == g_tlen[t], "the whole text is decoded");
  *out = NULL;
  if (nd_bool()) { g_depfail = true; return -1; }
  g_dl[t] = mk_len();
#ifndef VCBMC
  g_dl[t] &= 63;
#endif
  g_da[t] = malloc(g_dl[t] + 1);
  REQUIRES(g_da[t] != NULL);
  g_decoded[t] = true;
  *out = g_da[t];
  return (ssize_t)g_dl[t];
}
#define DECODED(b, t) ((b) != NULL && g_decoded[t] && (b)->array == g_da[t] && (b)->length == g_dl[t])
ssize_t serialize_array2base64str(const uint8_t *src, const size_t length, uint8_t **out) {
  PRE(RD_OK(src, length), "the array encoded is readable");
  int t = enc_of(src, length);
  *out = NULL;
  if (nd_bool()) { g_depfail = true; return -1; }
  size_t n = t >= 0 ? g_tlen[t] : mk_len();
  char *p = malloc(n + 1);
  REQUIRES(p != NULL);
#ifndef VCBMC
  for (size_t i = 0; i < n; i++) p[i] = 'x';
#endif
  p[n] = 0;
  if (t >= 0) { g_chars[t] = p; g_encoded[t] = true; }
  *out = (uint8_t *)p;
  return (ssize_t)n;
}
static struct tm g_time;
static bool same_time(const struct tm *t) {
  return t->tm_year == g_time.tm_year && t->tm_mon == g_time.tm_mon && t->tm_mday == g_time.tm_mday && t->tm_hour == g_time.tm_hour && t->tm_min == g_time.tm_min && t->tm_sec == g_time.tm_sec;
}

/* the text of a string, written out: pre, then text t (-1: none), then post */
static bool spells(const struct vstring *s, const char *pre, int t, const char *post) {
  size_t k = 0;
  bool seen = t < 0;
  for (unsigned long i = 0; i < VSN; i++) {
    if (i >= s->n) break;
    if (t >= 0 && s->a[i] == &g_tid[t]) {
      if (seen || pre[k] != 0) return false;
      seen = true; k = 0; pre = post;
      continue;
    }
    for (int j = 0; j < NT; j++) if (s->a[i] == &g_tid[j]) return false;
    const char *c = s->a[i];
    for (size_t m = 0; c[m] != 0; m++, k++) if (pre[k] != c[m]) return false;
  }
  return seen && pre[k] == 0;
}
/* certificates the TLS layer handed out (released once each, by the caller) */
static char *g_peer; /* of the last exchange */
static void *peer_new(void) {
  if (nd_bool()) return g_peer = NULL;
  g_peer = malloc(1);
  REQUIRES(g_peer != NULL);
  return g_peer;
}
void crypto_free_certcontext(CRYPTO_KEY cert) { free(cert); }
int get_localtime(struct tm *t) {
  if (nd_bool()) { g_depfail = true; return -1; }
  *t = g_time;
  return 0;
}

/* C20: load_masa_config, load_registrar_config, load_pledge_config and their release */
#include "c20.h"
#if ROLE == 0
#define SEC "masa"
#define CONF struct masa_config
#define LOAD load_masa_config
#define RELEASE free_masa_config_content
#define NF 8
static const char *const key_of[NF] = {"bindAddress", "ldevidCACertPath", "tlsCertPath", "tlsKeyPath", "tlsCACertPath", "cmsSignCertPath", "cmsSignKeyPath", "expiresOn"};
#define FIELDS(c) {(c)->bind_address, (c)->ldevid_ca_cert_path, (c)->tls_cert_path, (c)->tls_key_path, (c)->tls_ca_cert_path, (c)->cms_sign_cert_path, (c)->cms_sign_key_path, (c)->expires_on}
#define SETALL(c, p, q) do { (c).bind_address = (p)[0]; (c).ldevid_ca_cert_path = (p)[1]; (c).tls_cert_path = (p)[2]; (c).tls_key_path = (p)[3]; (c).tls_ca_cert_path = (p)[4]; (c).cms_sign_cert_path = (p)[5]; (c).cms_sign_key_path = (p)[6]; (c).expires_on = (p)[7]; (c).cms_add_certs_paths = (q)[0]; (c).cms_verify_certs_paths = (q)[1]; (c).cms_verify_store_paths = (q)[2]; } while (0)
#define TIMEF 7
#elif ROLE == 1
#define SEC "registrar"
#define CONF struct registrar_config
#define LOAD load_registrar_config
#define RELEASE free_registrar_config_content
#define NF 7
static const char *const key_of[NF] = {"bindAddress", "tlsCertPath", "tlsKeyPath", "tlsCAKeyPath", "tlsCACertPath", "cmsSignCertPath", "cmsSignKeyPath"};
#define FIELDS(c) {(c)->bind_address, (c)->tls_cert_path, (c)->tls_key_path, (c)->tls_ca_key_path, (c)->tls_ca_cert_path, (c)->cms_sign_cert_path, (c)->cms_sign_key_path}
#define SETALL(c, p, q) do { (c).bind_address = (p)[0]; (c).tls_cert_path = (p)[1]; (c).tls_key_path = (p)[2]; (c).tls_ca_key_path = (p)[3]; (c).tls_ca_cert_path = (p)[4]; (c).cms_sign_cert_path = (p)[5]; (c).cms_sign_key_path = (p)[6]; (c).cms_add_certs_paths = (q)[0]; (c).cms_verify_certs_paths = (q)[1]; (c).cms_verify_store_paths = (q)[2]; } while (0)
#define TIMEF -1
#else
#define SEC "pledge"
#define CONF struct pledge_config
#define LOAD load_pledge_config
#define RELEASE free_pledge_config_content
#define NF 8
static const char *const key_of[NF] = {"serialNumber", "nonce", "idevidKeyPath", "idevidCertPath", "idevidCACertPath", "cmsSignCertPath", "cmsSignKeyPath", "createdOn"};
#define FIELDS(c) {(c)->serial_number, (c)->nonce, (c)->idevid_key_path, (c)->idevid_cert_path, (c)->idevid_ca_cert_path, (c)->cms_sign_cert_path, (c)->cms_sign_key_path, (c)->created_on}
#define SETALL(c, p, q) do { (c).serial_number = (p)[0]; (c).nonce = (p)[1]; (c).idevid_key_path = (p)[2]; (c).idevid_cert_path = (p)[3]; (c).idevid_ca_cert_path = (p)[4]; (c).cms_sign_cert_path = (p)[5]; (c).cms_sign_key_path = (p)[6]; (c).created_on = (p)[7]; (c).cms_add_certs_paths = (q)[0]; (c).cms_verify_certs_paths = (q)[1]; (c).cms_verify_store_paths = (q)[2]; } while (0)
#define TIMEF 7
#endif
#if ROLE < 2
#define DEFLEN(i) ((i) == 0 ? 7 : 0)
#define DEFAULT(i) ((i) == 0 ? "0.0.0.0" : "")
#else
#define DEFLEN(i) 0
#define DEFAULT(i) ""
#endif
int LOAD(const char *filename, CONF *const conf);
void RELEASE(CONF *conf);
static const char *const lkey_of[3] = {"cmsAdditionalCertPath", "cmsVerifyCertPath", "cmsVerifyStorePath"};
#define LFIELDS(c) {(c)->cms_add_certs_paths, (c)->cms_verify_certs_paths, (c)->cms_verify_store_paths}

#if defined(VCBMC) && !defined(VSMALL)
#define VFULL
/* as in verif.c; the size is hidden from the array encoding */
void *__CPROVER_allocate(__CPROVER_size_t, __CPROVER_bool);
void *calloc(size_t a, size_t b) {
  size_t n = nu_u64();
  REQUIRES(n == a * b);
  if (g_in_call && nd_bool()) { g_oom = true; return NULL; }
  void *p = __CPROVER_allocate(n, 0) /* content arbitrary: weaker than zero */;
  __CPROVER_memory_leak = (nu_u64() & 1) ? p : __CPROVER_memory_leak;
  return p;
}
#endif
/* the file: which keys the section has, and their values */
static bool g_has[NF], g_hasport;
static size_t g_len[NF];
static char *g_val[NF];
static long g_port;
static const char *g_buf[NF];
static size_t g_n[NF];
#ifdef VFULL
size_t strlen(const char *s) {
  for (int i = 0; i < NF; i++)
    if (s == g_buf[i] && s != NULL) return g_n[i]; /* the text read into the buffer */
  PRE(false, "strlen of a string whose end is known"); /* else: decided on small inputs */
  return 0;
}
#endif
static bool same(const char *a, const char *b) { size_t i; for (i = 0; a[i] != 0 && a[i] == b[i]; i++) ; return a[i] == b[i]; }
static int at(const char *section, const char *key) {
  if (!same(section, SEC)) return -1;
  for (int i = 0; i < NF; i++) if (same(key, key_of[i])) return i;
  return -1;
}
#define OTHER_PORT 4000000000l
int ini_gets(const char *section, const char *key, const char *def, char *buf, int size, const char *file) {
  PRE(file == g_file, "the file read is the one asked for");
#ifdef VSMALL
  /* with short values the loss shows only in what is asked of the library */
  PRE(at(section, key) < 0 || size >= (at(section, key) == TIMEF ? 22 : EINI), "c20: room for the longest value of the key");
#endif
#if defined(VBLOCK_MAX) && defined(VCBMC) && defined(VSMALL)
  if (size > VBLOCK_MAX) size = VBLOCK_MAX;
#endif
  PRE(size >= 1 && WR_OK(buf, (size_t)size), "room for the value");
  int i = at(section, key);
  PRE(i >= 0, "a key of the configuration is read");
  if (i < 0) { buf[0] = 0; return 0; }
  if (!g_has[i]) {
    int n;
    for (n = 0; def[n] != 0 && n < size - 1; n++) buf[n] = def[n];
    buf[n] = 0;
    g_buf[i] = buf; g_n[i] = (size_t)n;
    return n;
  }
  size_t n = g_len[i] < (size_t)size ? g_len[i] : (size_t)size - 1;
#ifdef VFULL
  for (int j = 0; j < NF; j++) PRE(g_buf[j] != buf, "each value has a buffer of its own"); /* else: decided on small inputs */
  /* what the fresh buffer holds is the value: any text; facts about it where they are used */
  REQUIRES(buf[n] == 0 && (n == 0 || buf[0] != 0));
  if (i == FIELD) REQUIRES(!(g_k < n) || (buf[g_k] != 0 && buf[g_k] == g_val[i][g_k]));
#else
  memcpy(buf, g_val[i], n);
  buf[n] = 0;
#endif
  g_buf[i] = buf; g_n[i] = n;
  return (int)n;
}
long ini_getl(const char *section, const char *key, long def, const char *file) {
  PRE(file == g_file, "the file read is the one asked for");
  if (!same(section, SEC) || !same(key, "port")) return OTHER_PORT;
  return g_hasport ? g_port : def;
}
static CONF *g_c;
/* contract of load_config_value_list, proved in unit c20_list */
static struct BinaryArrayList *g_list[3];
int spec_list(const char *section, const char *key, const char *file, struct BinaryArrayList **out) {
  PRE(file == g_file, "the file read is the one asked for");
  PRE(out != NULL, "the list goes somewhere");
  *out = NULL;
  int i = !same(section, SEC) ? -1 : same(key, lkey_of[0]) ? 0 : same(key, lkey_of[1]) ? 1 : same(key, lkey_of[2]) ? 2 : -1;
  PRE(i >= 0 && g_list[i < 0 ? 0 : i] == NULL, "each list of the configuration is read once");
  if (nd_bool()) { g_depfail = true; return -1; }
  struct BinaryArrayList *l = cal_alloc(sizeof *l);
  l->arr = NULL; l->length = 0; l->flags = 0;
  l->list.next = l->list.prev = &l->list;
  if (i >= 0) g_list[i] = l;
  *out = l;
  return 0;
}
/* contract of free_*_config_content, proved in unit c20_free_*: everything the configuration
 * owns is released once, every setting is unset */
void spec_release(CONF *c) {
#ifdef VCBMC
  if (c == NULL) return;
  PRE(c == g_c, "the configuration released is the one given");
  const char *f[NF] = FIELDS(c);
  for (int i = 0; i < NF; i++) if (f[i] != NULL && __CPROVER_memory_leak == f[i]) __CPROVER_memory_leak = NULL;
  struct BinaryArrayList *l[3] = LFIELDS(c);
  for (int i = 0; i < 3; i++) if (l[i] != NULL && __CPROVER_memory_leak == l[i]) __CPROVER_memory_leak = NULL;
  char *const none[NF] = {0}; struct BinaryArrayList *const nol[3] = {0};
  SETALL(*c, none, nol);
#endif
}
#ifdef VSMALL
/* small inputs, with the real list code: a file with entries of all sections */
static const struct { const char *sec, *key, *val; } entry[] = {
  {"other", "cmsVerifyCertPath", "x"}, {SEC, "cmsVerifyCertPath", "ab"}, {SEC, "cmsSignKeyPath", "k"}, {SEC, "cmsVerifyStorePath", "s"},
  {SEC, "cmsVerifyCertPath", "c"}, {SEC, "cmsAdditionalCertPath", ""}, {"zz", "cmsVerifyStorePath", "y"}, {SEC, "cmsVerifyStorePath", "ss"}};
#define NE 8
static int g_ne;
int ini_browse(int (*cb)(const char *, const char *, const char *, void *), void *ctx, const char *file) {
  PRE(file == g_file, "the file read is the one asked for");
  for (int e = 0; e < g_ne; e++)
    if (!cb(entry[e].sec, entry[e].key, entry[e].val, ctx)) break;
  return 1;
}
int ini_getkey(const char *section, int idx, char *buf, int size, const char *file) { REQUIRES(false); return 0; }
#endif
#if defined(VPLAN) && defined(VSMALL)
extern size_t g_plan, g_seq;
#define PLAN(n) (g_seq = 0, g_plan = (n))
#else
#define PLAN(n) ((void)0)
#endif
static void run(int pattern) {
  CONF c = {0};
  g_c = &c;
#if FIELD < 0
  /* releasing any configuration */
  char *p[NF]; struct BinaryArrayList *q[3];
  for (int i = 0; i < NF; i++) p[i] = nd_bool() ? NULL : cal_alloc(3);
  for (int i = 0; i < 3; i++) {
    q[i] = NULL;
    if (nd_bool()) continue;
    q[i] = cal_alloc(sizeof *q[i]);
    q[i]->arr = NULL; q[i]->length = 0; q[i]->flags = 0;
    q[i]->list.next = q[i]->list.prev = &q[i]->list;
  }
  SETALL(c, p, q);
  v_begin();
  REACH("c20 released");
  RELEASE(nd_bool() ? NULL : &c);
  RELEASE(&c);
  v_end();
#else
#ifndef VSMALL
  for (int i = 0; i < NF; i++) {
    g_has[i] = nd_bool();
    g_len[i] = mk_len();
    REQUIRES(g_len[i] < EINI);
    if (i != FIELD) continue;
    g_val[i] = mk_raw(g_len[i] + 1);
    g_val[i][g_len[i]] = 0;
  }
  g_hasport = nd_bool();
  g_port = (long)nd_u64();
#else
  static char val[9][3] = {"a", "bb", "c", "dd", "e", "ff", "g", "hh", "i"};
  for (int i = 0; i < NF; i++) {
    g_has[i] = pattern < 2 ? pattern : (i + pattern) % 2;
    g_val[i] = val[i];
    g_len[i] = 1 + (size_t)(i % 2);
  }
  g_hasport = pattern != 0;
  g_port = (pattern == 1 ? 70000 : 4321) + pattern;
  g_ne = pattern == 0 ? 0 : NE;
#endif
  v_begin();
  int r = LOAD(g_file, &c);
  if (r == 0) {
    REACH("c20 loaded");
    ENSURES(!g_depfail && !g_oom, "c20: any failure on the way is reported");
    const char *f[NF] = FIELDS(&c);
    for (int i = 0; i < NF; i++) {
#ifdef VFULL
      if (i != FIELD) continue;
#endif
      size_t n = g_has[i] ? g_len[i] : DEFLEN(i);
      const char *t = g_has[i] ? g_val[i] : DEFAULT(i);
      if (n == 0) { ENSURES(f[i] == NULL, "c20: a setting without a value is unset"); continue; }
      ENSURES(f[i] != NULL, "c20: a setting with a value is set");
      if (f[i] == NULL) continue;
      size_t m = strlen(f[i]);
      if (i == TIMEF && n > 20) ENSURES(m <= n && m > 20, "c20: a text that is not a time stays one"); /* longer than any time the program reads */
      else ENSURES(m == n, "c20: a setting has its key's value, untouched (length)");
      ENSURES(f[i][m] == 0, "c20: a setting is terminated where its value ends");
#ifndef VFULL
      ENSURES(same(f[i], t), "c20: a setting has its key's value, untouched (text)");
#else
      ENSURES(!(g_k < m && g_k < n) || f[i][g_k] == t[g_k], "c20: a setting has its key's value, untouched");
#endif
    }
#if ROLE < 2
    ENSURES(!g_hasport || g_port < 0 || g_port > 4294967295l || c.port == (unsigned)g_port, "c20: the port is the one of the file");
    ENSURES(g_hasport || c.port == 0, "c20: no port is unset");
#endif
    struct BinaryArrayList *l[3] = LFIELDS(&c);
#ifndef VSMALL
    for (int i = 0; i < 3; i++) ENSURES(l[i] != NULL && l[i] == g_list[i], "c20: each list is its key's list");
#else
    for (int i = 0; i < 3; i++) {
      ENSURES(l[i] != NULL, "c20: each list is set");
      if (l[i] == NULL) continue;
      const struct dl_list *p = l[i]->list.next;
      for (int e = 0; e < g_ne; e++) {
        const char *w = entry[e].val;
        if (!same(entry[e].sec, SEC) || !same(entry[e].key, lkey_of[i]) || w[0] == 0) continue;
        ENSURES(p != &l[i]->list, "c20: each list has an entry for each of its key's values");
        if (p == &l[i]->list) continue;
        const struct BinaryArrayList *el = (const struct BinaryArrayList *)((const char *)p - offsetof(struct BinaryArrayList, list));
        ENSURES(el->arr != NULL && el->length == strlen(w) + 1 && same((const char *)el->arr, w), "c20: each entry of a list is its value, in order");
        p = p->next;
      }
      ENSURES(p == &l[i]->list, "c20: each list has nothing but its key's values");
    }
#endif
    RELEASE(&c);
  } else {
    REACH("c20 refused");
    ENSURES(r < 0 && (g_depfail || g_oom), "c20: a failure has a cause");
  }
  v_end();
#endif
  const char *f[NF] = FIELDS(&c);
  for (int i = 0; i < NF; i++) ENSURES(f[i] == NULL, "c20: a released setting is unset");
  struct BinaryArrayList *l[3] = LFIELDS(&c);
  for (int i = 0; i < 3; i++) ENSURES(l[i] == NULL, "c20: a released list is unset");
#if FIELD < 0
  RELEASE(&c); /* releasing again does no harm */
#endif
  NO_LEAK("c20: loading and releasing leaks nothing");
}

void harness(void) {
  g_k = nd_size();
#if !defined(VSMALL) || FIELD < 0
  run(0);
#else
  /* one allocation refused, or none */
  static const int plan[] = {0, 3, 8, 10, 13, 15, 18, -1, -1, -1};
  int which = nd_int();
  for (int a = 0; a < 10; a++)
    if (which == a) {
      PLAN((size_t)plan[a]);
      run(a < 8 ? 1 : a == 8 ? 0 : 2);
    }
#endif
}

/* C20: load_config_value_list, files of any number of entries and values of any length.
 * The ini library is given by its contract: it hands every entry of the file to the
 * callback, in order, until the callback asks it to stop.  The loop is in the library, so
 * its induction is spelled out here: from the state "nothing failed, the query as it was
 * at the start, the list alive" one arbitrary entry is handed over, which has to end in
 * that state again (or stop after a failure) and to have appended exactly its value if
 * it is one of the key's.  Assumed: the callback keeps no state of its own between entries
 * besides the query (there is no static data in config.c).  (In small builds: files of at most 3 entries, values of at
 * most 2 characters, and the real list.) */
#include "c20.h"
int load_config_value_list(const char *section, const char *key, const char *filename, struct BinaryArrayList **value_list);
#if defined(VCBMC) && !defined(VSMALL)
#include "../lib/vstr.h"
static struct BinaryArrayList v_list;
static int g_live, g_pushes, g_push_failed;
static const char *g_cur; static size_t g_cur_n;
struct BinaryArrayList *spec_init_array_list(void) {
  if (nd_bool()) { g_oom = true; return NULL; }
  PRE(!g_live, "one list");
  g_live = 1;
  return &v_list;
}
int spec_push_array_list(struct BinaryArrayList *l, uint8_t *const arr, const size_t length, const int flags) {
  PRE(l == &v_list && g_live && g_cur != NULL, "push_array_list to the list being made");
  ENSURES((const char *)arr == g_cur && length == g_cur_n + 1 && flags == 0, "c20: each entry of a list is its value, whole");
  if (nd_bool()) { g_oom = true; g_push_failed = 1; return -1; }
  g_pushes++;
  return 0;
}
void spec_free_array_list(struct BinaryArrayList *l) {
  if (l == NULL) return;
  PRE(l == &v_list && g_live, "free_array_list of the list made");
  g_live = 0;
}
static int g_browsed;
int ini_browse(int (*cb)(const char *, const char *, const char *, void *), void *ctx, const char *file) {
  PRE(file == g_file, "the file read is the one asked for");
  PRE(g_live, "there is a list to append to");
  g_browsed++;
  if (nd_bool()) return 1; /* at the end of the file */
  size_t q = __CPROVER_OBJECT_SIZE(ctx), b = nd_size();
  REQUIRES(b < q);
  unsigned char *c = ctx, before = c[b];
  int sec = nd_int(), key = nd_int();
  REQUIRES(0 <= sec && sec < 4 && 0 <= key && key < 4);
  const char *const secs[4] = {"masa", "MASA", "mas", "registrar"};
  const char *const keys[4] = {"cmsVerifyCertPath", "cmsVerifyStorePath", "cmsVerifyCertPathX", "cmsverifycertpath"};
  bool mine = sec < 2 && key == 0;
  char *val = mk_cstr();
  g_cur = val; g_cur_n = str_len(val);
  g_pushes = 0;
  int r = cb(secs[sec], keys[key], val, ctx);
  g_cur = NULL;
  if (g_push_failed) { ENSURES(g_pushes == 0, "c20: a failed entry is not retried"); }
  else {
    ENSURES(g_pushes == (mine && g_cur_n > 0 ? 1 : 0), "c20: a list has exactly its key's values, in order");
    ENSURES(r != 0, "c20: reading goes on to the end of the file");
    ENSURES(g_live && c[b] == before, "c20: an entry leaves the query as it was for the next one");
    if (g_pushes) { REACH("c20 value appended"); } else { REACH("c20 entry skipped"); }
  }
  /* any number of further entries: the same, unless one fails */
  return 1;
}
void harness(void) {
  g_k = nd_size();
  g_live = g_pushes = g_push_failed = g_browsed = 0; g_cur = NULL;
  struct BinaryArrayList *l = (struct BinaryArrayList *)v_file;
  v_begin();
  int r = load_config_value_list("masa", "cmsVerifyCertPath", g_file, &l);
  v_end();
  if (r == 0) {
    REACH("c20 list loaded");
    ENSURES(!g_oom && l == &v_list && g_live, "c20: a list is made, or the failure is reported");
    ENSURES(g_browsed == 1, "c20: the file is read once");
  } else {
    REACH("c20 list refused");
    ENSURES(r < 0 && g_oom, "c20: a failure has a cause");
    ENSURES(l == NULL && !g_live, "c20: a failure leaves no list");
  }
  NO_LEAK("c20: loading a list leaks nothing");
}
#else
#define NE 3
#ifdef VCBMC
void *memcpy(void *d, const void *s, size_t n) {
  PRE(n <= 8 && RD_OK(s, n) && WR_OK(d, n), "memcpy within bounds");
  for (size_t i = 0; i < n && i < 8; i++) ((char *)d)[i] = ((const char *)s)[i];
  return d;
}
#endif
static const struct { const char *sec, *key; bool mine; } kind[5] = {
  {"masa", "cmsVerifyCertPath", true}, {"registrar", "cmsVerifyCertPath", false}, {"masa", "cmsVerifyStorePath", false}, {"mas", "cmsVerifyCertPath", false}, {"masa", "cmsVerifyCertPathX", false}};
static int g_ne, g_kind[NE];
static char g_val[NE][3];
int ini_browse(int (*cb)(const char *, const char *, const char *, void *), void *ctx, const char *file) {
  PRE(file == g_file, "the file read is the one asked for");
  for (int e = 0; e < NE; e++)
    for (int k = 0; k < 5; k++)
      if (e < g_ne && g_kind[e] == k) { if (!cb(kind[k].sec, kind[k].key, g_val[e], ctx)) return 1; }
  return 1;
}
/* the library by index: the keys in order, and only the first value of a repeated key */
static int of(const char *section, int idx) {
  for (int e = 0; e < NE; e++) {
    if (e >= g_ne || strcmp(kind[g_kind[e]].sec, section) != 0) continue;
    if (idx-- == 0) return e;
  }
  return -1;
}
int ini_getkey(const char *section, int idx, char *buf, int size, const char *file) {
  int e = of(section, idx);
  if (e < 0) { buf[0] = 0; return 0; }
  PRE(size > 20, "room for the key");
  strcpy(buf, kind[g_kind[e]].key);
  return (int)strlen(buf);
}
int ini_gets(const char *section, const char *key, const char *def, char *buf, int size, const char *file) {
  PRE(size > 2, "room for the value");
  for (int e = 0; e < NE; e++)
    if (e < g_ne && strcmp(kind[g_kind[e]].sec, section) == 0 && strcmp(kind[g_kind[e]].key, key) == 0) { strcpy(buf, g_val[e]); return (int)strlen(buf); }
  strcpy(buf, def);
  return (int)strlen(buf);
}
void harness(void) {
  g_k = nd_size();
  g_ne = nd_int();
  REQUIRES(0 <= g_ne && g_ne <= NE);
  for (int e = 0; e < NE; e++) {
    g_kind[e] = nd_int();
    REQUIRES(0 <= g_kind[e] && g_kind[e] < 5);
    g_val[e][0] = (char)nd_u8(); g_val[e][1] = (char)nd_u8(); g_val[e][2] = 0;
  }
  struct BinaryArrayList *l = (struct BinaryArrayList *)g_val;
  v_begin();
  int r = load_config_value_list("masa", "cmsVerifyCertPath", g_file, &l);
  v_end();
  if (r == 0) {
    REACH("c20 list loaded");
    ENSURES(!g_oom && l != NULL, "c20: a list is made, or the failure is reported");
    if (l == NULL) return;
    const struct dl_list *p = l->list.next;
    for (int e = 0; e < NE; e++) {
      if (e >= g_ne || !kind[g_kind[e]].mine || g_val[e][0] == 0) continue;
      ENSURES(p != &l->list, "c20: a list has an entry for each of its key's values");
      if (p == &l->list) continue;
      const struct BinaryArrayList *el = (const struct BinaryArrayList *)((const char *)p - offsetof(struct BinaryArrayList, list));
      ENSURES(el->arr != NULL && el->length == (g_val[e][1] == 0 ? 2u : 3u) && el->arr[0] == (uint8_t)g_val[e][0] && el->arr[1] == (uint8_t)g_val[e][1] && (g_val[e][1] == 0 || el->arr[2] == 0) && el->flags == 0, "c20: each entry of a list is its value, in order");
      p = p->next;
    }
    ENSURES(p == &l->list, "c20: a list has nothing but its key's values");
    free_array_list(l);
  } else {
    REACH("c20 list refused");
    ENSURES(r < 0 && g_oom, "c20: a failure has a cause");
    ENSURES(l == NULL, "c20: a failure leaves no list");
  }
  NO_LEAK("c20: loading a list leaks nothing");
}
#endif

/* C05: verify_cms_voucher */
#include "../lib/verif.h"
#include "/repo/src/voucher/array.h"
#include "/repo/src/voucher/crypto.h"
#include "/repo/src/voucher/voucher.h"
static struct BinaryArray in;
static struct BinaryArrayList *g_certs, *g_store, *g_outl;
static struct { int calls; bool args, ok; uint8_t *data; size_t n; bool want; } g_vc;
static struct { int calls; bool args, ok; } g_ds;
static uint8_t g_byte; static void *g_v;
/* contract of crypto_verify_cms, proved of the real one in unit c05_verify_cms */
ssize_t crypto_verify_cms(const struct BinaryArray *cms, const struct BinaryArrayList *certs, const struct BinaryArrayList *store, uint8_t **data, struct BinaryArrayList **out) {
  g_vc.calls++;
  g_vc.args = cms == &in && certs == g_certs && store == g_store;
  g_vc.want = out != NULL;
  if (nd_bool()) { g_depfail = true; return -1; }
  g_vc.n = mk_len();
  *data = NULL;
  if (g_vc.n > 0) {
    *data = cal_bytes(g_vc.n);
    if (g_k < g_vc.n) g_byte = (*data)[g_k];
  }
  g_vc.data = *data;
  if (out) { g_outl = init_array_list(); if (g_outl == NULL) { free(*data); *data = NULL; return -1; } *out = g_outl; }
  g_vc.ok = true;
  return (ssize_t)g_vc.n;
}
/* contract of deserialize_voucher (C12) */
struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
  g_ds.calls++;
  g_ds.args = g_vc.ok && json == g_vc.data && length == g_vc.n && (!(g_k < length) || json[g_k] == g_byte);
  if (json == NULL || nd_bool()) { g_depfail = true; return NULL; }
  g_v = malloc(1);
  if (g_v == NULL) return NULL;
  g_ds.ok = true;
  return (struct Voucher *)g_v;
}
void harness(void) {
  g_k = nd_size();
  in.length = mk_len(); in.array = mk_bytes(in.length);
  uint8_t mark[2];
  bool no = nd_bool(), want = nd_bool();
  g_certs = nd_bool() ? NULL : (struct BinaryArrayList *)&mark[0];
  g_store = nd_bool() ? NULL : (struct BinaryArrayList *)&mark[1];
  struct BinaryArrayList *out = NULL;
  v_begin();
  struct Voucher *v = verify_cms_voucher(no ? NULL : &in, g_certs, g_store, want ? &out : NULL);
  v_end();
  if (v != NULL) {
    REACH("c05 voucher");
    ENSURES(!no && g_vc.calls == 1 && g_vc.ok && g_vc.args, "c05: a voucher only from a message that verified against the given lists");
    ENSURES(g_ds.calls == 1 && g_ds.ok && g_ds.args, "c05: the voucher is the parse of exactly the authenticated content");
    ENSURES((void *)v == g_v, "c05: the voucher returned is that parse");
    ENSURES(!want || (out != NULL && out == g_outl), "c05: the signer list is that of the verified message");
    free(v);
    if (out != NULL) free_array_list(out);
  } else {
    REACH("c05 no voucher");
    ENSURES(no || g_depfail || g_oom, "c05: a verified message that parses gives a voucher");
    ENSURES(out == NULL, "c05: no signer list without a voucher");
  }
  NO_LEAK("c05: verifying a voucher leaks nothing");
}

/* C06: sign_cms_voucher, sign_eccms_voucher, sign_rsacms_voucher */
#include "../lib/verif.h"
#include "../lib/vstr.h"
#include "/repo/src/voucher/array.h"
#include "/repo/src/voucher/crypto.h"
#include "/repo/src/voucher/voucher.h"
#if KIND == 0
#define SIGN sign_cms_voucher
#elif KIND == 1
#define SIGN sign_eccms_voucher
#else
#define SIGN sign_rsacms_voucher
#endif
static struct BinaryArray cert, key;
static uint8_t mark[2];
static struct Voucher *g_v; static struct BinaryArrayList *g_certs;
static struct { int calls; bool args, ok; char *text; size_t n; char k; } g_ser;
static struct { int calls[3]; bool data, cert, key, certs, ok; uint8_t *out; size_t n; uint8_t k; } g_s;
/* contract of serialize_voucher (C11) */
char *serialize_voucher(const struct Voucher *v) {
  g_ser.calls++;
  g_ser.args = v == g_v;
  if (nd_bool()) { g_depfail = true; return NULL; }
  g_ser.text = cal_cstr();
  g_ser.n = str_len(g_ser.text);
  g_ser.k = g_k < g_ser.n ? g_ser.text[g_k] : 0;
  g_ser.ok = true;
  return g_ser.text;
}
/* contract of crypto_sign_*cms, proved of the real ones in unit c06_sign_cms */
static ssize_t sign(int kind, const uint8_t *data, size_t n, const uint8_t *c, size_t cn, const uint8_t *k, size_t kn, const struct BinaryArrayList *certs, uint8_t **cms) {
  g_s.calls[kind]++;
  g_s.data = g_ser.ok && n == g_ser.n && (data == (const uint8_t *)g_ser.text || RD_OK(data, n)) && (!(g_k < n) || (char)data[g_k] == g_ser.k);
  g_s.cert = c == cert.array && cn == cert.length;
  g_s.key = k == key.array && kn == key.length;
  g_s.certs = certs == g_certs;
  PRE(cms != NULL, "the signed message goes somewhere");
  *cms = NULL;
  if (nd_bool()) { g_depfail = true; return -1; }
  g_s.n = mk_len();
  REQUIRES(g_s.n > 0);
  *cms = g_s.out = cal_bytes(g_s.n);
  g_s.k = g_k < g_s.n ? g_s.out[g_k] : 0;
  g_s.ok = true;
  return (ssize_t)g_s.n;
}
ssize_t crypto_sign_cms(const uint8_t *d, const size_t n, const uint8_t *c, const size_t cn, const uint8_t *k, const size_t kn, const struct BinaryArrayList *l, uint8_t **o) { return sign(0, d, n, c, cn, k, kn, l, o); }
ssize_t crypto_sign_eccms(const uint8_t *d, const size_t n, const uint8_t *c, const size_t cn, const uint8_t *k, const size_t kn, const struct BinaryArrayList *l, uint8_t **o) { return sign(1, d, n, c, cn, k, kn, l, o); }
ssize_t crypto_sign_rsacms(const uint8_t *d, const size_t n, const uint8_t *c, const size_t cn, const uint8_t *k, const size_t kn, const struct BinaryArrayList *l, uint8_t **o) { return sign(2, d, n, c, cn, k, kn, l, o); }
void harness(void) {
  g_k = nd_size();
  cert.length = mk_len(); cert.array = mk_bytes(cert.length);
  key.length = mk_len(); key.array = mk_bytes(key.length);
  bool nc = nd_bool(), nk = nd_bool();
  g_v = nd_bool() ? NULL : (struct Voucher *)&mark[0];
  g_certs = nd_bool() ? NULL : (struct BinaryArrayList *)&mark[1];
  v_begin();
  struct BinaryArray *r = SIGN(g_v, nc ? NULL : &cert, nk ? NULL : &key, g_certs);
  v_end();
  if (r != NULL) {
    REACH("c06 voucher signed");
    ENSURES(g_v != NULL && !nc && !nk, "c06: nothing is signed without voucher, certificate and key");
    ENSURES(g_ser.calls >= 1 && g_ser.ok && g_ser.args, "c06: what is signed is the given voucher's JSON");
    ENSURES(g_s.calls[KIND] == 1 && g_s.calls[(KIND + 1) % 3] == 0 && g_s.calls[(KIND + 2) % 3] == 0, "c06: signed once, with the requested kind of key");
    ENSURES(g_s.data, "c06: exactly the JSON text is signed, without terminator or truncation");
    ENSURES(g_s.cert && g_s.key, "c06: signed with the given certificate and key");
    ENSURES(g_s.certs, "c06: exactly the given additional certificates are included");
    ENSURES(g_s.ok && !g_depfail, "c06: any failure on the way is an error");
    ENSURES(r->length == g_s.n && r->array != NULL, "c06: the message returned has the length of the signed message");
    ENSURES(r->array == NULL || r->length != g_s.n || !(g_k < g_s.n) || r->array[g_k] == g_s.k, "c06: the message returned is the signed message");
    free_binary_array(r);
  } else {
    REACH("c06 voucher refused");
    ENSURES(g_v == NULL || nc || nk || g_depfail || g_oom, "c06: a complete voucher is signed");
  }
  NO_LEAK("c06: signing a voucher leaks nothing");
}

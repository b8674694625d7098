/* Contracts of the voucher-level callees (verify_cms_voucher, sign_cms_voucher,
 * crypto_verify_cert) as seen by their callers in request.c.
 *
 *   verify_cms_voucher(cms, certs, store, out_certs)
 *     ensures: result NULL, or a fresh well-formed voucher whose fields are an
 *     arbitrary function of the authenticated content; out_certs (if given) is
 *     NULL or a fresh list.  Ghost: which cms/certs/store were authenticated and
 *     what the voucher contained.
 *     [proved of the real function in units vcv_* (C05), authenticity itself by
 *     crypto_verify_cms, C05]
 *   sign_cms_voucher(voucher, cert, key, certs)
 *     ensures: result NULL, or a fresh BinaryArray; the voucher is unchanged.
 *     Ghost: the exact content that was signed and with what.  [C06]
 *   crypto_verify_cert(cert, len, certs, store)
 *     ensures: result 0 or -1.  Ghost: exactly what was checked. [C07]
 */
#ifndef VOUCHER_STUBS_H
#define VOUCHER_STUBS_H
#include "../lib/verif.h"
#include <time.h>
#include "/repo/src/voucher/array.h"
#include "/repo/src/voucher/crypto.h"
#include "/repo/src/voucher/voucher.h"
#include "/repo/src/voucher/voucher_defs.h"

#define SN 128

/* snapshot of a byte array: presence, length, byte at the witness index */
struct bsnap { bool present; size_t len; uint8_t k; };
struct vsnap {
  struct tm created_on, expires_on, last_renewal_date;
  int assertion;
  bool has_serial;
  char serial[SN];
  struct bsnap issuer, pinned, nonce, prior, proximity;
  bool revocation;
};
static inline struct bsnap snap_bytes(const uint8_t *p, size_t n) {
  struct bsnap s = {0};
  s.present = !(p == NULL && n == 0);
  s.len = n;
  if (p != NULL && g_k < n) s.k = p[g_k];
  return s;
}
static inline struct bsnap snap_arr(const struct BinaryArray *a) {
  return snap_bytes(a->array, a->length);
}
static inline bool bsnap_eq(struct bsnap a, struct bsnap b) {
  return a.len == b.len && (!(g_k < a.len) || a.k == b.k);
}
static inline bool bsnap_is(struct bsnap s, const uint8_t *p, size_t n) {
  return s.len == n && (!(g_k < n) || (p != NULL && s.k == p[g_k]));
}
static inline bool tm_eq(const struct tm *a, const struct tm *b) {
  return a->tm_sec == b->tm_sec && a->tm_min == b->tm_min &&
         a->tm_hour == b->tm_hour && a->tm_mday == b->tm_mday &&
         a->tm_mon == b->tm_mon && a->tm_year == b->tm_year &&
         a->tm_wday == b->tm_wday && a->tm_yday == b->tm_yday &&
         a->tm_isdst == b->tm_isdst;
}
static inline bool tm_zero(const struct tm *a) {
  return !a->tm_sec && !a->tm_min && !a->tm_hour && !a->tm_mday && !a->tm_mon &&
         !a->tm_year && !a->tm_wday && !a->tm_yday;
}
static inline bool str_eq(const char *a, const char *b) {
  for (size_t i = 0; i < SN; i++) {
    if (a[i] != b[i]) return false;
    if (a[i] == '\0') return true;
  }
  return false;
}
static inline void str_copy(char *d, const char *s) {
  size_t i = 0;
  for (; i < SN - 1; i++) {
    d[i] = s[i];
    if (s[i] == '\0') return;
  }
  d[i] = '\0';
}
static inline void snap_voucher(struct vsnap *s, const struct Voucher *v) {
  s->created_on = v->created_on;
  s->expires_on = v->expires_on;
  s->last_renewal_date = v->last_renewal_date;
  s->assertion = (int)v->assertion;
  s->has_serial = v->serial_number != NULL;
  s->serial[0] = '\0';
  if (v->serial_number != NULL) str_copy(s->serial, v->serial_number);
  s->issuer = snap_arr(&v->idevid_issuer);
  s->pinned = snap_arr(&v->pinned_domain_cert);
  s->nonce = snap_arr(&v->nonce);
  s->prior = snap_arr(&v->prior_signed_voucher_request);
  s->proximity = snap_arr(&v->proximity_registrar_cert);
  s->revocation = v->domain_cert_revocation_checks;
}

/* ---- input builders ------------------------------------------------------ */
/* arbitrary caller-owned array (possibly empty) */
static inline void mk_arr(struct BinaryArray *a) {
  if (nd_bool()) {
    a->array = NULL;
    a->length = 0;
  } else {
    a->length = mk_len();
    a->array = mk_bytes(a->length);
  }
}
static inline struct BinaryArray *mk_arr_ptr(bool maynull) {
  if (maynull && nd_bool()) return NULL;
  struct BinaryArray *a = mk_raw(sizeof *a);
  mk_arr(a);
  return a;
}
/* lists that the callers only pass on: a well-formed (empty) list header whose
 * identity matters */
static inline struct BinaryArrayList *mk_list(bool maynull) {
  if (maynull && nd_bool()) return NULL;
  struct BinaryArrayList *l = mk_raw(sizeof *l);
  l->arr = NULL; l->length = 0; l->flags = 0;
  l->list.next = &l->list; l->list.prev = &l->list; l->list.el = l;
  return l;
}
/* callee-owned copies */
static inline void cal_arr(struct BinaryArray *a) {
  if (nd_bool()) {
    a->array = NULL;
    a->length = 0;
  } else {
    a->length = mk_len();
    REQUIRES(a->length >= 1);
    a->array = cal_bytes(a->length);
  }
}
static inline void cal_arr_like(struct BinaryArray *a, const struct BinaryArray *like, bool *same) {
  *same = false;
  if (like != NULL && like->array != NULL && like->length >= 1 && nd_bool()) {
    a->length = like->length;
    a->array = cal_alloc(like->length);
    memcpy(a->array, like->array, like->length);
    *same = true;
  } else cal_arr(a);
}
static inline char *cal_str(void) {
#ifdef VSMALL
  size_t m = VSMALL_LEN + 1;
#else
  size_t m = SN;
#endif
  char *p = cal_alloc(m);
#if defined(VSMALL) || !defined(VCBMC)
  fill_bytes(p, m);
#endif
  p[m - 1] = '\0';
  return p;
}

/* ---- verify_cms_voucher ---------------------------------------------------- */
struct vcall {
  const struct BinaryArray *cms; size_t cms_len; const uint8_t *cms_arr; struct bsnap cms_snap;
  const struct BinaryArrayList *certs, *store;
  bool want_out, ok;
  struct BinaryArrayList *out;
  bool same_nonce, same_proximity, same_serial;
  struct vsnap v;
};
static struct vcall g_vc[2];
static int g_nvc;
static bool g_vc_overflow;
/* what the next vouchers may be made equal to (completeness clauses) */
static const struct BinaryArray *g_like_nonce, *g_like_proximity;
static const char *g_like_serial;

struct Voucher *verify_cms_voucher(const struct BinaryArray *cms,
                                   const struct BinaryArrayList *certs,
                                   const struct BinaryArrayList *store,
                                   struct BinaryArrayList **out_certs) {
  if (g_nvc >= 2) { g_vc_overflow = true; g_depfail = true; return NULL; }
  struct vcall *c = &g_vc[g_nvc++];
  c->ok = false; c->out = NULL; c->cms = cms;
  if (cms == NULL) return NULL;
  PRE(RD_OK(cms, sizeof *cms), "verify_cms_voucher: cms readable");
   c->cms_len = cms->length; c->cms_arr = cms->array;
  c->cms_snap = snap_arr(cms);
  c->certs = certs; c->store = store; c->want_out = out_certs != NULL;
  if (out_certs != NULL) *out_certs = NULL;
  if (nd_bool()) return NULL; /* not authentic, not parsable, no memory */
  struct Voucher *v = cal_alloc(sizeof *v);
  fill_tm(&v->created_on);
  fill_tm(&v->expires_on);
  fill_tm(&v->last_renewal_date);
  v->assertion = (enum VoucherAssertions)(nd_u8() & 3);
  v->domain_cert_revocation_checks = nd_bool();
  v->serial_number = nd_bool() ? NULL : cal_str();
  c->same_serial = false;
  if (v->serial_number != NULL && g_like_serial != NULL && nd_bool()) {
    REQUIRES(str_eq(v->serial_number, g_like_serial));
    c->same_serial = true;
  }
  bool dummy;
  cal_arr(&v->idevid_issuer);
  cal_arr(&v->pinned_domain_cert);
  cal_arr_like(&v->nonce, g_like_nonce, &c->same_nonce);
  cal_arr(&v->prior_signed_voucher_request);
  cal_arr_like(&v->proximity_registrar_cert, g_like_proximity, &c->same_proximity);
  (void)dummy;
  if (out_certs != NULL && nd_bool()) {
    struct BinaryArrayList *l = cal_alloc(sizeof *l);
    l->arr = NULL; l->length = 0; l->flags = 0;
    l->list.next = &l->list; l->list.prev = &l->list; l->list.el = l;
    *out_certs = l;
    c->out = l;
  }
  snap_voucher(&c->v, v);
  c->ok = true;
  return v;
}

/* ---- sign_cms_voucher ------------------------------------------------------ */
static int g_nsign;
static struct vsnap g_signed;
static const struct BinaryArray *g_sign_cert, *g_sign_key;
static const struct BinaryArrayList *g_sign_certs;
static struct BinaryArray *g_sign_ret;
static uint8_t *g_sign_arr; static size_t g_sign_len; static uint8_t g_sign_k;
struct BinaryArray *sign_cms_voucher(struct Voucher *voucher,
                                     const struct BinaryArray *cert,
                                     const struct BinaryArray *key,
                                     const struct BinaryArrayList *certs) {
  g_sign_ret = NULL;
  if (voucher == NULL || cert == NULL || key == NULL) { g_depfail = true; return NULL; }
  PRE(RD_OK(voucher, sizeof *voucher), "sign_cms_voucher: voucher readable");
  g_nsign++;
  g_sign_cert = cert; g_sign_key = key; g_sign_certs = certs;
  snap_voucher(&g_signed, voucher);
  if (nd_bool()) { g_depfail = true; return NULL; }
  struct BinaryArray *r = cal_alloc(sizeof *r);
  r->length = mk_len();
  REQUIRES(r->length >= 1);
  r->array = cal_bytes(r->length);
  g_sign_ret = r; g_sign_arr = r->array; g_sign_len = r->length;
  g_sign_k = g_k < r->length ? r->array[g_k] : 0;
  return r;
}
static inline bool is_signed_result(const struct BinaryArray *r) {
  return r != NULL && r == g_sign_ret && r->array == g_sign_arr && r->length == g_sign_len &&
         RD_OK(r->array, r->length) && (!(g_k < r->length) || r->array[g_k] == g_sign_k);
}
static inline void drop_arr(struct BinaryArray *a) {
  if (a != NULL) { free(a->array); free(a); }
}

/* ---- crypto_verify_cert ------------------------------------------------------ */
static int g_ncvc;
static bool g_cvc_ok;
static const uint8_t *g_cvc_cert; static size_t g_cvc_len;
static const struct BinaryArrayList *g_cvc_store;
static bool g_cvc_one; static struct bsnap g_cvc_int; static int g_cvc_flags;
int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
                       const struct BinaryArrayList *certs,
                       const struct BinaryArrayList *store) {
  if (cert == NULL || certs == NULL) { return -1; }
  PRE(RD_OK(cert, cert_length), "crypto_verify_cert: cert readable");
  PRE(RD_OK(certs, sizeof *certs), "crypto_verify_cert: certs readable");
  g_ncvc++;
  g_cvc_cert = cert; g_cvc_len = cert_length; g_cvc_store = store;
  g_cvc_one = false;
  g_cvc_int = (struct bsnap){0};
  if (certs->list.next != &certs->list) {
    const struct BinaryArrayList *el = certs->list.next->el;
    PRE(RD_OK(el->arr, el->length), "crypto_verify_cert: list content readable");
    g_cvc_int = snap_bytes(el->arr, el->length);
    g_cvc_flags = el->flags;
    g_cvc_one = el->list.next == &certs->list;
  }
  g_cvc_ok = nd_bool();
  return g_cvc_ok ? 0 : -1;
}
#endif

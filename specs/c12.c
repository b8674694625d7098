/* C12: deserialize_voucher and its parts.
 * WHICH 0 deserialize_voucher, 1 set_json_members_voucher, 2 skip_json_token,
 *       3 set_keyvalue_voucher with the typed setters, 4 check_size_str_equal.
 * The parser (jsmn, outside the repository) is assumed to return tokens whose
 * positions lie in the text and whose children follow in order (size of them). */
#include "c10.h"
#include <limits.h>
#if !(defined(VSMALL) && WHICH == 0)
#define JSMN_HEADER
#endif
#include <jsmn.h> /* small: the real parser runs, on texts chosen from a menu */
#include "/repo/src/voucher/serialize.h"
#define NTOK 32
#define NATTR 11
#define ROOT "ietf-voucher:voucher"
static const char *NAMES[NATTR] = {"created-on", "expires-on", "assertion", "serial-number", "idevid-issuer", "pinned-domain-cert", "domain-cert-revocation-checks", "nonce",
                                   "last-renewal-date", "prior-signed-voucher-request", "proximity-registrar-cert"};
static const char *ASSERTIONS[4] = {NULL, "verified", "logged", "proximity"};
static const enum VoucherAttributes ATTRS[NATTR] = {ATTR_CREATED_ON, ATTR_EXPIRES_ON, ATTR_ASSERTION, ATTR_SERIAL_NUMBER, ATTR_IDEVID_ISSUER, ATTR_PINNED_DOMAIN_CERT, ATTR_DOMAIN_CERT_REVOCATION_CHECKS,
                                                    ATTR_NONCE, ATTR_LAST_RENEWAL_DATE, ATTR_PRIOR_SIGNED_VOUCHER_REQUEST, ATTR_PROXIMITY_REGISTRAR_CERT};
static bool lib_fails(void) { if (nd_bool()) { g_depfail = true; return true; } return false; }
static bool lit(const char *s, size_t n, const char *name) {
  for (size_t i = 0; i < 31; i++) {
    if (name[i] == 0) return i == n;
    if (i >= n || s[i] != name[i]) return false;
  }
  return false;
}
static bool is(const char *s, const char *name) {
  for (size_t i = 0; i < 31; i++) {
    if (s[i] != name[i]) return false;
    if (name[i] == 0) return true;
  }
  return false;
}
#ifdef VSMALL
#define NT 8
#else
#define NT NTOK
#endif
static jsmntok_t g_tok[NT];
static int g_count;
static const uint8_t *g_json; static size_t g_jlen;
static void mk_tokens(void) {
#ifdef VSMALL
  /* a text that holds the names, their prefixes and some values */
  static const char text[] = "ietf-voucher:voucher nonce serial-number assertion logged AAAA";
  g_json = (const uint8_t *)text;
  g_jlen = sizeof text - 1;
#else
  g_jlen = nd_size();
  REQUIRES(g_jlen <= (size_t)INT_MAX);
  g_json = mk_raw(g_jlen);
#endif
  g_count = nd_int();
  REQUIRES(g_count >= -3 && g_count <= NT);
  for (int i = 0; i < NT; i++) {
    g_tok[i].type = (jsmntype_t)(1 + (nd_u8() & 3));
    g_tok[i].start = nd_int(); g_tok[i].end = nd_int(); g_tok[i].size = nd_u8() & 63;
    if (i < g_count) REQUIRES(g_tok[i].start >= 0 && g_tok[i].start <= g_tok[i].end && (size_t)g_tok[i].end <= g_jlen && g_tok[i].size >= 0 && g_tok[i].size <= NT);
  }
}
static bool member(int obj, int k) {
  return k + 1 < g_count && g_tok[k].type == JSMN_STRING && g_tok[k].size == 1 && g_tok[k].start > g_tok[obj].start && g_tok[k + 1].end < g_tok[obj].end;
}
static bool plain(int i) { return (g_tok[i].type == JSMN_STRING || g_tok[i].type == JSMN_PRIMITIVE) && g_tok[i].size == 0; }
static const char *tstr(int i) { return (const char *)g_json + g_tok[i].start; }
static size_t tlen(int i) { return (size_t)(g_tok[i].end - g_tok[i].start); }

#if WHICH == 0 && !defined(VSMALL)
/* contract of jsmn_parse */
JSMN_API void jsmn_init(jsmn_parser *p) { p->pos = 0; p->toknext = 0; p->toksuper = -1; }
JSMN_API int jsmn_parse(jsmn_parser *p, const char *js, const size_t len, jsmntok_t *tokens, const unsigned int n) {
  PRE(p != NULL && js == (const char *)g_json && len == g_jlen, "jsmn_parse of the given text");
  PRE(n <= NTOK && WR_OK(tokens, n * sizeof *tokens), "jsmn_parse with room for the tokens");
  REQUIRES(g_count <= (int)n);
  for (int i = 0; i < NT; i++) if (i < g_count) tokens[i] = g_tok[i];
  return g_count;
}
#endif

/* ---- what the parts are expected to do, and their contracts ------------- */
static struct Voucher *g_v;     /* the voucher under way */
int g_asked, g_jw, g_hit, g_sets, g_pos[65]; /* members asked for, witness, the root member, positions of the members of the first token */
bool g_wit_ok, g_all, g_set_ok;
static bool g_root[64];         /* that member has the root name */
#if WHICH == 0 && !defined(VSMALL)
static bool same_tokens(const jsmntok_t *t) {
  int i = (int)nu_u64(); /* any token */
  REQUIRES(i >= 0 && i < NT);
  return i >= g_count || (t[i].type == g_tok[i].type && t[i].start == g_tok[i].start && t[i].end == g_tok[i].end && t[i].size == g_tok[i].size);
}
bool spec_equal(const char *src, const char *dst, const size_t n) {
  int c = g_asked;
  PRE(c >= 0 && c < g_tok[0].size, "one question per member");
  if (c < 0 || c >= g_tok[0].size) return false;
  PRE(member(0, g_pos[c]), "only well-formed members are asked for");
  PRE(g_hit < 0, "the search ends at the root");
#define C(i) (src[i] == ROOT[i])
  PRE(C(0) && C(1) && C(2) && C(3) && C(4) && C(5) && C(6) && C(7) && C(8) && C(9) && C(10) && C(11) && C(12) && C(13) && C(14) && C(15) && C(16) && C(17) && C(18) && C(19) && C(20), "the name asked for is the root name");
  PRE(dst == tstr(g_pos[c]) && n == tlen(g_pos[c]), "the names of the members are asked for in order");
  g_asked = c + 1;
  bool r = g_all ? c == g_jw : g_root[c];
  if (r) g_hit = c;
  return r;
}
int spec_skip(const jsmntok_t *t, const int count, int idx) {
  PRE(same_tokens(t) && count == g_count && idx >= 0 && idx < count, "skip a token");
  PRE(g_asked > 0 && idx == g_pos[g_asked - 1], "members are skipped in order");
  int r = g_pos[g_asked];
  REQUIRES(r > idx && r <= count); /* contract of skip_json_token, unit c12_skip */
  return r;
}
int spec_members(struct Voucher *v, const uint8_t *json, const jsmntok_t *t, const int count, const int obj) {
  PRE(same_tokens(t) && count == g_count && json == g_json && obj >= 0 && obj < count, "members of an object");
  PRE(v != NULL && g_hit >= 0 && obj == g_pos[g_hit] + 1 && g_tok[obj].type == JSMN_OBJECT, "the members are those of the object under the root name");
  g_sets++; /* what it sets: see unit c12_members */
  return g_set_ok ? 0 : -1;
}
#endif
#if WHICH == 1 && !defined(VSMALL)
static int g_obj;
int spec_set(struct Voucher *v, const char *k, const size_t kn, const char *val, const size_t vn) {
  int c = g_asked, m = g_obj + 2 * c + 1;
  PRE(c >= 0 && c < g_tok[g_obj].size && m + 1 < g_count, "one call per member");
  if (c < 0 || m + 1 >= g_count) return -1;
  PRE(v == g_v, "members go to the voucher");
  PRE(member(g_obj, m) && plain(m + 1), "members are well-formed, with a plain value");
  PRE(k == tstr(m) && kn == tlen(m), "each member is taken under its own name, in order");
  PRE(val == tstr(m + 1) && vn == tlen(m + 1), "each member is taken with its own value");
  g_asked = c + 1;
  bool ok = g_all || nd_bool();
  if (c == g_jw) g_wit_ok = ok;
  return ok ? 0 : -1;
}
#endif
#if WHICH == 1
int set_json_members_voucher(struct Voucher *v, const uint8_t *json, const jsmntok_t *t, const int count, const int obj);
#endif
#if WHICH == 2
#ifndef VSMALL
short g_S[33]; int g_from, g_j;
#endif
int skip_json_token(const jsmntok_t *t, const int count, int idx);
#endif
#if WHICH == 4
bool check_size_str_equal(const char *src, const char *dst, const size_t n);
#endif
/* ---- one member --------------------------------------------------------- */
#if WHICH == 3 || defined(VSMALL)
static const char *g_val; static size_t g_vn; /* value under conversion; g_any: any */
static bool g_any;
static struct tm g_tm; static int g_bool; static uint8_t *g_arr; static size_t g_arrn; static char g_arrk;
static int g_uses;
#define IS_VAL(p, n) (g_any || ((p) == g_val && (n) == g_vn))
/* contracts of the conversions (C09, C21) and of sys_strndup (C13) */
ssize_t serialize_base64str2array(const uint8_t *src, const size_t n, uint8_t **out) {
  PRE(IS_VAL((const char *)src, n) && out != NULL, "the base64 text is the value");
  if (lib_fails()) return -1;
  size_t m = g_any ? 2 : mk_len();
  uint8_t *a = malloc(m);
  if (a == NULL) return -1;
  if (g_any) { a[0] = (uint8_t)((const char *)src - (const char *)g_json); a[1] = (uint8_t)n; }
  g_arrn = m;
  g_arrk = g_k < m ? (char)a[g_k] : 0;
  g_uses++;
  *out = a;
  return (ssize_t)m;
}
int serialize_str2time(const char *s, const struct tm *tm) {
  PRE(s != NULL && WR_OK((void *)tm, sizeof *tm), "serialize_str2time of a text");
  size_t n = str_len(s);
  if (!g_any) {
    PRE(n <= g_vn && n <= 63 && (n == g_vn || n == 63 || g_val[n] == 0), "the date-time text is the value (its first 63 characters)");
    PRE(!(g_k < n) || s[g_k] == g_val[g_k], "the date-time text is the value");
  } else { g_tm.tm_sec = s[0]; g_tm.tm_min = (int)n; }
  if (lib_fails()) return -1;
  *(struct tm *)tm = g_tm;
  g_uses++;
  return 0;
}
int serialize_str2bool(const char *s, const size_t n) {
  PRE(IS_VAL(s, n), "the boolean text is the value");
  if (g_bool < 0) { g_depfail = true; return -1; }
  g_uses++;
  return g_bool;
}
char *sys_strndup(const char *const s, const size_t n) {
  if (s == NULL) return NULL;
  PRE(IS_VAL(s, n), "the text copied is the value");
  PRE(RD_OK(s, n), "the text copied is in bounds");
  char *d = malloc(n + 1);
  if (d == NULL) return NULL;
  if (n > 0) memcpy(d, s, n);
  d[n] = 0;
  str_known(d, n);
  g_uses++;
  return d;
}
#endif
#if WHICH == 3
int set_keyvalue_voucher(struct Voucher *v, const char *k, const size_t kn, const char *val, const size_t vn);
static const char *g_kp; static size_t g_kn; static int g_name, g_assert;
#ifndef VSMALL
bool spec_equal(const char *src, const char *dst, const size_t n) {
  bool key = dst == g_kp && n == g_kn, val = dst == g_val && n == g_vn;
  PRE(key || val, "names are compared with the name or the value of the member");
  bool r = false;
  for (int i = 0; i < NATTR; i++) if (key && i == g_name && is(src, NAMES[i])) r = true;
  for (int i = 1; i < 4; i++) if (val && i == g_assert && is(src, ASSERTIONS[i])) r = true;
  return r;
}
#endif
static void harness3(void) {
  struct Voucher *v = mk_voucher();
#ifdef VSMALL
  g_name = nd_u8();
  REQUIRES(g_name <= NATTR);
  const char *names[NATTR + 1];
  for (int i = 0; i < NATTR; i++) names[i] = NAMES[i];
  names[NATTR] = "noncex";
  g_kp = names[g_name]; g_kn = strlen(g_kp);
  if (nd_bool()) { g_kn--; g_name = NATTR; } /* a prefix of a name is no name ... */
  if (g_kn == 5 && lit(g_kp, 5, "nonce")) g_name = 7; /* ... unless it is another */
  g_assert = nd_u8() & 3;
  if (g_name == 2) { g_val = g_assert == 0 ? "log" : ASSERTIONS[g_assert]; g_vn = strlen(g_val); }
  else { g_vn = mk_len(); g_val = (const char *)mk_bytes(g_vn); for (size_t i = 0; i < VSMALL_LEN; i++) if (i < g_vn) REQUIRES(g_val[i] != 0); }
#else
  g_kn = mk_len(); g_kp = mk_raw(g_kn);
  g_vn = mk_len(); g_val = mk_raw(g_vn);
  REQUIRES(g_kn <= INT_MAX && g_vn <= INT_MAX); /* the positions of a token are ints */
  REQUIRES(!(g_k < g_vn) || g_val[g_k] != 0); /* the parser ends at a NUL: no value holds one */
  g_name = nd_u8(); g_assert = nd_u8();
  REQUIRES(g_name <= NATTR && g_assert < 4);
#ifdef NAME
  REQUIRES(g_name == NAME);
#endif
#endif
  g_bool = nd_int();
  REQUIRES(g_bool >= -1 && g_bool <= 1);
  fill_tm(&g_tm);
  struct vstate s0 = see(v);
  int attr = g_name < NATTR ? (int)ATTRS[g_name] : -1;
  int kind = g_name < NATTR ? kind_of(attr) : K_NONE;
  v_begin();
  int r = set_keyvalue_voucher(v, g_kp, g_kn, g_val, g_vn);
  v_end();
  if (r == 0) {
    REACH("c12 member set");
    ENSURES(kind != K_NONE, "c12: an unknown name is refused");
    ENSURES(!g_depfail && !g_oom, "c12: any failure on the way is a refusal");
    OTHERS_SAME(v, &s0, attr, "c12: a member changes no other attribute");
    if (kind == K_TIME) {
      const struct tm *t = g_name == 0 ? &v->created_on : g_name == 1 ? &v->expires_on : &v->last_renewal_date;
      ENSURES(tm_eq(t, &g_tm), "c12: a date-time attribute holds the conversion of the value");
    }
    if (kind == K_ENUM) ENSURES(g_assert > 0 && v->assertion == (g_assert == 1 ? VOUCHER_ASSERTION_VERIFIED : g_assert == 2 ? VOUCHER_ASSERTION_LOGGED : VOUCHER_ASSERTION_PROXIMITY), "c12: the assertion is the one named by the value");
    if (kind == K_BOOL) ENSURES(v->domain_cert_revocation_checks == (g_bool == 1), "c12: the boolean attribute holds the conversion of the value");
    if (kind == K_STR) {
      ENSURES(v->serial_number != NULL && RD_OK(v->serial_number, g_vn + 1) && v->serial_number[g_vn] == 0, "c12: the serial number has the length of the value");
      ENSURES(!(g_k < g_vn) || v->serial_number[g_k] == g_val[g_k], "c12: the serial number holds the value");
    }
    if (kind == K_ARR) {
      const struct BinaryArray *a = g_name == 4 ? &v->idevid_issuer : g_name == 5 ? &v->pinned_domain_cert : g_name == 7 ? &v->nonce : g_name == 9 ? &v->prior_signed_voucher_request : &v->proximity_registrar_cert;
      ENSURES(a->length == g_arrn && (!(g_k < g_arrn) || (char)a->array[g_k] == g_arrk), "c12: an array attribute holds the conversion of the value");
    }
  } else {
    REACH("c12 member refused");
    ENSURES(kind == K_NONE || g_depfail || g_oom || (kind == K_ENUM && g_assert == 0) || (kind == K_STR && g_vn >= 128), "c12: a known member with a right value is taken");
  }
  free_voucher(v);
  NO_LEAK("c12: taking a member leaks nothing");
}
#endif
#if WHICH == 0
#ifdef VSMALL
/* texts, the place of the nonce value in each ("": none), and whether each is a voucher */
#define R "{\"ietf-voucher:voucher\":"
static const struct { const char *text, *nonce; bool ok; } MENU[] = {
  {R "{\"nonce\":\"AAAA\"}}", "AAAA", true},
  {R "{\"assertion\":\"logged\",\"nonce\":\"AAAA\",\"serial-number\":\"1\"}}", "AAAA", true},
  {R "{\"serial-number\":\"1\"}}", "", true},
  {R "{\"nonce\":\"BBB\",\"nonce\":\"AA\"}}", "AA", true},
  {R "{\"created-on\":\"C\",\"expires-on\":\"EE\",\"assertion\":\"proximity\",\"serial-number\":\"SN\",\"idevid-issuer\":\"I\",\"pinned-domain-cert\":\"PIN\",\"domain-cert-revocation-checks\":true,\"nonce\":\"AAAA\",\"last-renewal-date\":\"L\",\"prior-signed-voucher-request\":\"PRIOR\",\"proximity-registrar-cert\":\"PROXIM\"}}", "AAAA", true},
  {R "{}}", "", true},
  {"{\"x\":{\"nonce\":[1,2]}, \"y\":[{\"z\":1}], \"ietf-voucher:voucher\":{\"nonce\":\"AA\"}}", "AA", true},
  {R "{\"nonce\":\"AA\"}, \"nonce\":\"BBB\"}", "AA", true},
  {"{\"ietf-voucher\":{\"nonce\":\"AA\"}}", "", false},
  {"{\"ietf-voucher:voucherx\":{\"nonce\":\"AA\"}}", "", false},
  {"{\"nonce\":\"AA\"}", "", false},
  {"{\"x\":{\"ietf-voucher:voucher\":{\"nonce\":\"AA\"}}}", "", false},
  {"{\"x\":\"ietf-voucher:voucher\",\"y\":{\"nonce\":\"AA\"}}", "", false},
  {R "\"nonce\"}", "", false},
  {R "[\"nonce\",\"AA\"]}", "", false},
  {R "{\"nonce\"}}", "", false},
  {R "{\"nonce\":\"AA\",\"serial-number\"}}", "", false},
  {R "{\"nonc\":\"AA\"}}", "", false},
  {R "{\"noncex\":\"AA\"}}", "", false},
  {R "{\"other\":\"AA\"}}", "", false},
  {R "{\"nonce\":{\"nonce\":\"AA\"}}}", "", false},
  {R "{\"nonce\":[\"AA\"]}}", "", false},
  {R "{\"nonce\":\"AA\":\"BB\"}}", "", false},
  {R "{\"assertion\":\"log\"}}", "", false},
  {R "{\"nonce\":\"AA\"}", "", false},
  {"[" R "{\"nonce\":\"AA\"}}]", "", false},
  {"\"ietf-voucher:voucher\"", "", false},
  {"{}", "", false},
  {"", "", false},
};
#define MENU_N (sizeof MENU / sizeof MENU[0])
#define IS_ARR(a, n) ((a).length == 2 && (a).array[1] == (n))
static void try_text(const char *text, const char *nonce, bool ok, bool all) {
  g_any = true; g_bool = 1;
  size_t n = 0, at = 0, nn = 0;
  while (text[n] != 0) n++;
  while (nonce[nn] != 0) nn++;
  if (nn > 0) for (size_t i = 0; i + nn < n; i++) if (text[i] == '"' && text[i + nn + 1] == '"' && lit(text + i + 1, nn, nonce)) at = i + 1;
  g_json = (const uint8_t *)text; g_jlen = n;
  v_begin();
  struct Voucher *v = deserialize_voucher(g_json, g_jlen);
  v_end();
  if (v != NULL) {
    REACH("c12 voucher");
    ENSURES(ok, "c12: a voucher comes only from the object under the exactly named root of a well-formed text");
    ENSURES(!g_depfail && !g_oom, "c12: any failure on the way gives no voucher");
    ENSURES(nn > 0 ? v->nonce.length == 2 && v->nonce.array[0] == at && v->nonce.array[1] == nn : v->nonce.array == NULL, "c12: an attribute holds the value of the member of that name");
    if (all) {
      REACH("c12 every attribute");
      ENSURES(v->created_on.tm_sec == 'C' && v->created_on.tm_min == 1 && v->expires_on.tm_sec == 'E' && v->expires_on.tm_min == 2 && v->last_renewal_date.tm_sec == 'L', "c12: date-time attributes hold the conversion of the value");
      ENSURES(v->assertion == VOUCHER_ASSERTION_PROXIMITY && v->domain_cert_revocation_checks, "c12: assertion and revocation checks hold the conversion of the value");
      ENSURES(v->serial_number[0] == 'S' && v->serial_number[1] == 'N' && v->serial_number[2] == 0, "c12: the serial number holds the value");
      ENSURES(IS_ARR(v->idevid_issuer, 1) && IS_ARR(v->pinned_domain_cert, 3) && IS_ARR(v->prior_signed_voucher_request, 5) && IS_ARR(v->proximity_registrar_cert, 6), "c12: an array attribute holds the conversion of the value");
    }
    free_voucher(v);
  } else {
    REACH("c12 no voucher");
    ENSURES(!ok || g_depfail || g_oom, "c12: a well-formed voucher text gives a voucher");
  }
  NO_LEAK("c12: parsing leaks nothing");
}
static void harness0(void) {
  int c = nd_u8();
  REQUIRES(c >= 0 && c < MENU_N);
  for (int i = 0; i < MENU_N; i++) if (i == c) try_text(MENU[i].text, MENU[i].nonce, MENU[i].ok, i == 4);
}
#else
static void harness0(void) {
  mk_tokens();
  bool nj = nd_bool();
  bool obj = g_count >= 1 && g_tok[0].type == JSMN_OBJECT;
  for (int i = 0; i < 64; i++) { g_root[i] = nd_bool(); g_pos[i] = nd_int(); }
  g_pos[0] = 1;
  g_asked = g_sets = 0; g_hit = -1;
  g_set_ok = nd_bool();
  g_all = nd_bool(); /* every member is well-formed, and the one at g_jw is the root */
  g_jw = nd_int();
  if (g_all) {
    REQUIRES(!nj && obj && g_jw >= 0 && g_jw < g_tok[0].size && g_set_ok && g_pos[g_jw] >= 0 && g_pos[g_jw] < g_count - 1 && g_tok[g_pos[g_jw] + 1].type == JSMN_OBJECT);
  }
  v_begin();
  struct Voucher *v = deserialize_voucher(nj ? NULL : g_json, g_jlen);
  v_end();
  if (v != NULL) {
    REACH("c12 voucher");
    ENSURES(!g_oom, "c12: any failure on the way gives no voucher");
    ENSURES(!nj && obj && g_hit >= 0 && g_sets == 1 && g_set_ok, "c12: a voucher comes only from the object under the exactly named root of a well-formed text");
    ENSURES(v->assertion == VOUCHER_ASSERTION_NONE && !v->domain_cert_revocation_checks && tm_zero(&v->created_on) && tm_zero(&v->expires_on) && tm_zero(&v->last_renewal_date) && v->serial_number == NULL &&
            v->nonce.array == NULL && v->idevid_issuer.array == NULL && v->pinned_domain_cert.array == NULL && v->prior_signed_voucher_request.array == NULL && v->proximity_registrar_cert.array == NULL,
            "c12: nothing but the members is set");
    free_voucher(v);
  } else {
    REACH("c12 no voucher");
    ENSURES(!g_all || g_oom, "c12: a well-formed voucher text gives a voucher");
  }
  NO_LEAK("c12: parsing leaks nothing");
}
#endif
#endif
void harness(void) {
  g_k = nd_size();
#if WHICH == 0
  harness0();
#elif WHICH == 1
  mk_tokens();
  REQUIRES(g_count > 0);
  int obj = nd_int();
  REQUIRES(obj >= 0 && obj < g_count);
#ifndef VSMALL
  g_obj = obj;
  g_v = mk_raw(sizeof *g_v);
  g_all = nd_bool(); g_jw = nd_int(); g_asked = 0; g_wit_ok = false;
  REQUIRES(g_jw >= 0);
#else
  g_v = mk_voucher();
  g_any = true; g_bool = 1;
  bool good = true;
  int wit = -1;
  for (int j = 0; j < NT; j++)
    if (j < g_tok[obj].size) {
      int m = obj + 1 + 2 * j;
      if (good && !(member(obj, m) && plain(m + 1))) good = false;
      if (good) {
        bool known = false;
        for (int a = 0; a < NATTR; a++) if (lit(tstr(m), tlen(m), NAMES[a])) known = true;
        if (!known) good = false;
        if (lit(tstr(m), tlen(m), "nonce")) wit = m + 1;
      }
    }
#endif
  v_begin();
  int r = set_json_members_voucher(g_v, g_json, g_tok, g_count, obj);
  v_end();
  if (r == 0) {
    REACH("c12 members set");
#ifndef VSMALL
    ENSURES(g_asked == g_tok[obj].size, "c12: every member is taken");
    ENSURES(!(g_jw < g_tok[obj].size) || g_wit_ok, "c12: members are taken only if every one has a right value");
#else
    ENSURES(good, "c12: members are taken only if every one is well-formed and has a right value");
    if (wit >= 0) ENSURES(g_v->nonce.length == 2 && g_v->nonce.array[0] == g_tok[wit].start && g_v->nonce.array[1] == tlen(wit), "c12: an attribute holds the value of the member of that name");
#endif
  } else {
    REACH("c12 members refused");
#ifndef VSMALL
    ENSURES(!g_all, "c12: right members are taken");
#endif
  }
#ifdef VSMALL
  free_voucher(g_v);
#endif
  NO_LEAK("c12: taking members leaks nothing");
#elif WHICH == 2
  mk_tokens();
  REQUIRES(g_count > 0);
  int i = nd_int();
  REQUIRES(i >= 0 && i < g_count);
  /* the token and all it contains: one token, and as many more as are announced */
#ifndef VSMALL
  g_from = i;
  g_j = nd_int();
  for (int j = 0; j <= NT; j++) { g_S[j] = (short)nd_int(); REQUIRES(g_S[j] >= -NT && g_S[j] <= NT * 63); }
  int r = skip_json_token(g_tok, g_count, i);
  ENSURES(r > i && r <= g_count, "c12: skipping a token moves on, within the tokens");
  ENSURES(r == g_count || g_S[r] - g_S[i] == -1, "c12: skipping a token goes past all it contains");
  ENSURES(!(i < g_j && g_j < r) || g_S[g_j] - g_S[i] > -1, "c12: skipping a token goes no further than what it contains");
#else
  int r = skip_json_token(g_tok, g_count, i);
  int p = 1, e = i;
  for (int j = 0; j < NT; j++) if (p > 0 && e < g_count) { p += g_tok[e].size - 1; e++; }
  ENSURES(r == e, "c12: skipping a token skips exactly what it contains");
#endif
  REACH("c12 skip");
#elif WHICH == 3
  harness3();
#else
  int i = nd_int();
  REQUIRES(i >= 0 && i < NATTR + 4);
  size_t n = mk_len();
  char *d = (char *)mk_bytes(n);
  for (int c = 0; c < NATTR + 4; c++)
    if (c == i) {
      const char *src = c < NATTR ? NAMES[c] : c < NATTR + 3 ? ASSERTIONS[c - NATTR + 1] : ROOT;
      bool r = check_size_str_equal(src, d, n);
      if (r) { REACH("c12 equal"); }
      ENSURES(r == lit(d, n, src), "c12: a name is equal only to exactly itself");
    }
#endif
}

/* C11: serialize_voucher, voucher_to_keyvalue, serialize_child_voucher,
 * serialize_attr_voucher, escape_serialize_time, escape_serialize_array.
 * g_a is the witness: an arbitrary attribute.  The texts made by the callees say
 * what they are of: t[0] is what the text is, t[1] and t[2] of what. */
#include "c10.h"
#include "/repo/src/voucher/keyvalue.h"
#include "/repo/src/voucher/serialize.h"
#define NATTR 11
#define ROOT NATTR
#define NOTNAME (NATTR + 1)
static const char *NAMES[NATTR + 1] = {"created-on", "expires-on", "assertion", "serial-number", "idevid-issuer", "pinned-domain-cert", "domain-cert-revocation-checks", "nonce",
                                       "last-renewal-date", "prior-signed-voucher-request", "proximity-registrar-cert", "ietf-voucher:voucher"};
static const char *ASSERTIONS[4] = {NULL, "verified", "logged", "proximity"};
static const enum VoucherAttributes ATTRS[NATTR] = {ATTR_CREATED_ON, ATTR_EXPIRES_ON, ATTR_ASSERTION, ATTR_SERIAL_NUMBER, ATTR_IDEVID_ISSUER, ATTR_PINNED_DOMAIN_CERT, ATTR_DOMAIN_CERT_REVOCATION_CHECKS,
                                                    ATTR_NONCE, ATTR_LAST_RENEWAL_DATE, ATTR_PRIOR_SIGNED_VOUCHER_REQUEST, ATTR_PROXIMITY_REGISTRAR_CERT};
enum { T_TIME = 1, T_B64, T_BOOL, T_QUOTED, T_JSON };
static int g_a, g_kind; static bool g_present;
static struct tm g_tm; static struct bsnap g_arr; static const char *g_text; static size_t g_len; static char g_ch; static bool g_bool;

static bool lib_fails(void) { if (nd_bool()) { g_depfail = true; return true; } return false; }
static char *text(int kind, int a, int b) {
  if (lib_fails()) return NULL;
  char *t = malloc(4);
  if (t == NULL) return NULL;
  t[0] = (char)kind; t[1] = (char)(1 + a); t[2] = (char)(1 + b); t[3] = 0;
  return t;
}
static bool lit(const char *s, const char *name) {
  for (int i = 0; i < 31; i++) {
    if (s[i] != name[i]) return false;
    if (s[i] == 0) return true;
  }
  return false;
}
/* contracts of the conversions (C21, C08) */
char *serialize_time2str(const struct tm *t) { PRE(RD_OK(t, sizeof *t), "serialize_time2str of a time"); return text(T_TIME, g_kind == K_TIME && tm_eq(t, &g_tm), 0); }
char *serialize_bool2str(const bool b) { return text(T_BOOL, b, 0); }
ssize_t serialize_array2base64str(const uint8_t *a, const size_t n, uint8_t **out) {
  PRE(out != NULL, "serialize_array2base64str with a place for the text");
  PRE(n == 0 || RD_OK(a, n), "serialize_array2base64str of an array");
  char *t = text(T_B64, g_kind == K_ARR && bsnap_is(g_arr, a, n), 0);
  *out = (uint8_t *)t;
  return t == NULL ? -1 : 3;
}
char *serialize_escapestr(const char *s) {
  if (s == NULL) return NULL;
  int name = NOTNAME;
  for (int i = 0; i < NATTR + 1; i++) if (lit(s, NAMES[i])) name = i;
  bool wit = false;
  if (g_kind == K_TIME || g_kind == K_ARR) wit = s[0] == (g_kind == K_TIME ? T_TIME : T_B64) && s[1] == 2;
  else if (g_kind == K_ENUM) wit = g_text != NULL && lit(s, g_text);
  else if (g_kind == K_STR && g_text != NULL) { size_t n = str_len(s); wit = n == g_len && (!(g_k < n) || s[g_k] == g_ch); }
  return text(T_QUOTED, name, wit);
}
/* contracts of the lists (C13) and of serialize_keyvalue2json (unit c11_json) */
#define NL 3
static struct { struct keyvalue_list *l; int n, wit, root, child, json; bool val, names; } g_l[NL];
static int g_nl;
struct keyvalue_list *init_keyvalue_list(void) {
  if (lib_fails()) return NULL;
  struct keyvalue_list *l = malloc(sizeof *l);
  if (l == NULL) return NULL;
  PRE(g_nl < NL, "few lists");
  g_l[g_nl].l = l; g_l[g_nl].names = g_l[g_nl].val = true; g_l[g_nl].child = -1;
  g_nl++;
  return l;
}
static int which(const struct keyvalue_list *l) {
  int w = -1;
  for (int i = 0; i < NL; i++) if (i < g_nl && g_l[i].l == l) w = i;
  PRE(w >= 0, "a list that was made before");
  return w < 0 ? 0 : w;
}
void free_keyvalue_list(struct keyvalue_list *l) { if (l != NULL) { which(l); free(l); } }
int push_keyvalue_list(struct keyvalue_list *l, char *const k, char *const v) {
  if (l == NULL || k == NULL || v == NULL) return -1;
  int w = which(l);
  if (lib_fails()) return -1;
  int name = k[0] == T_QUOTED ? k[1] - 1 : NOTNAME;
  g_l[w].n++;
  if (name == ROOT) {
    g_l[w].root++;
    g_l[w].child = v[0] == T_JSON ? v[1] - 1 : -1;
  } else if (name == NOTNAME) g_l[w].names = false;
  else if (name == g_a) {
    g_l[w].wit++;
    if (!(g_kind == K_BOOL ? v[0] == T_BOOL && v[1] == 1 + g_bool : v[0] == T_QUOTED && v[2] == 2)) g_l[w].val = false;
  }
  return 0;
}
char *serialize_keyvalue2json(const struct keyvalue_list *l) {
  if (l == NULL) return NULL;
  int w = which(l);
  if (g_l[w].n == 0) return NULL;
  g_l[w].json++;
  PRE(g_l[w].json == 1, "each list is written once");
  return text(T_JSON, w, 0);
}
#if WHICH == 0
/* contract of serialize_attr_voucher, proved of the real one in unit c11_attr */
static const struct Voucher *g_v;
char *spec_attr(const struct Voucher *v, const enum VoucherAttributes attr) {
  PRE(v == g_v, "serialize_attr_voucher of the voucher");
  if (attr == ATTR_DOMAIN_CERT_REVOCATION_CHECKS) return text(T_BOOL, v->domain_cert_revocation_checks, 0);
  return text(T_QUOTED, NOTNAME, attr == ATTRS[g_a]);
}
#else
char *serialize_attr_voucher(const struct Voucher *v, const enum VoucherAttributes attr);
#endif
void harness(void) {
  g_k = nd_size();
  bool nv = nd_bool();
#ifdef ATTR
  g_a = ATTR;
#else
  g_a = nd_u8();
  REQUIRES(g_a < NATTR);
#endif
  struct Voucher *v = mk_voucher();
  struct vstate s0 = see(v);
  g_kind = kind_of(ATTRS[g_a]);
  if (g_kind == K_TIME) {
    g_tm = g_a == 0 ? v->created_on : g_a == 1 ? v->expires_on : v->last_renewal_date;
    g_present = !tm_zero(&g_tm);
  } else if (g_kind == K_ARR) {
    g_arr = g_a == 4 ? s0.issuer : g_a == 5 ? s0.pinned : g_a == 7 ? s0.nonce : g_a == 9 ? s0.prior : s0.proximity;
    g_present = g_arr.present;
  } else if (g_kind == K_ENUM) {
    g_text = ASSERTIONS[v->assertion == VOUCHER_ASSERTION_VERIFIED ? 1 : v->assertion == VOUCHER_ASSERTION_LOGGED ? 2 : v->assertion == VOUCHER_ASSERTION_PROXIMITY ? 3 : 0];
    g_present = g_text != NULL;
  } else if (g_kind == K_STR) {
    g_text = v->serial_number;
    g_present = g_text != NULL;
    if (g_present) { g_len = str_len(g_text); g_ch = s0.sk; }
  } else { g_bool = v->domain_cert_revocation_checks; g_present = true; }
#if WHICH == 1
  REQUIRES(g_present); /* it is asked for the present attributes only */
  v_begin();
  char *t = serialize_attr_voucher(v, ATTRS[g_a]);
  v_end();
  if (t != NULL) {
    REACH("c11 attribute text");
    ENSURES(!g_depfail && !g_oom, "c11: if the text of an attribute cannot be produced there is none");
    ENSURES(g_kind == K_BOOL ? t[0] == T_BOOL && t[1] == 1 + g_bool : t[0] == T_QUOTED && t[2] == 2, "c11: the text of an attribute is of its own value");
    free(t);
  } else {
    ENSURES(g_depfail || g_oom, "c11: a present attribute has a text");
  }
  OTHERS_SAME(v, &s0, -1, "c11: writing an attribute does not change the voucher");
#else
  g_v = v;
  v_begin();
  char *j = serialize_voucher(nv ? NULL : v);
  v_end();
  OTHERS_SAME(v, &s0, -1, "c11: writing a voucher does not change it");
  if (j != NULL) {
    REACH("c11 json");
    ENSURES(!nv && !g_depfail && !g_oom, "c11: if any part cannot be produced there is no output");
    bool js = j[0] == T_JSON;
    ENSURES(js, "c11: the output is the text of one object");
    if (js) {
      int r = j[1] - 1, c = g_l[r].child;
      ENSURES(g_l[r].n == 1 && g_l[r].root == 1, "c11: the object has the voucher root as its single member");
      ENSURES(c >= 0 && c != r, "c11: the voucher root is the object of the attributes");
      if (c >= 0 && c != r) {
        ENSURES(g_l[c].names && g_l[c].root == 0, "c11: only attributes under their standard names are written");
        if (g_present) { REACH("c11 present"); }
        ENSURES(g_l[c].wit == (g_present ? 1 : 0), "c11: exactly the present attributes are written, each once");
        ENSURES(g_l[c].val, "c11: an attribute is written with its own value");
      }
    }
    free(j);
  } else {
    REACH("c11 refused");
    ENSURES(nv || g_depfail || g_oom, "c11: a voucher is refused only when a part cannot be produced");
  }
#endif
  free_voucher(v);
  NO_LEAK("c11: writing a voucher leaks nothing");
}

/* Loop contracts and ghost steps at the annotation points of /repo (define
 * BRSKI_VERIFY).  Only read by goto-cc, never by an ordinary build. */
#ifndef HOOKS_H
#define HOOKS_H
#include <stddef.h>
#include <stdint.h>
#define VERIFY_LOOP(name) VERIFY_LOOP_##name
#define VERIFY_STEP(name) VERIFY_STEP_##name
extern size_t g_k;  /* the witness index: an arbitrary output position */
extern size_t g_q;  /* ghost: whole blocks done */

extern uint8_t g_want; /* ghost: the character (byte) that belongs at g_k, computed by the specification */

#define VERIFY_LOOP_base64_encode \
  __CPROVER_assigns(in, pos, g_q, __CPROVER_object_whole(out)) \
  __CPROVER_loop_invariant(g_q <= g_m && in == src + 3 * g_q && pos == out + 4 * g_q) \
  __CPROVER_loop_invariant(!(g_k < 4 * g_q) || out[g_k] == g_want) \
  __CPROVER_decreases(g_m - g_q)
#define VERIFY_STEP_base64_encode g_q = g_q + 1;
extern size_t g_m;  /* ghost: number of whole blocks in the input */
/* base64 decoding of a text src of length len.
 * g_P[i]: number of alphabet characters among the first i (a ghost function given
 * by its recursive definition, assumed only at the index in use; g_P[a] <= g_P[b]
 * for a <= b follows by induction, unit c09_lemma).
 * g_rt: the text is the encoding of g_x (g_n = 3 * g_m + g_t bytes) with any other
 * characters between; then the character of rank j is the j-th one of the encoding,
 * again assumed only at the index in use: g_w is the block of rank g_B, which holds
 * the byte g_k, and g_l the last, padded block. */
extern size_t *g_P, g_B, g_t;
extern _Bool g_rt;
extern uint8_t g_w[4], g_l[4], g_ws[4];
#define B64_VALID(c) (((c) >= 'A' && (c) <= 'Z') || ((c) >= 'a' && (c) <= 'z') || ((c) >= '0' && (c) <= '9') || (c) == '+' || (c) == '/' || (c) == '=')
#define VERIFY_LOOP_base64_count \
  __CPROVER_assigns(i, count) \
  __CPROVER_loop_invariant(i <= len && count <= i && count == g_P[i]) \
  __CPROVER_decreases(len - i)
#define VERIFY_STEP_base64_count __CPROVER_assume(g_P[i + 1] == g_P[i] + (B64_VALID(src[i]) ? 1 : 0));
#define VERIFY_LOOP_base64_decode \
  __CPROVER_assigns(i, pos, count, tmp, pad, g_q, __CPROVER_object_whole(block), __CPROVER_object_whole(*out)) \
  __CPROVER_loop_invariant(i <= len + extra_pad && count <= 3 && pad >= 0 && (size_t)pad <= count) \
  __CPROVER_loop_invariant(g_q <= len && pos == *out + 3 * g_q) \
  __CPROVER_loop_invariant(4 * g_q + count == (i <= len ? g_P[i] : g_P[len] + (i - len))) \
  __CPROVER_loop_invariant(!g_rt || g_q <= g_m) \
  __CPROVER_loop_invariant(!g_rt || pad == (g_q == g_m && g_t == 1 && count == 3 ? 1 : 0)) \
  __CPROVER_loop_invariant(!g_rt || !(g_k < g_n) || g_q <= g_B || (*out)[g_k] == g_want) \
  __CPROVER_loop_invariant(!g_rt || g_q != g_B || ((count < 1 || block[0] == g_ws[0]) && (count < 2 || block[1] == g_ws[1]) && (count < 3 || block[2] == g_ws[2]))) \
  __CPROVER_decreases(len + extra_pad - i)
#define VERIFY_STEP_base64_decode \
  if (i < len) { \
    __CPROVER_assume(g_P[i + 1] == g_P[i] + (B64_VALID(src[i]) ? 1 : 0)); \
    __CPROVER_assume(g_P[i + 1] <= g_P[len]); \
    if (g_rt && B64_VALID(src[i])) { \
      __CPROVER_assume(g_P[i] >= 4 * g_m || src[i] != '='); \
      __CPROVER_assume((g_P[i] >> 2) != g_B || src[i] == g_w[g_P[i] & 3]); \
      __CPROVER_assume((g_P[i] >> 2) != g_m || src[i] == g_l[g_P[i] & 3]); \
    } \
  } \
  if ((i >= len || B64_VALID(src[i])) && count == 3) g_q = g_q + 1;
extern size_t g_n;

/* lists of any length (crypto_ossl.c): see specs/ossl_w.h */
#include "/repo/src/voucher/array.h"
extern struct BinaryArrayList g_node, g_head;
extern size_t g_i, g_ct_n;
extern void *g_W, *g_Wc, *g_ct_k;
extern int g_w_ref, g_c_ref, g_wf, g_ct_kind;
extern _Bool g_w_ok, g_depfail, g_oom;
extern const uint8_t *g_wa;
extern size_t g_wl;
extern unsigned char nondet_uchar(void);
uint64_t nu_u64(void);
#define LIST_STEP \
  if (g_i == g_k) { g_node.arr = (uint8_t *)g_wa; g_node.length = g_wl; g_node.flags = g_wf; } \
  else { g_node.arr = g_oa; g_node.length = g_ol = nu_u64(); __CPROVER_assume(g_ol <= g_oal); g_node.flags = (int)nu_u64(); } \
  g_i = g_i + 1; \
  g_node.list.next = g_i < g_n ? &g_node.list : &g_head.list;
extern uint8_t *g_oa;
extern size_t g_ol, g_oal;
#define VERIFY_LOOP_cert_stack \
  __CPROVER_assigns(el, g_i, g_node.arr, g_node.length, g_node.flags, g_node.list.next, g_ct_n, g_ct_k, g_ct_kind, g_w_ref, g_w_ok, g_depfail, g_ol) \
  __CPROVER_loop_invariant(g_i <= g_n && el == (g_i < g_n ? &g_node : &g_head)) \
  __CPROVER_loop_invariant(!g_depfail && g_ct_n == g_i) \
  __CPROVER_loop_invariant(g_w_ref == (g_i > g_k ? 1 : 0) && (!(g_i > g_k) || (g_ct_k == g_W && g_w_ok))) \
  __CPROVER_decreases(g_n - g_i)
#define VERIFY_STEP_cert_stack LIST_STEP
extern size_t g_pl_n;
extern void *g_pl_k;
extern int g_pl_f;
#define VERIFY_LOOP_cert_store \
  __CPROVER_assigns(el, g_i, g_node.arr, g_node.length, g_node.flags, g_node.list.next, g_ct_n, g_ct_k, g_ct_kind, g_w_ref, g_c_ref, g_w_ok, g_depfail, g_ol, g_pl_n, g_pl_k, g_pl_f) \
  __CPROVER_loop_invariant(g_i <= g_n && el == (g_i < g_n ? &g_node : &g_head)) \
  __CPROVER_loop_invariant(!g_depfail && g_ct_n == g_i && g_pl_n == g_i) \
  __CPROVER_loop_invariant(g_w_ref == (g_i > g_k && g_wf == 0 ? 2 : 0) && g_c_ref == (g_i > g_k && g_wf == 1 ? 2 : 0)) \
  __CPROVER_loop_invariant(!(g_i > g_k) || (g_w_ok && g_pl_f == g_wf && g_pl_k == g_ct_k && ((g_wf == 0 && g_ct_k == g_W && g_ct_kind == 1) || (g_wf == 1 && g_ct_k == g_Wc && g_ct_kind == 2)))) \
  __CPROVER_decreases(g_n - g_i)
#define VERIFY_STEP_cert_store LIST_STEP
extern size_t g_ls_n;
extern _Bool g_ls_ok;
extern int g_lend;
#ifdef VLEND
#define VERIFY_LOOP_cms_signers \
  __CPROVER_assigns(idx, g_ls_n, g_ls_ok, g_lend, g_depfail) \
  __CPROVER_loop_invariant(0 <= idx && idx <= length && !g_depfail && g_lend == 0) \
  __CPROVER_loop_invariant(g_ls_n == (size_t)idx && (!((size_t)idx > g_k) || g_ls_ok)) \
  __CPROVER_decreases(length - idx)
#else
#define VERIFY_LOOP_cms_signers
#endif
#define VERIFY_STEP_cms_signers
#ifdef VCERTS
#define VERIFY_LOOP_config_certs \
  __CPROVER_assigns(cert_path, g_i, g_node.arr, g_node.length, g_node.flags, g_node.list.next, g_ol, g_ls_n, g_ls_ok, g_lend, g_depfail, g_oom) \
  __CPROVER_loop_invariant(g_i <= g_n && cert_path == (g_i < g_n ? &g_node : &g_head)) \
  __CPROVER_loop_invariant(!g_depfail && !g_oom && g_lend == 0 && g_ls_n == g_i && (!(g_i > g_k) || g_ls_ok)) \
  __CPROVER_decreases(g_n - g_i)
#define VERIFY_STEP_config_certs LIST_STEP
#else
#define VERIFY_LOOP_config_certs
#define VERIFY_STEP_config_certs
#endif
#ifdef VNAME
#include "/repo/src/voucher/keyvalue.h"
extern struct keyvalue_list g_kv, g_kvh;
extern char *g_wkey, *g_wval, *g_okey;
extern size_t g_nm_n;
extern _Bool g_nm_ok, g_nm_kv;
#define VERIFY_LOOP_name_pairs \
  __CPROVER_assigns(el, g_i, g_kv.key, g_kv.value, g_kv.list.next, g_nm_n, g_nm_ok, g_nm_kv, g_depfail) \
  __CPROVER_loop_invariant(g_i <= g_n && el == (g_i < g_n ? &g_kv : &g_kvh)) \
  __CPROVER_loop_invariant(!g_depfail && g_nm_n == g_i && g_nm_ok && (!(g_i > g_k) || (g_nm_kv && g_wkey != NULL && g_wval != NULL))) \
  __CPROVER_decreases(g_n - g_i)
#define VERIFY_STEP_name_pairs \
  if (g_i == g_k) { g_kv.key = g_wkey; g_kv.value = g_wval; } \
  else { g_kv.key = (nu_u64() & 1) ? NULL : g_okey; g_kv.value = (nu_u64() & 1) ? NULL : g_okey; } \
  g_i = g_i + 1; \
  g_kv.list.next = g_i < g_n ? &g_kv.list : &g_kvh.list;
#else
#define VERIFY_LOOP_name_pairs
#define VERIFY_STEP_name_pairs
#endif
#ifdef VJSON
#include "/repo/src/voucher/keyvalue.h"
extern struct keyvalue_list g_kv, g_kvh;
extern char *g_wkey, *g_wval, *g_okey, *g_oval, v_js[2][2];
extern size_t g_js_n, g_len, g_cap, g_tok_len;
extern _Bool g_js_ok, g_js_bad, g_tok_live, g_tok_wit, g_tok_sep;
extern int g_cur;
#define VERIFY_LOOP_json_members \
  __CPROVER_assigns(el, idx, length, json, g_i, g_kv.key, g_kv.value, g_kv.list.next, g_js_n, g_js_ok, g_js_bad, g_len, g_cap, g_cur, g_tok_len, g_tok_live, g_tok_wit, g_tok_sep, g_depfail, g_oom) \
  __CPROVER_loop_invariant(g_i <= g_n && el == (g_i < g_n ? &g_kv : &g_kvh) && idx == g_i && count == g_n) \
  __CPROVER_loop_invariant(!g_depfail && !g_oom && !g_js_bad && !g_tok_live && g_js_n == g_i && (!(g_i > g_k) || g_js_ok)) \
  __CPROVER_loop_invariant((g_cur == 0 || g_cur == 1) && json == v_js[g_cur] && length == g_len + 1 && g_cap >= length && g_len <= 1 + (g_i << 31)) \
  __CPROVER_decreases(g_n - g_i)
#define VERIFY_STEP_json_members \
  if (g_i == g_k) { g_kv.key = g_wkey; g_kv.value = g_wval; } \
  else { g_kv.key = g_okey; g_kv.value = g_oval; } \
  g_i = g_i + 1; \
  g_kv.list.next = g_i < g_n ? &g_kv.list : &g_kvh.list;
#else
#define VERIFY_LOOP_json_members
#define VERIFY_STEP_json_members
#endif
/* skipping a JSON token: g_S[i] is the sum of (size - 1) over the first i tokens,
 * given by its definition at the index in use; g_j: any position on the way */
#ifdef VSKIP
extern short g_S[33];
extern int g_from, g_j;
#define VERIFY_LOOP_skip_token \
  __CPROVER_assigns(pending, idx) \
  __CPROVER_loop_invariant(g_from <= idx && idx <= count && pending >= 0 && pending == 1 + g_S[idx] - g_S[g_from]) \
  __CPROVER_loop_invariant(!(g_from < g_j && g_j < idx) || 1 + g_S[g_j] - g_S[g_from] > 0) \
  __CPROVER_decreases(count - idx)
#define VERIFY_STEP_skip_token __CPROVER_assume(g_S[idx + 1] == g_S[idx] + tokens[idx].size - 1);
#else
#define VERIFY_LOOP_skip_token
#define VERIFY_STEP_skip_token
#endif
/* the members of a JSON object, in order; g_all: every one is well-formed */
#ifdef VATTRS
extern int g_asked, g_jw;
extern _Bool g_wit_ok, g_all, g_depfail;
#define JSON_MEMBER(o, k) ((k) + 1 < count && tokens[k].type == JSMN_STRING && tokens[k].size == 1 && tokens[k].start > tokens[o].start && tokens[(k) + 1].end < tokens[o].end)
#define VERIFY_LOOP_json_attributes \
  __CPROVER_assigns(j, g_asked, g_wit_ok) \
  __CPROVER_loop_invariant(0 <= j && j <= tokens[object_idx].size && g_asked == j && (!(j > g_jw) || g_wit_ok)) \
  __CPROVER_decreases(tokens[object_idx].size - j)
#define VERIFY_STEP_json_attributes \
  if (g_all) { int m_ = object_idx + 2 * j + 1; __CPROVER_assume(JSON_MEMBER(object_idx, m_)); __CPROVER_assume((tokens[m_ + 1].type == JSMN_STRING || tokens[m_ + 1].type == JSMN_PRIMITIVE) && tokens[m_ + 1].size == 0); }
#else
#define VERIFY_LOOP_json_attributes
#define VERIFY_STEP_json_attributes
#endif
#ifdef VROOT
extern int g_asked, g_jw, g_hit, g_sets, g_pos[65];
extern _Bool g_all, g_depfail, g_set_ok;
#define JSON_MEMBER(o, k) ((k) + 1 < count && tokens[k].type == JSMN_STRING && tokens[k].size == 1 && tokens[k].start > tokens[o].start && tokens[(k) + 1].end < tokens[o].end)
#define VERIFY_LOOP_json_root \
  __CPROVER_assigns(i, idx, found_root, g_asked, g_hit, g_sets) \
  __CPROVER_loop_invariant(0 <= i && i <= tokens[0].size && 1 <= idx && idx <= count && idx == g_pos[i] && g_asked == i) \
  __CPROVER_loop_invariant(found_root ? g_hit >= 0 && g_hit == i - 1 && g_sets == 1 && g_set_ok : g_hit == -1 && g_sets == 0) \
  __CPROVER_loop_invariant(!(g_all && i > g_jw) || found_root) \
  __CPROVER_decreases(tokens[0].size - i)
#define VERIFY_STEP_json_root \
  if (g_all) __CPROVER_assume(JSON_MEMBER(0, idx));
#else
#define VERIFY_LOOP_json_root
#define VERIFY_STEP_json_root
#endif
#endif

/* Contracts of std::string's operations (lib/cxx/string): a string is a sequence of
 * pieces of text; a piece is named by what v_text says of the characters it was made from.
 * The string owns its characters: v_chars gives characters that stay valid. */
#include "vcxx.h"
#ifdef VREPLAY
#define STOP(c) do { if (!(c)) v_assume_fail(); } while (0)
#else
#define STOP(c) __CPROVER_assume(c)
#endif
void vs_init(void *p) { ((struct vstring *)p)->n = 0; }
void vs_drop(void *p) {}
void vs_set(void *p, const char *t) {
  struct vstring *s = p;
  STOP(t != NULL); /* a string made of NULL throws */
  s->a[0] = v_text(t);
  s->n = s->a[0] == NULL ? 0 : 1;
}
void vs_setn(void *p, const char *t, unsigned long n) {
  STOP(t != NULL);
  PRE(v_textlen(v_text(t)) == n, "a string made of the whole text");
  vs_set(p, t);
}
void vs_copy(void *p, const void *q) { struct vstring *s = p; const struct vstring *o = q; struct vstring t = *o; *s = t; }
void vs_app(void *p, const void *q) {
  struct vstring *s = p; const struct vstring *o = q;
  struct vstring t = *s, u = *o;
  for (unsigned long i = 0; i < VSN; i++) {
    if (i >= u.n) break;
    PRE(t.n < VSN, "room for the pieces of a string");
    if (t.n < VSN) t.a[t.n++] = u.a[i];
  }
  *s = t;
}
void vs_appc(void *p, const char *t) { struct vstring u; vs_set(&u, t); vs_app(p, &u); }
const char *vs_c_str(const void *p) {
  const struct vstring *s = p;
  PRE(s->n <= 1, "the characters of a string of one piece");
  return s->n == 0 ? "" : v_chars(s->a[0]);
}
unsigned long vs_len(const void *p) {
  const struct vstring *s = p;
  if (s->n == 0) return 0;
  PRE(s->n <= 1, "the length of a string of one piece");
  return v_textlen(s->a[0]);
}
bool vs_eq(const void *p, const void *q) {
  const struct vstring *s = p, *o = q;
  if (s->n == 0 || o->n == 0) return s->n == o->n;
  return s->n == 1 && o->n == 1 && s->a[0] == o->a[0] ? true : nd_bool();
}
bool vs_eqc(const void *p, const char *t) { struct vstring u; vs_set(&u, t); return vs_eq(p, &u); }

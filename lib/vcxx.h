#ifndef VCXX_H
#define VCXX_H
#include "verif.h"
#define VSN 8
struct vstring { const void *a[VSN]; unsigned long n; };
const void *v_text(const char *t);      /* the text behind a pointer; NULL: the empty text */
const char *v_chars(const void *id);    /* characters of a text */
size_t v_textlen(const void *id);
void vs_init(void *), vs_drop(void *), vs_set(void *, const char *), vs_copy(void *, const void *);
#endif

/* Contracts of the C library's string functions for strings of any length.
 *
 * A string is a pointer p with a length n such that p[n] == 0 and p[j] != 0 for
 * all j < n.  "For all j" is expressed with the rigid witness g_k: str_reg() makes
 * it an obligation at g_k (an arbitrary index the program cannot depend on), so
 * it may afterwards be used at any index.  The table only remembers lengths
 * (hints); strlen() re-proves the definition of length at every use, so a stale
 * hint is a failed obligation, never an unsound answer.
 *
 * Native replay and small-input runs use the real functions / their definitions. */
#ifndef VSTR_H
#define VSTR_H
#include "verif.h"
#include <stdarg.h>

#if defined(VCBMC) && !defined(VSMALL) && !defined(VNO_VSTRC)
#define VSTRC 1
#endif

char *mk_cstr(void);                         /* caller-owned string of any length */
char *cal_cstr(void);                        /* callee-made string of any length */
size_t str_len(const char *s);               /* its length (specification side) */
void str_known(const char *s, size_t n);     /* s is a string of length n (specification side) */
#ifdef VCBMC
void str_moved(const void *from, void *to);
#endif
#endif

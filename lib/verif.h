/* Common vocabulary of the specifications.
 *
 * A specification file (specs/<unit>.c) states, for one or more functions of
 * /repo, REQUIRES (how the harness builds arbitrary inputs that satisfy the
 * precondition), ENSURES (named postcondition clauses), and the contracts of the
 * callees that are replaced (stub bodies: precondition clauses are PRE(...),
 * result is an arbitrary value satisfying the callee's postcondition).
 *
 * The same text is used twice:
 *  - by goto-cc/cbmc (VCBMC defined): every nd_*() is an unconstrained
 *    symbolic value, every clause is a proof obligation;
 *  - by gcc -fsanitize (VREPLAY defined): nd_*() values come from the
 *    counterexample trace, so a failed obligation is replayed on the real code.
 */
#ifndef VERIF_H
#define VERIF_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>

#ifdef VCBMC
#define REQUIRES(c) __CPROVER_assume(c)
#define ENSURES(c, name) __CPROVER_assert((c), "ENSURES " name)
#define PRE(c, name) __CPROVER_assert((c), "CALLEE-PRE " name)
#define REACH(name) __CPROVER_assert(0, "REACH " name)
#define RD_OK(p, n) __CPROVER_r_ok((p), (n))
#define WR_OK(p, n) __CPROVER_w_ok((p), (n))
uint64_t nd_raw(void);
uint64_t nu_u64(void); /* nondeterminism that is not part of the replayable input */
#else
void v_assume_fail(void);
void v_assert_fail(const char *kind, const char *name);
uint64_t nd_raw(void);
#define REQUIRES(c) do { if (!(c)) v_assume_fail(); } while (0)
#define ENSURES(c, name) do { if (!(c)) v_assert_fail("ENSURES", name); } while (0)
#define PRE(c, name) do { if (!(c)) v_assert_fail("CALLEE-PRE", name); } while (0)
#define REACH(name) ((void)0)
bool v_r_ok(const void *p, size_t n);
#define RD_OK(p, n) v_r_ok((p), (n))
#define WR_OK(p, n) v_r_ok((p), (n))
#endif

static inline uint64_t nd_u64(void) { return nd_raw(); }
static inline size_t nd_size(void) { return (size_t)nd_raw(); }
static inline int nd_int(void) { return (int)nd_raw(); }
static inline uint8_t nd_u8(void) { return (uint8_t)nd_raw(); }
static inline bool nd_bool(void) { return (bool)(nd_raw() & 1); }

/* ---- ghost state -------------------------------------------------------- */
extern size_t g_k;      /* rigid witness index: "for all k" */
extern bool g_oom;      /* an allocation was refused during the call */
extern bool g_depfail;  /* a dependency reported failure during the call */
extern bool g_in_call;  /* the function under contract is running */

/* input builders: storage that belongs to the caller, never refused */
#ifndef VMAXLEN
#define VMAXLEN ((size_t)1 << 40)
#endif
#ifndef VSMALL_LEN
#define VSMALL_LEN 6
#endif
void *mk_raw(size_t n);            /* n bytes, arbitrary content */
uint8_t *mk_bytes(size_t n);       /* n bytes, arbitrary content (n<=VMAXLEN) */
size_t mk_len(void);               /* arbitrary length, 0..VMAXLEN-1 */
char *mk_str(size_t maxlen);       /* NUL-terminated, strlen <= maxlen */
void fill_bytes(void *p, size_t n);
struct tm;
void fill_tm(struct tm *p);
/* callee-side allocation (may be refused; counted for leak checking) */
void *cal_alloc(size_t n);         /* never refused, owned by the caller */
uint8_t *cal_bytes(size_t n);

#ifdef VCBMC
extern const void *__CPROVER_memory_leak;
#define NO_LEAK(name) __CPROVER_assert(__CPROVER_memory_leak == NULL, "ENSURES " name)
#else
void v_leak_check(const char *name);
#define NO_LEAK(name) v_leak_check(name)
#endif

/* ---- predicates --------------------------------------------------------- */
#define IMPLIES(a, b) (!(a) || (b))
#define BYTE_EQ(a, b, n) (!(g_k < (n)) || ((const uint8_t *)(a))[g_k] == ((const uint8_t *)(b))[g_k])

void v_begin(void); /* start of the call under contract */
void v_end(void);   /* end of the call */
void harness(void);
#endif

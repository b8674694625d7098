/* C09 lemma: the counting function used in c09_decode grows monotonically.
 * Claim by induction on b: for a <= b <= n, P[a] <= P[b].  Base: b = a.  Step: */
#include "b64.h"
void harness(void) {
  size_t n = nd_size(), a = nd_size(), b = nd_size();
  REQUIRES(n < VMAXLEN / 8);
  size_t *P = mk_raw((n + 1) * sizeof *P);
  size_t valid = nd_bool();
  REQUIRES(a <= b && b < n);
  REQUIRES(P[a] <= P[b] && P[b] <= b);      /* induction hypothesis */
  REQUIRES(P[b + 1] == P[b] + valid);       /* definition of P */
  REACH("c09 lemma");
  ENSURES(P[a] <= P[b + 1] && P[b + 1] <= b + 1, "c09 lemma: the number of characters seen never decreases");
}

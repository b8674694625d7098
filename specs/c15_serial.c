/* C15: crypto_getcert_serial */
#include "ossl.h"
#define NE 3
#define KL 14
static struct keyvalue_list h, e[NE];
static char key[NE][KL], val[NE][2];
static bool is_serial(const char *k) {
  static const char s[] = "serialNumber";
  for (int i = 0; i < 13; i++) if (k[i] != s[i]) return false;
  return true;
}
void harness(void) {
  size_t n = nd_size();
  REQUIRES(n <= NE);
  dl_list_init(&h.list, &h);
  char *want = NULL;
  for (size_t i = 0; i < NE; i++)
    if (i < n) {
      for (int j = 0; j < KL - 1; j++) key[i][j] = (char)nd_u8();
      key[i][KL - 1] = 0;
      e[i].key = key[i]; e[i].value = val[i];
      if (want == NULL && is_serial(key[i])) want = val[i];
      dl_list_add_tail(&h.list, &e[i].list, &e[i]);
    }
  struct crypto_cert_meta m;
  m.issuer = NULL; m.subject = &h;
  v_begin();
  char *r = crypto_getcert_serial(&m);
  v_end();
  if (r) { REACH("c15 serial"); } else { REACH("c15 no serial"); }
  ENSURES(r == want, "c15: the device serial number is the subject's serialNumber entry, or none if there is none");
  NO_LEAK("c15: looking up the serial number leaks nothing");
}

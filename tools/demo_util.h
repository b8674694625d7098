#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
#include <time.h>
#include "voucher/array.h"
#include "voucher/keyvalue.h"
#include "voucher/crypto.h"
#include "voucher/serialize.h"
#include "voucher/voucher.h"
#include "voucher/voucher_defs.h"
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "DEMO FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
struct ident { struct BinaryArray key, cert; };
static struct ident mkid(const char *cn, const char *constraints) {
  struct ident i = {0};
  struct crypto_cert_meta m = {.serial_number = 7, .not_before = 0, .not_after = 1000000};
  m.basic_constraints = (char *)constraints;
  m.issuer = init_keyvalue_list();
  m.subject = init_keyvalue_list();
  push_keyvalue_list(m.issuer, "CN", (char *)cn);
  push_keyvalue_list(m.subject, "CN", (char *)cn);
  i.key.length = crypto_generate_eckey(&i.key.array);
  ssize_t n = crypto_generate_eccert(&m, i.key.array, i.key.length, &i.cert.array);
  CHECK(n > 0);
  i.cert.length = n;
  free_keyvalue_list(m.issuer);
  free_keyvalue_list(m.subject);
  return i;
}
static struct ident mkid_signed(const char *cn, struct ident *ca) {
  struct ident i = mkid(cn, "CA:false");
  ssize_t n = crypto_sign_cert(ca->key.array, ca->key.length, ca->cert.array, ca->cert.length, i.cert.length, &i.cert.array);
  CHECK(n > 0);
  i.cert.length = n;
  return i;
}
static void freeid(struct ident *i) { free_binary_array_content(&i->key); free_binary_array_content(&i->cert); }
static struct BinaryArray lit(const char *s) { return (struct BinaryArray){(uint8_t *)s, strlen(s)}; }
static struct tm t0(void) { return (struct tm){.tm_year = 123, .tm_mon = 4, .tm_mday = 5, .tm_hour = 6, .tm_min = 7, .tm_sec = 8}; }

// a pledge, a registrar and a MASA in one process: the HTTPS client calls the handlers directly
#include <string>
#include <functional>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "brski/http/http.hpp"
#include "brski/http/https_client.hpp"
#include "brski/masa/masa_api.hpp"
#include "brski/masa/masa_config.h"
#include "brski/registrar/registrar_api.hpp"
#include "brski/registrar/registrar_config.h"
#include "brski/pledge/pledge_config.h"
extern "C" {
#include "utils/log.h"
#include "voucher/array.h"
#include "voucher/crypto.h"
#include "voucher/keyvalue.h"
#include "voucher/serialize.h"
#include "voucher/voucher.h"
}
int post_voucher_pledge_request(struct pledge_config *, struct registrar_config *, struct masa_config *, struct BinaryArray *);
int post_sign_cert(struct pledge_config *, struct registrar_config *, struct masa_config *, struct BinaryArray *, struct BinaryArray *);
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "DEMO FAILED: %s (line %d)\n", #c, __LINE__); fflush(stderr); _exit(1); } } while (0)
struct ident { BinaryArray key{}, cert{}; std::string keyf, certf; };
static char *S(const std::string &s) { return strdup(s.c_str()); }
static ident mkid(const char *name, const char *serial, ident *ca) {
  ident i;
  crypto_cert_meta m = {};
  m.serial_number = 7; m.not_after = 1000000;
  m.basic_constraints = (char *)(ca == NULL ? "CA:true" : "CA:false");
  m.issuer = init_keyvalue_list(); m.subject = init_keyvalue_list();
  push_keyvalue_list(m.issuer, (char *)"CN", (char *)name);
  push_keyvalue_list(m.subject, (char *)"CN", (char *)name);
  if (serial != NULL) push_keyvalue_list(m.subject, (char *)"serialNumber", (char *)serial);
  i.key.length = crypto_generate_eckey(&i.key.array);
  ssize_t n = crypto_generate_eccert(&m, i.key.array, i.key.length, &i.cert.array);
  CHECK(n > 0);
  i.cert.length = n;
  if (ca != NULL) {
    n = crypto_sign_cert(ca->key.array, ca->key.length, ca->cert.array, ca->cert.length, i.cert.length, &i.cert.array);
    CHECK(n > 0);
    i.cert.length = n;
  }
  free_keyvalue_list(m.issuer); free_keyvalue_list(m.subject);
  i.keyf = std::string(name) + ".key"; i.certf = std::string(name) + ".crt";
  CHECK(keybuf_to_file(&i.key, i.keyf.c_str()) == 0 && certbuf_to_file(&i.cert, i.certf.c_str()) == 0);
  return i;
}
static bool same(const BinaryArray &a, const BinaryArray &b) { return a.length == b.length && memcmp(a.array, b.array, a.length) == 0; }
static std::string b64(const BinaryArray &a) { uint8_t *o = NULL; CHECK(serialize_array2base64str(a.array, a.length, &o) >= 0); std::string s((char *)o); free(o); return s; }
static BinaryArray unb64(const std::string &s) { BinaryArray a = {}; ssize_t n = serialize_base64str2array((const uint8_t *)s.c_str(), s.length(), &a.array); CHECK(n >= 0); a.length = n; return a; }
static BinaryArrayList *paths(std::initializer_list<std::string> l) { BinaryArrayList *r = init_array_list(); for (auto &s : l) push_array_list(r, (uint8_t *)s.c_str(), s.length() + 1, 0); return r; }
static ident idevca, idev, regca, reg, masaca, masa, other;
static masa_config mconf; static registrar_config rconf; static pledge_config pconf;
static MasaContext mctx; static RegistrarContext rctx;
// hooks of a demonstration
static std::function<int(int status, std::string &response)> masa_answers, registrar_answers; // change an answer on its way
static std::function<void(const std::string &body)> masa_hears;
static int exchanges;
static ident *registrar_serves = &reg; // the TLS certificate the pledge sees
static std::string enrol_ca, enrol_body;
static CRYPTO_CERT ctx_of(const BinaryArray &c) { return crypto_cert2context(c.array, c.length); }
int https_post_request(const std::string &key, const std::string &cert, const std::string &host, int port, const std::string &path, bool verify,
                       const std::string &body, const std::string &content_type, struct HttpResponse &res) {
  RequestHeader h; ResponseHeader rh; std::string out; int st = 404;
  BinaryArray *peer = file_to_x509buf(cert.c_str());
  CHECK(peer != NULL);
  CRYPTO_CERT pc = ctx_of(*peer);
  free_binary_array(peer);
  exchanges++;
  if (host == "masa" && port == 1 && path == PATH_BRSKI_REQUESTVOUCHER) {
    if (masa_hears) masa_hears(body);
    st = masa_requestvoucher(h, body, pc, rh, out, &mctx);
    if (masa_answers) st = masa_answers(st, out);
    res.peer_certificate = ctx_of(masa.cert);
  } else if (host == "registrar" && port == 2 && path == PATH_BRSKI_REQUESTVOUCHER) {
    st = registrar_requestvoucher(h, body, pc, rh, out, &rctx);
    if (registrar_answers) st = registrar_answers(st, out);
    res.peer_certificate = ctx_of(registrar_serves->cert);
  }
  crypto_free_certcontext(pc);
  if (st < 0) { crypto_free_certcontext(res.peer_certificate); return -1; }
  res.response = out;
  return st;
}
int https_post_request_ca(const std::string &key, const std::string &cert, const std::string &ca, const std::string &host, int port, const std::string &path,
                          const std::string &body, const std::string &content_type, std::string &response) {
  RequestHeader h; ResponseHeader rh;
  BinaryArray *peer = file_to_x509buf(cert.c_str());
  CRYPTO_CERT pc = ctx_of(*peer);
  free_binary_array(peer);
  enrol_ca = ca; enrol_body = body;
  int st = registrar_est_simpleenroll(h, body, pc, rh, response, &rctx);
  crypto_free_certcontext(pc);
  return st;
}
static void world(void) {
  log_set_quiet(true);
  idevca = mkid("idevca", NULL, NULL); idev = mkid("idev", "12345", &idevca);
  regca = mkid("regca", NULL, NULL); reg = mkid("reg", NULL, &regca);
  masaca = mkid("masaca", NULL, NULL); masa = mkid("masa", NULL, &masaca); other = mkid("other", "12345", NULL);
  mconf.bind_address = S("masa"); mconf.port = 1; mconf.expires_on = S("2030-01-01T00:00:00Z");
  mconf.ldevid_ca_cert_path = S(regca.certf); mconf.cms_sign_cert_path = S(masa.certf); mconf.cms_sign_key_path = S(masa.keyf);
  mconf.tls_cert_path = S(masa.certf); mconf.tls_key_path = S(masa.keyf);
  mconf.cms_verify_certs_paths = paths({reg.certf}); mconf.cms_verify_store_paths = paths({regca.certf});
  rconf.bind_address = S("registrar"); rconf.port = 2; rconf.tls_cert_path = S(reg.certf); rconf.tls_key_path = S(reg.keyf);
  rconf.tls_ca_cert_path = S(regca.certf); rconf.tls_ca_key_path = S(regca.keyf);
  rconf.cms_sign_cert_path = S(reg.certf); rconf.cms_sign_key_path = S(reg.keyf);
  rconf.cms_verify_certs_paths = paths({idev.certf}); rconf.cms_verify_store_paths = paths({idevca.certf});
  pconf.created_on = NULL; pconf.serial_number = S("12345"); pconf.nonce = S("bm9uY2U="); pconf.idevid_cert_path = S(idev.certf); pconf.idevid_key_path = S(idev.keyf);
  pconf.cms_sign_cert_path = S(idev.certf); pconf.cms_sign_key_path = S(idev.keyf);
  pconf.cms_verify_certs_paths = paths({masa.certf}); pconf.cms_verify_store_paths = paths({masaca.certf});
  mctx.rconf = &rconf; mctx.mconf = &mconf;
  rctx.rconf = &rconf; rctx.mconf = &mconf; strcpy(rctx.log_path, "enrol.log");
}

From 2dfac36120f762304fb1f05b4904c0cad5e7c668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 01/38] fix: do not unlink a list element that was never linked

push_array_list() and push_keyvalue_list() release a half built element when
duplicating its content fails; unlinking it dereferenced NULL.
---
 src/voucher/array.c    | 4 +++-
 src/voucher/keyvalue.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/voucher/array.c b/src/voucher/array.c
index 219b92e..fdc36e9 100644
--- a/src/voucher/array.c
+++ b/src/voucher/array.c
@@ -34,7 +34,9 @@ static void free_array_list_el(struct BinaryArrayList *el) {
     if (el->arr != NULL) {
       sys_free(el->arr);
     }
-    dl_list_del(&el->list);
+    if (el->list.next != NULL) {
+      dl_list_del(&el->list);
+    }
     sys_free(el);
   }
 }
diff --git a/src/voucher/keyvalue.c b/src/voucher/keyvalue.c
index 0793024..44ecc56 100644
--- a/src/voucher/keyvalue.c
+++ b/src/voucher/keyvalue.c
@@ -45,7 +45,9 @@ static void free_keyvalue_list_el(struct keyvalue_list *el) {
     if (el->value != NULL) {
       sys_free(el->value);
     }
-    dl_list_del(&el->list);
+    if (el->list.next != NULL) {
+      dl_list_del(&el->list);
+    }
     sys_free(el);
   }
 }
-- 
2.43.0


From 1d52df91aa9e6de43ae6a90ac76b060d98727a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 02/38] fix: release the pinned certificate copy when the list
 push fails

---
 src/voucher/request.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 59bab6b..e0943e5 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -548,6 +548,7 @@ int verify_masa_pledge_voucher(
     if (push_array_list(intermediate_certs, cert_copy.array, cert_copy.length,
                         0) < 0) {
       log_error("push_array_list fail");
+      free_binary_array_content(&cert_copy);
       free_array_list(intermediate_certs);
       goto verify_masa_pledge_voucher_fail;
     }
-- 
2.43.0


From b9b5c6ea1f24114ab5ffd4ee0fc08f881c4f3bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 03/38] fix: refuse a pledge voucher request without
 serial-number

---
 src/voucher/request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index e0943e5..b80c088 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -130,7 +130,7 @@ sign_voucher_request(const struct BinaryArray *pledge_voucher_request_cms,
    * cert serial number */
   const char *const *pledge_serial_number =
       get_attr_str_voucher(pledge_voucher_request, ATTR_SERIAL_NUMBER);
-  if (pledge_serial_number == NULL) {
+  if (pledge_serial_number == NULL || *pledge_serial_number == NULL) {
     log_error("get_attr_str_voucher fail");
     free_voucher(pledge_voucher_request);
     return NULL;
-- 
2.43.0


From ba3050ad1141d3b719dee4dad52440e4d8e1c02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 04/38] fix: release the previous value when a voucher
 attribute is set again

---
 src/voucher/voucher.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 50084c9..85e4cc5 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -182,10 +182,13 @@ static int set_attr_nstr_voucher(struct Voucher *voucher,
   }
 
   if (length < MAX_SERIAL_NUMBER_SIZE) {
-    if ((voucher->serial_number = sys_strndup(value, length)) == NULL) {
+    char *serial_number = sys_strndup(value, length);
+    if (serial_number == NULL) {
       log_errno("sys_strdup");
       return -1;
     }
+    sys_free(voucher->serial_number);
+    voucher->serial_number = serial_number;
   } else {
     log_error("Attribute value exceeds max size");
     return -1;
@@ -215,6 +218,18 @@ int set_attr_str_voucher(struct Voucher *voucher,
                                sys_strnlen_s(value, MAX_SERIAL_NUMBER_SIZE));
 }
 
+static int replace_attr_array(struct BinaryArray *attr_array,
+                              const struct BinaryArray *value) {
+  struct BinaryArray copy = {0};
+  if (copy_binary_array(&copy, value) < 0) {
+    return -1;
+  }
+
+  free_binary_array_content(attr_array);
+  *attr_array = copy;
+  return 0;
+}
+
 int set_attr_array_voucher(struct Voucher *voucher,
                            const enum VoucherAttributes attr,
                            const struct BinaryArray *value) {
@@ -230,28 +245,28 @@ int set_attr_array_voucher(struct Voucher *voucher,
 
   switch (attr) {
     case ATTR_IDEVID_ISSUER:
-      if (copy_binary_array(&voucher->idevid_issuer, value) < 0) {
+      if (replace_attr_array(&voucher->idevid_issuer, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PINNED_DOMAIN_CERT:
-      if (copy_binary_array(&voucher->pinned_domain_cert, value) < 0) {
+      if (replace_attr_array(&voucher->pinned_domain_cert, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_NONCE:
-      if (copy_binary_array(&voucher->nonce, value) < 0) {
+      if (replace_attr_array(&voucher->nonce, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PRIOR_SIGNED_VOUCHER_REQUEST:
-      if (copy_binary_array(&voucher->prior_signed_voucher_request, value) <
+      if (replace_attr_array(&voucher->prior_signed_voucher_request, value) <
           0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PROXIMITY_REGISTRAR_CERT:
-      if (copy_binary_array(&voucher->proximity_registrar_cert, value) < 0) {
+      if (replace_attr_array(&voucher->proximity_registrar_cert, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
-- 
2.43.0


From cc418a7cbcd83822e5ba6b373f5b18cbdf441dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 05/38] fix: refuse a missing time value

---
 src/voucher/voucher.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 85e4cc5..5c0488b 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -115,6 +115,11 @@ int set_attr_time_voucher(struct Voucher *voucher,
     return -1;
   }
 
+  if (value == NULL) {
+    log_error("value param is NULL");
+    return -1;
+  }
+
   switch (attr) {
     case ATTR_CREATED_ON:
       sys_memcpy(&voucher->created_on, value, sizeof(struct tm));
-- 
2.43.0


From e4a5bc5ac4b346fdca12237cc2be38c69e2bffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 06/38] fix: do not leave a dangling result when base64 padding
 is invalid

---
 src/voucher/serialize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index 32e0925..ba92a0c 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -242,6 +242,7 @@ static ssize_t base64_gen_decode(const uint8_t *src, const size_t len,
         } else {
           log_error("Invalid padding");
           sys_free(*out);
+          *out = NULL;
           return -1;
         }
         break;
-- 
2.43.0


From bbfd90bf9dac4c3cc8acf36252b02af0a4510024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 07/38] verification: annotation points for loop contracts
 (empty unless BRSKI_VERIFY)

---
 src/voucher/serialize.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index ba92a0c..4fc0787 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -15,6 +15,12 @@
 
 #include "serialize.h"
 
+/* Annotation points of the contract verifier; empty in every ordinary build */
+#ifndef BRSKI_VERIFY
+#define VERIFY_LOOP(name)
+#define VERIFY_STEP(name)
+#endif
+
 static const uint8_t base64_table[65] =
     "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
 
@@ -142,7 +148,8 @@ static uint8_t *base64_gen_encode(const uint8_t *src, const size_t len,
   end = src + len;
   in = src;
   pos = out;
-  while (end - in >= 3) {
+  while (end - in >= 3) VERIFY_LOOP(base64_encode) {
+    VERIFY_STEP(base64_encode)
     *pos++ = table[(in[0] >> 2) & 0x3f];
     *pos++ = table[(((in[0] & 0x03) << 4) | (in[1] >> 4)) & 0x3f];
     *pos++ = table[(((in[1] & 0x0f) << 2) | (in[2] >> 6)) & 0x3f];
@@ -189,7 +196,8 @@ static ssize_t base64_gen_decode(const uint8_t *src, const size_t len,
   dtable['='] = 0;
 
   count = 0;
-  for (i = 0; i < len; i++) {
+  for (i = 0; i < len; i++) VERIFY_LOOP(base64_count) {
+    VERIFY_STEP(base64_count)
     if (dtable[src[i]] != 0x80) {
       count++;
     }
@@ -209,7 +217,8 @@ static ssize_t base64_gen_decode(const uint8_t *src, const size_t len,
   pos = *out;
 
   count = 0;
-  for (i = 0; i < len + extra_pad; i++) {
+  for (i = 0; i < len + extra_pad; i++) VERIFY_LOOP(base64_decode) {
+    VERIFY_STEP(base64_decode)
     uint8_t val;
 
     if (i >= len) {
-- 
2.43.0


From 6371fc039f006f5800bd8e5390e9dded0be05ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 08/38] fix: do not drop a certificate silently when pushing it
 to the stack fails

---
 src/voucher/crypto_ossl.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 7b13840..52524c3 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1203,7 +1203,13 @@ static STACK_OF(X509) *
       sk_X509_pop_free(cert_stack, X509_free);
       return NULL;
     }
-    sk_X509_push(cert_stack, x509);
+    if (!sk_X509_push(cert_stack, x509)) {
+      log_error("sk_X509_push fail with code=%s",
+                ERR_error_string(ERR_get_error(), NULL));
+      X509_free(x509);
+      sk_X509_pop_free(cert_stack, X509_free);
+      return NULL;
+    }
   }
 
   return cert_stack;
-- 
2.43.0


From 16a64bc7f528354276d2f8a34777637268d0ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 09/38] fix: release the decoded certificate when adding it to
 the trust store fails

---
 src/voucher/crypto_ossl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 52524c3..bc128fe 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1270,6 +1270,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
       if (!X509_STORE_add_cert(x509_store, x509)) {
         log_error("X509_STORE_add_cert fail with code=%s",
                   ERR_error_string(ERR_get_error(), NULL));
+        X509_free(x509);
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
       }
@@ -1286,6 +1287,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
       if (!X509_STORE_add_crl(x509_store, x509_crl)) {
         log_error("X509_STORE_add_crl fail with code=%s",
                   ERR_error_string(ERR_get_error(), NULL));
+        X509_CRL_free(x509_crl);
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
       }
@@ -1294,6 +1296,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
     }
     if (push_ptr_list(*x509_store_list, ptr, el->flags) < 0) {
       log_error("push_ptr_list fail");
+      free_x509_store_cert(ptr, el->flags);
       free_x509_store(x509_store, *x509_store_list);
       return NULL;
     }
-- 
2.43.0


From 580b4b7e11e0480dd4f51b8a1d57336e43c9f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 10/38] fix: do not free the signer certificates that belong to
 the CMS message

---
 src/voucher/crypto_ossl.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index bc128fe..15a5f6c 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1579,14 +1579,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
   int length = sk_X509_num(signers);
 
   if (!length) {
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return 0;
   }
 
   *out_certs = init_array_list();
   if (*out_certs == NULL) {
     log_error("init_buffer_list fail");
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return -1;
   }
 
@@ -1597,7 +1597,7 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
     if (cert_length < 0) {
       log_error("cert_to_derbuf fail");
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
@@ -1605,14 +1605,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
       log_error("push_buffer_list fail");
       sys_free(cert);
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
     sys_free(cert);
   }
 
-  sk_X509_pop_free(signers, X509_free);
+  sk_X509_free(signers);
   return 0;
 }
 
-- 
2.43.0


From 156db5d2d72da9dc9e29ea3ba7c2d5aee21e6190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 11/38] verification: annotation points in the certificate list
 loops

---
 src/voucher/crypto_ossl.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 15a5f6c..00a8843 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -36,6 +36,12 @@
 #include "crypto.h"
 #include "keyvalue.h"
 
+/* Annotation points of the contract verifier; empty in every ordinary build */
+#ifndef BRSKI_VERIFY
+#define VERIFY_LOOP(name)
+#define VERIFY_STEP(name)
+#endif
+
 struct NID_Name {
   int nid;
   char *name;
@@ -828,7 +834,9 @@ static X509_NAME *add_x509name_keyvalues(struct keyvalue_list *pairs) {
   }
 
   struct keyvalue_list *el = NULL;
-  dl_list_for_each(el, &pairs->list, struct keyvalue_list, list) {
+  dl_list_for_each(el, &pairs->list, struct keyvalue_list, list)
+      VERIFY_LOOP(name_pairs) {
+    VERIFY_STEP(name_pairs)
     if (el->key == NULL) {
       log_error("key is NULL");
       X509_NAME_free(name);
@@ -1196,7 +1204,9 @@ static STACK_OF(X509) *
   }
 
   struct BinaryArrayList *el = NULL;
-  dl_list_for_each(el, &certs->list, struct BinaryArrayList, list) {
+  dl_list_for_each(el, &certs->list, struct BinaryArrayList, list)
+      VERIFY_LOOP(cert_stack) {
+    VERIFY_STEP(cert_stack)
     X509 *x509 = crypto_cert2context(el->arr, el->length);
     if (x509 == NULL) {
       log_error("crypto_cert2context fail");
@@ -1256,7 +1266,9 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
   }
 
   struct BinaryArrayList *el = NULL;
-  dl_list_for_each(el, &store->list, struct BinaryArrayList, list) {
+  dl_list_for_each(el, &store->list, struct BinaryArrayList, list)
+      VERIFY_LOOP(cert_store) {
+    VERIFY_STEP(cert_store)
     enum CRYPTO_CERTIFICATE_TYPE type = (enum CRYPTO_CERTIFICATE_TYPE)el->flags;
     void *ptr = NULL;
     if (type == CRYPTO_CERTIFICATE_VALID) {
@@ -1590,7 +1602,9 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
     return -1;
   }
 
-  for (int idx = 0; idx < length; idx++) {
+  for (int idx = 0; idx < length; idx++)
+      VERIFY_LOOP(cms_signers) {
+    VERIFY_STEP(cms_signers)
     const X509 *signer = sk_X509_value(signers, idx);
     uint8_t *cert = NULL;
     ssize_t cert_length = cert_to_derbuf((CRYPTO_CERT)signer, &cert);
-- 
2.43.0


From 8cb4337118a66f303d27b21a292908e5a3dd3f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:58 +0000
Subject: [PATCH 12/38] fix: report a failure to list the signers of a CMS
 message

---
 src/voucher/crypto_ossl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 00a8843..1b35109 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1585,7 +1585,9 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
   STACK_OF(X509) *signers = CMS_get0_signers(cms);
 
   if (signers == NULL) {
-    return 0;
+    log_error("CMS_get0_signers fail with code=%s",
+              ERR_error_string(ERR_get_error(), NULL));
+    return -1;
   }
 
   int length = sk_X509_num(signers);
-- 
2.43.0


From 5bb11fa5052c5939cb2e1fb238231be6006cb544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:58 +0000
Subject: [PATCH 13/38] fix: hand out no content when the signers of a CMS
 message cannot be listed

---
 src/voucher/crypto_ossl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 1b35109..44588a0 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1700,6 +1700,8 @@ ssize_t crypto_verify_cms(const struct BinaryArray *cms,
     *out_certs = NULL;
     if (exatract_cms_certs(content, out_certs) < 0) {
       log_error("exatract_cms_certs fail");
+      sys_free(*data);
+      *data = NULL;
       goto crypto_verify_cms_fail;
     }
   }
-- 
2.43.0


From 1f6d11a0d38c8c1b4c25f09c08cbad60084512f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:58 +0000
Subject: [PATCH 14/38] fix: release the signer list when the signed content is
 not a voucher

---
 src/voucher/voucher.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 5c0488b..8e7a0db 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -1055,6 +1055,10 @@ struct Voucher *verify_cms_voucher(const struct BinaryArray *cms,
   if (voucher == NULL) {
     log_error("deserialize_voucher fail");
     sys_free(data);
+    if (out_certs != NULL) {
+      free_array_list(*out_certs);
+      *out_certs = NULL;
+    }
     return NULL;
   }
 
-- 
2.43.0


From e07c616ac1171f1c39b2258dd9154fa230bcee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 15/38] fix: refuse to sign when the content could not be taken
 over completely

---
 src/voucher/crypto_ossl.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 44588a0..2e04edf 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -9,6 +9,7 @@
  * utilities.
  */
 
+#include <limits.h>
 #include <stddef.h>
 #include <stdint.h>
 #include <openssl/cms.h>
@@ -1381,6 +1382,11 @@ static ssize_t sign_withkey_cms(const uint8_t *data, const size_t data_length,
                                 const EVP_PKEY *pkey,
                                 const struct BinaryArrayList *certs,
                                 uint8_t **cms) {
+  if (data_length > INT_MAX) {
+    log_error("data_length param is too large");
+    return -1;
+  }
+
   BIO *mem_data = BIO_new_ex(NULL, BIO_s_mem());
   if (mem_data == NULL) {
     log_error("BIO_new_ex fail with code=%s",
@@ -1388,7 +1394,7 @@ static ssize_t sign_withkey_cms(const uint8_t *data, const size_t data_length,
     return -1;
   }
 
-  if (BIO_write(mem_data, data, data_length) < 0) {
+  if (BIO_write(mem_data, data, (int)data_length) != (int)data_length) {
     log_error("BIO_write fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     BIO_free(mem_data);
-- 
2.43.0


From 2a99b79291814c6fc8d933bd077c7338694f48c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:36 +0000
Subject: [PATCH 16/38] fix: check the output parameter before writing to it
 when generating a certificate

---
 src/voucher/crypto_ossl.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 2e04edf..29dc1bb 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -987,8 +987,6 @@ static int sign_sha256_certificate(X509 *x509, const EVP_PKEY *pkey) {
 ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
                                const uint8_t *key, const size_t key_length,
                                uint8_t **cert) {
-  *cert = NULL;
-
   if (meta == NULL) {
     log_error("met param is NULL");
     return -1;
@@ -1004,6 +1002,8 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
     return -1;
   }
 
+  *cert = NULL;
+
   X509 *x509 = X509_new();
 
   if (x509 == NULL) {
@@ -1051,8 +1051,6 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
 ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
                                 const uint8_t *key, const size_t key_length,
                                 uint8_t **cert) {
-  *cert = NULL;
-
   if (meta == NULL) {
     log_error("met aparam is NULL");
     return -1;
@@ -1068,6 +1066,8 @@ ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
     return -1;
   }
 
+  *cert = NULL;
+
   X509 *x509 = X509_new();
 
   if (x509 == NULL) {
-- 
2.43.0


From 2733a2a316a9f1438f12ac544206a125bc25f35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:36 +0000
Subject: [PATCH 17/38] fix: release key and certificate when the public key
 cannot be set

---
 src/voucher/crypto_ossl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 29dc1bb..4a986c6 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1027,6 +1027,8 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
     log_error("X509_set_pubkey fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
+    crypto_free_keycontext(pkey);
+    X509_free(x509);
     return -1;
   }
 
@@ -1091,6 +1093,8 @@ ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
     log_error("X509_set_pubkey fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
+    EVP_PKEY_free(pkey);
+    X509_free(x509);
     return -1;
   }
 
-- 
2.43.0


From 218d0f4b2a9a9f64dcee7ed721af4db6755cad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 18/38] fix: treat negative results of the key generation calls
 as failures

---
 src/voucher/crypto_ossl.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 4a986c6..d128022 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -443,7 +443,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_keygen_init(ctx)) {
+  if (EVP_PKEY_keygen_init(ctx) <= 0) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -451,7 +451,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_CTX_set_rsa_keygen_bits(ctx, bits)) {
+  if (EVP_PKEY_CTX_set_rsa_keygen_bits(ctx, bits) <= 0) {
     log_error("EVP_PKEY_CTX_set_rsa_keygen_bits fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -459,7 +459,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_keygen(ctx, &pkey)) {
+  if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
     log_error("EVP_PKEY_keygen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -499,21 +499,21 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
     return -1;
   }
 
-  if (!EVP_PKEY_paramgen_init(ctx)) {
+  if (EVP_PKEY_paramgen_init(ctx) <= 0) {
     log_error("EVP_PKEY_paramgen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_CTX_set_ec_paramgen_curve_nid(ctx, NID_X9_62_prime256v1)) {
+  if (EVP_PKEY_CTX_set_ec_paramgen_curve_nid(ctx, NID_X9_62_prime256v1) <= 0) {
     log_error("EVP_PKEY_CTX_set_ec_paramgen_curve_nid fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_paramgen(ctx, &params)) {
+  if (EVP_PKEY_paramgen(ctx, &params) <= 0) {
     log_error("EVP_PKEY_paramgen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -531,14 +531,14 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
 
   EVP_PKEY_free(params);
 
-  if (!EVP_PKEY_keygen_init(ctx)) {
+  if (EVP_PKEY_keygen_init(ctx) <= 0) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_keygen(ctx, &pkey)) {
+  if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
     log_error("EVP_PKEY_keygen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
-- 
2.43.0


From 7f8afbca6379e0ebd569d6c73710ceb068989f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 19/38] fix: report when a certificate or key file could not be
 written completely

---
 src/voucher/crypto_ossl.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index d128022..64fc44b 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -202,8 +202,11 @@ int certbuf_to_file(const struct BinaryArray *cert, const char *filename) {
     return -1;
   }
 
-  fclose(fp);
   X509_free(x509);
+  if (fclose(fp) != 0) {
+    log_errno("fclose");
+    return -1;
+  }
   return 0;
 }
 
@@ -231,8 +234,11 @@ int keybuf_to_file(const struct BinaryArray *key, const char *filename) {
     return -1;
   }
 
-  fclose(fp);
   EVP_PKEY_free(pkey);
+  if (fclose(fp) != 0) {
+    log_errno("fclose");
+    return -1;
+  }
   return 0;
 }
 
-- 
2.43.0


From 293c44b02d2f1813ec3180baefa5d61ebe5fc566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 20/38] fix: refuse a random buffer longer than the library can
 fill

---
 src/voucher/crypto_ossl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 64fc44b..21e30b2 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1742,7 +1742,7 @@ int crypto_getrand(struct BinaryArray *buf) {
   if (buf == NULL)
     return -1;
 
-  if (buf->array == NULL || buf->length == 0)
+  if (buf->array == NULL || buf->length == 0 || buf->length > INT_MAX)
     return -1;
 
   ret = RAND_bytes(buf->array, buf->length);
-- 
2.43.0


From 22524b540ca2849dddf2f1aca7123e8a9f52b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:40 +0000
Subject: [PATCH 21/38] Annotation point on the loop that joins JSON members

---
 src/voucher/serialize.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index 4fc0787..fa4d5b0 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -75,7 +75,9 @@ char *serialize_keyvalue2json(const struct keyvalue_list *kv_list) {
   struct keyvalue_list *el = NULL;
   size_t length = strlen(json) + 1;
 
-  dl_list_for_each(el, &kv_list->list, struct keyvalue_list, list) {
+  dl_list_for_each(el, &kv_list->list, struct keyvalue_list, list)
+      VERIFY_LOOP(json_members) {
+    VERIFY_STEP(json_members)
     char *concat = concatenate_keyvalue(el->key, el->value, (idx < count - 1));
     if (concat == NULL) {
       log_error("concatenate_keyvalue fail");
-- 
2.43.0


From 6c21bbbcfad71874ac277fc52ca66cf4f1139566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:06 +0000
Subject: [PATCH 22/38] fix: report a voucher that could not be allocated while
 parsing instead of using NULL

---
 src/voucher/voucher.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 8e7a0db..76443be 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -839,6 +839,10 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
   }
 
   struct Voucher *voucher = init_voucher();
+  if (voucher == NULL) {
+    log_error("init_voucher fail");
+    return NULL;
+  }
   bool found_root = false;
 
   for (int idx = 1; idx < count; idx++) {
-- 
2.43.0


From 27f95964558182c479a9d8812d3869bb3a1009bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:06 +0000
Subject: [PATCH 23/38] fix: refuse voucher JSON longer than the token
 positions can express

---
 src/voucher/voucher.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 76443be..4f28b43 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -7,6 +7,7 @@
  * SPDX-License-Identifier: MIT
  * @brief File containing the implementation of the voucher structure.
  */
+#include <limits.h>
 #include <string.h>
 
 #include <jsmn.h>
@@ -821,6 +822,11 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
     return NULL;
   }
 
+  if (length > INT_MAX) {
+    log_error("json exceeds max size");
+    return NULL;
+  }
+
   jsmn_parser parser;
   jsmntok_t tokens[MAX_VOUCHER_JSON_TOKENS];
 
-- 
2.43.0


From 37f09b7c0e4c5c29d19e637220c6fd74ae6d5a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:26 +0000
Subject: [PATCH 24/38] fix: take voucher attributes only from plain members
 directly under the exactly named voucher root

---
 src/voucher/voucher.c | 108 ++++++++++++++++++++++++++++++------------
 1 file changed, 77 insertions(+), 31 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 4f28b43..5b3b1a7 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -816,6 +816,62 @@ static int set_keyvalue_voucher(struct Voucher *voucher, const char *key,
   return 0;
 }
 
+/* Whether the token is the key of a json object with exactly one value, which is
+ * the next token */
+static bool is_json_member(const jsmntok_t *tokens, const int count,
+                           const int object_idx, const int key_idx) {
+  if (key_idx + 1 >= count) {
+    return false;
+  }
+
+  return tokens[key_idx].type == JSMN_STRING && tokens[key_idx].size == 1 &&
+         tokens[key_idx].start > tokens[object_idx].start &&
+         tokens[key_idx + 1].end < tokens[object_idx].end;
+}
+
+/* Returns the index after a token and everything it contains */
+static int skip_json_token(const jsmntok_t *tokens, const int count, int idx) {
+  int pending = 1;
+  while (pending > 0 && idx < count) {
+    pending += tokens[idx].size - 1;
+    idx++;
+  }
+
+  return idx;
+}
+
+/* Sets the attributes given by the key/value pairs of a json object */
+static int set_json_members_voucher(struct Voucher *voucher,
+                                    const uint8_t *json,
+                                    const jsmntok_t *tokens, const int count,
+                                    const int object_idx) {
+  for (int j = 0; j < tokens[object_idx].size; j++) {
+    int key_idx = object_idx + (j * 2) + 1;
+    int value_idx = key_idx + 1;
+    /* Every voucher attribute is a plain value */
+    if (!is_json_member(tokens, count, object_idx, key_idx) ||
+        tokens[value_idx].type == JSMN_OBJECT ||
+        tokens[value_idx].type == JSMN_ARRAY || tokens[value_idx].size != 0) {
+      log_error("Malformed voucher json");
+      return -1;
+    }
+
+    const jsmntok_t *key_token = &tokens[key_idx];
+    const jsmntok_t *value_token = &tokens[value_idx];
+    size_t key_length = key_token->end - key_token->start;
+    size_t value_length = value_token->end - value_token->start;
+    const char *key = (char *)(json + key_token->start);
+    const char *value = (char *)(json + value_token->start);
+    if (set_keyvalue_voucher(voucher, key, key_length, value, value_length) <
+        0) {
+      log_trace("set_keyvalue_voucher fail");
+      return -1;
+    }
+  }
+
+  return 0;
+}
+
 struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
   if (json == NULL) {
     log_error("json param is NULL");
@@ -851,42 +907,32 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
   }
   bool found_root = false;
 
-  for (int idx = 1; idx < count; idx++) {
-    int length = tokens[idx].end - tokens[idx].start;
-    /* Find the voucher root key */
-    if (strncmp(VOUCHER_ROOT_NAME, (char *)(json + tokens[idx].start),
-                length) == 0) {
-      idx++;
-      if (idx < count && tokens[idx].type == JSMN_OBJECT) {
-        /* Iterate over all the key/value pairs of the voucher root */
-        for (int j = 0; j < tokens[idx].size; j++) {
-          int key_idx = idx + (j * 2) + 1;
-          int value_idx = idx + (j * 2 + 1) + 1;
-          if (key_idx < count && value_idx < count) {
-            jsmntok_t *key_token = &tokens[key_idx];
-            jsmntok_t *value_token = &tokens[value_idx];
-            size_t key_length = key_token->end - key_token->start;
-            size_t value_length = value_token->end - value_token->start;
-            const char *key = (char *)(json + key_token->start);
-            const char *value = (char *)(json + value_token->start);
-            if (set_keyvalue_voucher(voucher, key, key_length, value,
-                                     value_length) < 0) {
-              log_trace("set_keyvalue_voucher fail");
-              goto deserialize_voucher_fail;
-            }
-          } else {
-            log_error("Malformed voucher json");
-            goto deserialize_voucher_fail;
-          }
-        }
-        found_root = true;
-      } else {
+  /* Find the voucher root key among the members of the json object */
+  int idx = 1;
+  for (int i = 0; i < tokens[0].size && !found_root; i++) {
+    if (!is_json_member(tokens, count, 0, idx)) {
+      log_error("Malformed voucher json");
+      goto deserialize_voucher_fail;
+    }
+
+    size_t root_length = tokens[idx].end - tokens[idx].start;
+    if (check_size_str_equal(VOUCHER_ROOT_NAME,
+                             (char *)(json + tokens[idx].start), root_length)) {
+      int root_idx = idx + 1;
+      if (tokens[root_idx].type != JSMN_OBJECT) {
         log_error("Malformed voucher json");
         goto deserialize_voucher_fail;
       }
 
-      break;
+      if (set_json_members_voucher(voucher, json, tokens, count, root_idx) <
+          0) {
+        log_error("set_json_members_voucher fail");
+        goto deserialize_voucher_fail;
+      }
+      found_root = true;
     }
+
+    idx = skip_json_token(tokens, count, idx);
   }
 
   if (!found_root) {
-- 
2.43.0


From 7e62d0e6cc3dc3faa773d1a028c6c5310ebd1006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:37 +0000
Subject: [PATCH 25/38] Annotation points on the loops of the voucher parser

---
 src/voucher/voucher.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 5b3b1a7..ac7391b 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -20,6 +20,12 @@
 #include "voucher.h"
 #include "voucher_defs.h"
 
+/* Annotation points of the contract verifier; empty in every ordinary build */
+#ifndef BRSKI_VERIFY
+#define VERIFY_LOOP(name)
+#define VERIFY_STEP(name)
+#endif
+
 #define MAX_ATTRIBUTE_SIZE 64
 #define MAX_SERIAL_NUMBER_SIZE 128
 #define MAX_VOUCHER_JSON_TOKENS 32
@@ -832,7 +838,8 @@ static bool is_json_member(const jsmntok_t *tokens, const int count,
 /* Returns the index after a token and everything it contains */
 static int skip_json_token(const jsmntok_t *tokens, const int count, int idx) {
   int pending = 1;
-  while (pending > 0 && idx < count) {
+  while (pending > 0 && idx < count) VERIFY_LOOP(skip_token) {
+    VERIFY_STEP(skip_token)
     pending += tokens[idx].size - 1;
     idx++;
   }
@@ -845,7 +852,9 @@ static int set_json_members_voucher(struct Voucher *voucher,
                                     const uint8_t *json,
                                     const jsmntok_t *tokens, const int count,
                                     const int object_idx) {
-  for (int j = 0; j < tokens[object_idx].size; j++) {
+  for (int j = 0; j < tokens[object_idx].size; j++)
+    VERIFY_LOOP(json_attributes) {
+    VERIFY_STEP(json_attributes)
     int key_idx = object_idx + (j * 2) + 1;
     int value_idx = key_idx + 1;
     /* Every voucher attribute is a plain value */
@@ -909,7 +918,9 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
 
   /* Find the voucher root key among the members of the json object */
   int idx = 1;
-  for (int i = 0; i < tokens[0].size && !found_root; i++) {
+  for (int i = 0; i < tokens[0].size && !found_root; i++)
+    VERIFY_LOOP(json_root) {
+    VERIFY_STEP(json_root)
     if (!is_json_member(tokens, count, 0, idx)) {
       log_error("Malformed voucher json");
       goto deserialize_voucher_fail;
-- 
2.43.0


From ced5362a46e33c734125df6c76fe46dd66c8e3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:39 +0000
Subject: [PATCH 26/38] fix: leave no dangling list behind when a configuration
 list fails to load

---
 src/brski/config.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/brski/config.c b/src/brski/config.c
index d109f39..75d492d 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -56,6 +56,7 @@ int load_config_value_list(const char *section, const char *key,
       log_errno("sys_zalloc");
       sys_free(store);
       free_array_list(*value_list);
+      *value_list = NULL;
       return -1;
     }
 
@@ -67,6 +68,7 @@ int load_config_value_list(const char *section, const char *key,
         sys_free(value);
         sys_free(store);
         free_array_list(*value_list);
+        *value_list = NULL;
         return -1;
       }
     }
@@ -694,6 +696,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
     if ((cert = file_to_x509buf(cert_path_str)) == NULL) {
       log_error("file_to_x509buf fail");
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
 
@@ -701,6 +704,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
       log_error("push_array_list fail");
       free_binary_array(cert);
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
     free_binary_array(cert);
-- 
2.43.0


From 2d0795554cb2e6d65b59178bab729e5f240f0bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:39 +0000
Subject: [PATCH 27/38] fix: load every value of a repeated configuration key
 instead of the first one each time

---
 src/brski/config.c | 70 ++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/brski/config.c b/src/brski/config.c
index 75d492d..4a87f47 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -17,6 +17,7 @@
 #include <fcntl.h>
 #include <minIni.h>
 #include <string.h>
+#include <strings.h>
 #include <unistd.h>
 
 #include "config.h"
@@ -31,52 +32,53 @@
 #define TIME_ISO_STR_SIZE sizeof("9999-12-31T24:59:59Z") + 1
 #define MAX_CONFIG_VALUE_SIZE 2048
 
+struct config_value_query {
+  const char *section;
+  const char *key;
+  struct BinaryArrayList *value_list;
+  bool failed;
+};
+
+static int push_config_value(const char *section, const char *key,
+                             const char *value, void *ctx) {
+  struct config_value_query *query = (struct config_value_query *)ctx;
+
+  if (strcasecmp(section, query->section) != 0 ||
+      strcmp(key, query->key) != 0 || !strlen(value)) {
+    return 1;
+  }
+
+  if (push_array_list(query->value_list, (uint8_t *const)value,
+                      strlen(value) + 1, 0) < 0) {
+    query->failed = true;
+    return 0;
+  }
+
+  return 1;
+}
+
 int load_config_value_list(const char *section, const char *key,
                            const char *filename,
                            struct BinaryArrayList **value_list) {
+  struct config_value_query query = {
+      .section = section, .key = key, .value_list = NULL, .failed = false};
   *value_list = NULL;
-  int idx = 0;
 
-  char *store = NULL;
-  if ((store = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-    log_errno("sys_zalloc");
-    return -1;
-  }
-
-  if ((*value_list = init_array_list()) == NULL) {
+  if ((query.value_list = init_array_list()) == NULL) {
     log_error("init_array_list fail");
-    sys_free(store);
     return -1;
   }
 
-  while (ini_getkey(section, idx++, store, MAX_CONFIG_VALUE_SIZE, filename) >
-         0) {
-    char *value = NULL;
-    if ((value = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-      log_errno("sys_zalloc");
-      sys_free(store);
-      free_array_list(*value_list);
-      *value_list = NULL;
-      return -1;
-    }
+  /* ini_gets only ever returns the first value of a repeated key */
+  ini_browse(push_config_value, &query, filename);
 
-    ini_gets(section, store, "", value, INI_BUFFERSIZE, filename);
-
-    if (strcmp(store, key) == 0 && strlen(value)) {
-      if (push_array_list(*value_list, (uint8_t *const)value, strlen(value) + 1,
-                          0) < 0) {
-        sys_free(value);
-        sys_free(store);
-        free_array_list(*value_list);
-        *value_list = NULL;
-        return -1;
-      }
-    }
-
-    sys_free(value);
+  if (query.failed) {
+    log_error("push_array_list fail");
+    free_array_list(query.value_list);
+    return -1;
   }
 
-  sys_free(store);
+  *value_list = query.value_list;
   return 0;
 }
 
-- 
2.43.0


From 724e6dd6deafa5dcffbb11f416d1aac5acf04318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:27 +0000
Subject: [PATCH 28/38] Annotation point on the loop that loads configured
 certificates

---
 src/brski/config.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/brski/config.c b/src/brski/config.c
index 4a87f47..2e14d1e 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -32,6 +32,11 @@
 #define TIME_ISO_STR_SIZE sizeof("9999-12-31T24:59:59Z") + 1
 #define MAX_CONFIG_VALUE_SIZE 2048
 
+#ifndef BRSKI_VERIFY
+#define VERIFY_LOOP(name)
+#define VERIFY_STEP(name)
+#endif
+
 struct config_value_query {
   const char *section;
   const char *key;
@@ -692,7 +697,9 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
   }
 
   struct BinaryArrayList *cert_path = NULL;
-  dl_list_for_each(cert_path, &cert_paths->list, struct BinaryArrayList, list) {
+  dl_list_for_each(cert_path, &cert_paths->list, struct BinaryArrayList, list)
+      VERIFY_LOOP(config_certs) {
+    VERIFY_STEP(config_certs)
     struct BinaryArray *cert = NULL;
     char *cert_path_str = (char *)cert_path->arr;
     if ((cert = file_to_x509buf(cert_path_str)) == NULL) {
-- 
2.43.0


From ddec268ae333db2e7a131df77377385585e4a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:33 +0000
Subject: [PATCH 29/38] fix: refuse a request that is not base64 in the MASA
 instead of taking the error for a length

---
 src/brski/masa/masa_api.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/brski/masa/masa_api.cpp b/src/brski/masa/masa_api.cpp
index 4782073..77b8e20 100644
--- a/src/brski/masa/masa_api.cpp
+++ b/src/brski/masa/masa_api.cpp
@@ -73,6 +73,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   struct BinaryArrayList *additional_masa_certs = NULL;
   struct BinaryArray *masa_pledge_voucher = NULL;
   char *base64 = NULL;
+  ssize_t length;
   const char *cms_str = request_body.c_str();
 
   log_trace("masa_requestvoucher:");
@@ -84,12 +85,13 @@ int masa_requestvoucher(const RequestHeader &request_header,
     goto masa_requestvoucher_fail;
   }
 
-  if ((voucher_request_cms.length =
-           serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
-                                     &voucher_request_cms.array)) < 0) {
+  if ((length = serialize_base64str2array((const uint8_t *)cms_str,
+                                          strlen(cms_str),
+                                          &voucher_request_cms.array)) < 0) {
     log_errno("serialize_base64str2array fail");
     goto masa_requestvoucher_fail;
   }
+  voucher_request_cms.length = length;
 
   if ((context->ldevid_ca_cert = file_to_x509buf(mconf->ldevid_ca_cert_path)) ==
       NULL) {
-- 
2.43.0


From 43e5cf64dbc6cd84507bfdd02cea00074b5ba243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:33 +0000
Subject: [PATCH 30/38] fix: keep the domain certificate of a MASA request out
 of the shared context, where it was released again

---
 src/brski/masa/masa_api.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/brski/masa/masa_api.cpp b/src/brski/masa/masa_api.cpp
index 77b8e20..8206df3 100644
--- a/src/brski/masa/masa_api.cpp
+++ b/src/brski/masa/masa_api.cpp
@@ -59,7 +59,12 @@ int masa_requestvoucher(const RequestHeader &request_header,
                         CRYPTO_CERT peer_certificate,
                         ResponseHeader &response_header, std::string &response,
                         void *user_ctx) {
-  struct MasaContext *context = static_cast<struct MasaContext *>(user_ctx);
+  /* Each request has its own context, so that the certificate loaded for one
+     request is neither released nor used by another */
+  struct MasaContext request_context =
+      *static_cast<struct MasaContext *>(user_ctx);
+  struct MasaContext *context = &request_context;
+  context->ldevid_ca_cert = NULL;
   struct registrar_config *rconf = context->rconf;
   struct masa_config *mconf = context->mconf;
 
@@ -138,7 +143,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   }
 
   masa_pledge_voucher = sign_masa_pledge_voucher(
-      &voucher_request_cms, &expires_on, voucher_req_cb, user_ctx,
+      &voucher_request_cms, &expires_on, voucher_req_cb, context,
       masa_sign_cert, masa_sign_key, registrar_verify_certs,
       registrar_store_certs, pledge_verify_certs, pledge_store_certs,
       additional_masa_certs);
-- 
2.43.0


From 12d5a8ccf2f6ef95d15a8a1ab14f8341a0a78090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:33 +0000
Subject: [PATCH 31/38] fix: refuse a request that is not base64 in the
 registrar instead of using uninitialised memory

---
 src/brski/registrar/registrar_api.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 60d8e10..4e729cf 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -188,15 +188,21 @@ int registrar_requestvoucher(const RequestHeader &request_header,
 
   auto pledge_voucher_request_cms =
       std::unique_ptr<BinaryArray, void (*)(BinaryArray *)>{
-          static_cast<BinaryArray *>(std::malloc(sizeof(BinaryArray))),
+          init_binary_array(),
           [](BinaryArray *b) { free_binary_array(b); },
       };
-  if ((pledge_voucher_request_cms->length =
-           serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
-                                     &pledge_voucher_request_cms->array)) < 0) {
+  if (pledge_voucher_request_cms == nullptr) {
+    log_error("init_binary_array fail");
+    return 500;
+  }
+  ssize_t length = serialize_base64str2array((const uint8_t *)cms_str,
+                                             strlen(cms_str),
+                                             &pledge_voucher_request_cms->array);
+  if (length < 0) {
     log_errno("serialize_base64str2array fail");
     return 400;
   }
+  pledge_voucher_request_cms->length = length;
 
   if (get_localtime(&created_on) < 0) {
     log_error("get_localtime fail");
-- 
2.43.0


From 0ad91bba4186b1b76b5b680dc5ee564f1e0be00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:33 +0000
Subject: [PATCH 32/38] fix: report the failure when the MASA refused the
 voucher request instead of answering success without a voucher

---
 src/brski/registrar/registrar_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 4e729cf..2153ea6 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -123,7 +123,7 @@ int post_voucher_request(struct BinaryArray *voucher_request_cms,
               "response: '%s'",
               status, http_res.response.c_str());
     crypto_free_certcontext(http_res.peer_certificate);
-    return 400;
+    return -1;
   }
 
   crypto_free_certcontext(http_res.peer_certificate);
-- 
2.43.0


From 34dff268a8ad730541e2fc05ac25b8d4ffc4461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:33 +0000
Subject: [PATCH 33/38] fix: do not release an undecodable nonce twice

---
 src/brski/pledge/pledge_request.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 5f57818..f3c0c59 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -52,7 +52,6 @@ int verify_masa_pledge_request(struct pledge_config *pconf,
                                             strlen(pconf->nonce),
                                             &nonce->array)) < 0) {
       log_errno("serialize_base64str2array fail");
-      free_binary_array(nonce);
       goto verify_masa_pledge_request_fail;
     }
     nonce->length = length;
-- 
2.43.0


From c586d302e24cf4a4de04e7560637bd97e6188223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:33 +0000
Subject: [PATCH 34/38] fix: refuse an answer that is not base64 in the pledge
 instead of taking the error for a length

---
 src/brski/pledge/pledge_request.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index f3c0c59..1290d2e 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -175,14 +175,16 @@ int post_voucher_pledge_request(struct pledge_config *pconf,
 
   const char *masa_pledge_voucher_str = http_res.response.c_str();
   struct BinaryArray masa_pledge_voucher_cms = {};
+  ssize_t length;
 
-  if ((masa_pledge_voucher_cms.length =
-           serialize_base64str2array((const uint8_t *)masa_pledge_voucher_str,
-                                     strlen(masa_pledge_voucher_str),
-                                     &masa_pledge_voucher_cms.array)) < 0) {
+  if ((length = serialize_base64str2array(
+           (const uint8_t *)masa_pledge_voucher_str,
+           strlen(masa_pledge_voucher_str), &masa_pledge_voucher_cms.array)) <
+      0) {
     log_errno("serialize_base64str2array fail");
     goto post_voucher_pledge_request_fail;
   }
+  masa_pledge_voucher_cms.length = length;
 
   if (verify_masa_pledge_request(pconf, &masa_pledge_voucher_cms,
                                  registrar_tls_cert, pinned_domain_cert) < 0) {
-- 
2.43.0


From 6f4aabb9b3f1b64112a78212318ec6ab6eaeaf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:33 +0000
Subject: [PATCH 35/38] fix: notice when the pledge could not generate its key
 or certificate

---
 src/brski/pledge/pledge_request.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 1290d2e..ca35c6c 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -225,6 +225,7 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
                        struct BinaryArray *scert_key) {
   uint8_t rand[8];
   char rands[17];
+  ssize_t length;
   struct BinaryArray buf = {.array = rand, .length = 8};
 
   struct crypto_cert_meta sign_cert_meta = {
@@ -272,18 +273,21 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
     goto generate_sign_cert_err;
   }
 
-  if ((scert_key->length = (size_t)crypto_generate_eckey(&scert_key->array)) <
-      0) {
+  length = crypto_generate_eckey(&scert_key->array);
+  if (length < 0) {
     log_error("crypto_generate_eckey fail");
     goto generate_sign_cert_err;
   }
+  scert_key->length = length;
 
-  if ((scert_cert->length = (size_t)crypto_generate_eccert(
-           &sign_cert_meta, scert_key->array, scert_key->length,
-           &scert_cert->array)) < 0) {
+  length = crypto_generate_eccert(&sign_cert_meta, scert_key->array,
+                                  scert_key->length, &scert_cert->array);
+  if (length < 0) {
+    log_error("crypto_generate_eccert fail");
     free_binary_array_content(scert_key);
     goto generate_sign_cert_err;
   }
+  scert_cert->length = length;
 
   free_keyvalue_list(sign_cert_meta.issuer);
   free_keyvalue_list(sign_cert_meta.subject);
-- 
2.43.0


From 27232df9d4d6f7cc8fb2ac74dd42ad91a42b156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:33 +0000
Subject: [PATCH 36/38] fix: refuse a voucher that is not base64 on the command
 line

---
 src/brski/brski.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 92ab7d3..4202961 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -427,12 +427,13 @@ int main(int argc, char *argv[]) {
 
       struct BinaryArray masa_pledge_voucher_cms = {};
 
-      if ((masa_pledge_voucher_cms.length =
-               serialize_base64str2array((const uint8_t *)inbuf, sz,
-                                         &masa_pledge_voucher_cms.array)) < 0) {
+      ssize_t length = serialize_base64str2array(
+          (const uint8_t *)inbuf, sz, &masa_pledge_voucher_cms.array);
+      if (length < 0) {
         log_errno("serialize_base64str2array fail");
         return EXIT_FAILURE;
       }
+      masa_pledge_voucher_cms.length = length;
 
       struct BinaryArray *registrar_tls_cert =
           file_to_x509buf(in_filename.c_str());
-- 
2.43.0


From f5ad48450905509262259654c282078a9937c5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:42 +0000
Subject: [PATCH 37/38] fix: refuse input that leaves no room for its
 terminator instead of writing past the buffer

---
 src/brski/brski.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 4202961..aa85579 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -229,7 +229,7 @@ int read_stdin(uint8_t buf[]) {
   int cnt = 0;
   while (read(STDIN_FILENO, &buf[cnt], 1) > 0) {
     cnt++;
-    if (cnt > MAX_STDIN_SIZE)
+    if (cnt >= MAX_STDIN_SIZE)
       return -1;
   }
 
-- 
2.43.0


From adb7459d31b21693155001a536d596284a504c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:36 +0000
Subject: [PATCH 38/38] fix: release the certificate name lists when one cannot
 be allocated while logging an enrolment

---
 src/brski/registrar/registrar_api.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 2153ea6..c772695 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -37,6 +37,8 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
 
   if (imeta.issuer == NULL || imeta.subject == NULL) {
     log_error("error allocation metadata");
+    free_keyvalue_list(imeta.issuer);
+    free_keyvalue_list(imeta.subject);
     return;
   }
 
@@ -57,6 +59,8 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
     log_error("error allocation metadata");
     free_keyvalue_list(imeta.issuer);
     free_keyvalue_list(imeta.subject);
+    free_keyvalue_list(lmeta.issuer);
+    free_keyvalue_list(lmeta.subject);
     return;
   }
 
-- 
2.43.0


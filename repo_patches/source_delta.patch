From 039115ff69fca2907271837284a9d74fc43fe71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 01/90] fix: shift an unsigned value when addressing the top
 bit of a slot bitfield

---
 reference/src/taimpl/src/internal/slots.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/slots.c b/reference/src/taimpl/src/internal/slots.c
index 2ec05a3..fdacde4 100644
--- a/reference/src/taimpl/src/internal/slots.c
+++ b/reference/src/taimpl/src/internal/slots.c
@@ -24,7 +24,7 @@
 
 #define BLOCK_IDX(slot) ((slot) / (sizeof(int) * 8))
 #define BLOCK_BIT(slot) ((slot) % (sizeof(int) * 8))
-#define BLOCK_BITMASK(slot) (1 << (sizeof(int) * 8 - BLOCK_BIT(slot) - 1))
+#define BLOCK_BITMASK(slot) (1U << (sizeof(int) * 8 - BLOCK_BIT(slot) - 1))
 
 struct slots_s {
     int* bitfield;
@@ -106,7 +106,7 @@ slot_t slots_allocate(slots_t* slots) {
     for (size_t i = 0; i < slots->block_count; ++i) {
         int least_significant_available = ffs(~slots->bitfield[i]);
         if (least_significant_available != 0) {
-            int bitmask = (1 << (least_significant_available - 1));
+            int bitmask = (int) (1U << (unsigned int) (least_significant_available - 1));
             slots->bitfield[i] |= bitmask;
             slot = (i + 1) * sizeof(int) * 8 - least_significant_available;
             DEBUG("Allocated slot %" PRIu32 " on %s slots", slot, slots->name);
-- 
2.43.0


From 734b4cd8791cbc40573e2f99bc628b5fa70ec84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 02/90] fix: allow unwrap with no additional authenticated data

---
 reference/src/taimpl/src/internal/ta.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index e7955d1..1a47888 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -596,11 +596,7 @@ static sa_status ta_invoke_key_unwrap(
                 return SA_STATUS_INVALID_PARAMETER;
             }
 
-            if (params[3].mem_ref == NULL) {
-                ERROR("NULL params[3].mem_ref");
-                return SA_STATUS_NULL_PARAMETER;
-            }
-
+            // params[3].mem_ref can be NULL
             memcpy(&parameters_aes_gcm_s, params[2].mem_ref, params[2].mem_ref_size);
             parameters_aes_gcm.iv = &parameters_aes_gcm_s.iv;
             parameters_aes_gcm.iv_length = parameters_aes_gcm_s.iv_length;
@@ -641,11 +637,7 @@ static sa_status ta_invoke_key_unwrap(
                 return SA_STATUS_INVALID_PARAMETER;
             }
 
-            if (params[3].mem_ref == NULL) {
-                ERROR("NULL params[3].mem_ref");
-                return SA_STATUS_NULL_PARAMETER;
-            }
-
+            // params[3].mem_ref can be NULL
             memcpy(&parameters_chacha_20_poly_1305_s, params[2].mem_ref, params[2].mem_ref_size);
             parameters_chacha20_poly1305.nonce = &parameters_chacha_20_poly_1305_s.nonce;
             parameters_chacha20_poly1305.nonce_length = parameters_chacha_20_poly_1305_s.nonce_length;
-- 
2.43.0


From 1e71f426ba7646c0658289d215a5c3d46be94ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 03/90] fix: restrict output protections of keys unwrapped by
 an unwrap-only key

---
 reference/src/taimpl/src/internal/stored_key.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/reference/src/taimpl/src/internal/stored_key.c b/reference/src/taimpl/src/internal/stored_key.c
index bb47d1c..04c97f0 100644
--- a/reference/src/taimpl/src/internal/stored_key.c
+++ b/reference/src/taimpl/src/internal/stored_key.c
@@ -42,13 +42,14 @@ static void restrict_child_rights(sa_rights* rights, const sa_rights* rootrights
         return;
     }
 
-    if ((rootrights->usage_flags & KEY_ONLY_MASK) || (rootrights->child_usage_flags == 0)) {
-        uint64_t disallowed = ~rootrights->usage_flags & SA_USAGE_OUTPUT_PROTECTIONS_MASK;
-        rights->usage_flags &= ~disallowed;
-    } else {
-        uint64_t disallowed = ~rootrights->child_usage_flags & SA_KEY_USAGE_MASK;
-        rights->usage_flags &= ~disallowed;
-    }
+    // A child key never has an output protection flag that its parent does not have.
+    uint64_t disallowed = ~rootrights->usage_flags & SA_USAGE_OUTPUT_PROTECTIONS_MASK;
+
+    // Child usage flags apply only when the parent's only key usage is unwrap.
+    if (!(rootrights->usage_flags & KEY_ONLY_MASK) && (rootrights->child_usage_flags != 0))
+        disallowed |= ~rootrights->child_usage_flags & SA_KEY_USAGE_MASK;
+
+    rights->usage_flags &= ~disallowed;
 }
 
 const void* stored_key_get_key(const stored_key_t* stored_key) {
-- 
2.43.0


From ae9634061c5a4d4eaf6ede5969788248b5d9bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 04/90] fix: release the cipher context when a buffer type is
 invalid

---
 reference/src/taimpl/src/ta_sa_crypto_cipher_process.c      | 6 ++++--
 reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
index d47c986..92f552b 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
@@ -428,12 +428,14 @@ sa_status ta_sa_crypto_cipher_process(
 
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         if (in->buffer_type != SA_BUFFER_TYPE_CLEAR && in->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid in buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
index 7612d87..dedef13 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
@@ -555,12 +555,14 @@ sa_status ta_sa_crypto_cipher_process_last(
 
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         if (in->buffer_type != SA_BUFFER_TYPE_CLEAR && in->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid in buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
-- 
2.43.0


From 8b0bd42f3d085ede40d149bcf859feba38303444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 05/90] fix: write every range given to sa_svp_buffer_write,
 not the first one repeatedly

---
 reference/src/clientimpl/src/sa_svp_buffer_write.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reference/src/clientimpl/src/sa_svp_buffer_write.c b/reference/src/clientimpl/src/sa_svp_buffer_write.c
index 30d9738..5c4150d 100644
--- a/reference/src/clientimpl/src/sa_svp_buffer_write.c
+++ b/reference/src/clientimpl/src/sa_svp_buffer_write.c
@@ -67,9 +67,9 @@ sa_status sa_svp_buffer_write(
         }
 
         for (size_t i = 0; i < offsets_length; i++) {
-            offset_s[i].out_offset = offsets->out_offset;
-            offset_s[i].in_offset = offsets->in_offset;
-            offset_s[i].length = offsets->length;
+            offset_s[i].out_offset = offsets[i].out_offset;
+            offset_s[i].in_offset = offsets[i].in_offset;
+            offset_s[i].length = offsets[i].length;
         }
 
         CREATE_PARAM(param2, offset_s, param2_size);
-- 
2.43.0


From 6869b2d19823cb007884a50b9750302265f06ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 06/90] fix: refuse unsupported RSA modulus lengths before
 generating a key

---
 reference/src/taimpl/src/internal/rsa.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reference/src/taimpl/src/internal/rsa.c b/reference/src/taimpl/src/internal/rsa.c
index 010b53e..5c4caad 100644
--- a/reference/src/taimpl/src/internal/rsa.c
+++ b/reference/src/taimpl/src/internal/rsa.c
@@ -18,6 +18,7 @@
 
 #include "rsa.h" // NOLINT
 #include "digest_util.h"
+#include "key_type.h"
 #include "log.h"
 #include "pkcs8.h"
 #include "porting/memory.h"
@@ -598,6 +599,11 @@ sa_status rsa_generate_key(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (!key_type_supports_rsa(SA_KEY_TYPE_RSA, parameters->modulus_length)) {
+        ERROR("Invalid modulus_length");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     sa_status status = SA_STATUS_INTERNAL_ERROR;
     uint8_t* key = NULL;
     EVP_PKEY_CTX* evp_pkey_ctx = NULL;
-- 
2.43.0


From 23a225dfaddd3b7f7981b34fedfd5a1ca42eb356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 07/90] fix: report failures of RSA-PSS signing

---
 reference/src/taimpl/src/internal/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/rsa.c b/reference/src/taimpl/src/internal/rsa.c
index 5c4caad..ae68f71 100644
--- a/reference/src/taimpl/src/internal/rsa.c
+++ b/reference/src/taimpl/src/internal/rsa.c
@@ -468,7 +468,7 @@ sa_status rsa_sign_pss(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    sa_status status = SA_STATUS_OK;
+    sa_status status = SA_STATUS_INTERNAL_ERROR;
     EVP_MD_CTX* evp_md_ctx = NULL;
     EVP_PKEY* evp_pkey = NULL;
     EVP_PKEY_CTX* evp_pkey_ctx = NULL;
-- 
2.43.0


From 1e9df769a7ea292d0f1b5cb00bbccdca0175f503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 08/90] fix: refuse to unwrap an empty AES-ECB or AES-CBC
 wrapped key

---
 reference/src/taimpl/src/ta_sa_key_unwrap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_key_unwrap.c b/reference/src/taimpl/src/ta_sa_key_unwrap.c
index 47edab4..61553f6 100644
--- a/reference/src/taimpl/src/ta_sa_key_unwrap.c
+++ b/reference/src/taimpl/src/ta_sa_key_unwrap.c
@@ -65,7 +65,7 @@ static sa_status ta_sa_key_unwrap_aes_ecb(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    if (in_length % AES_BLOCK_SIZE != 0) {
+    if (in_length == 0 || in_length % AES_BLOCK_SIZE != 0) {
         ERROR("Invalid in_length");
         return SA_STATUS_INVALID_PARAMETER;
     }
@@ -175,7 +175,7 @@ static sa_status ta_sa_key_unwrap_aes_cbc(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    if (in_length % AES_BLOCK_SIZE != 0) {
+    if (in_length == 0 || in_length % AES_BLOCK_SIZE != 0) {
         ERROR("Invalid in_length");
         return SA_STATUS_INVALID_PARAMETER;
     }
-- 
2.43.0


From 18390eab8ace64bd184e4ad0c4f4f9c831e05d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:16 +0000
Subject: [PATCH 09/90] fix: refuse to finish a decryption again after a
 refused final

---
 reference/src/taimpl/src/internal/symmetric.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reference/src/taimpl/src/internal/symmetric.c b/reference/src/taimpl/src/internal/symmetric.c
index 2d50a4d..3c631a1 100644
--- a/reference/src/taimpl/src/internal/symmetric.c
+++ b/reference/src/taimpl/src/internal/symmetric.c
@@ -1443,6 +1443,14 @@ sa_status symmetric_context_decrypt_last(
     int final_length = 0;
     if (EVP_DecryptFinal(context->evp_cipher, out + update_length, &final_length) != 1) {
         ERROR("EVP_DecryptFinal failed");
+
+        // Drop what is left of the refused message so that finishing again cannot succeed.
+        if (context->cipher_algorithm == SA_CIPHER_ALGORITHM_AES_GCM ||
+                context->cipher_algorithm == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305)
+            EVP_CIPHER_CTX_cleanup(context->evp_cipher);
+        else
+            EVP_DecryptInit_ex(context->evp_cipher, NULL, NULL, NULL, NULL);
+
         return SA_STATUS_INTERNAL_ERROR;
     }
 
-- 
2.43.0


From 6a3d52707e3e2494a174766ff9c9aaf5328145b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 10/90] fix: decrypt common encryption subsamples that end
 within a block or roll the counter over

---
 reference/src/taimpl/src/internal/cenc.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index 84af6b3..5ba5000 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -49,11 +49,14 @@ static sa_status decrypt(
     // Determine if the iv will rollover. If not, decrypt the whole block.
     size_t leading_partial_block_size =
             *enc_byte_count % AES_BLOCK_SIZE == 0 ? 0 : AES_BLOCK_SIZE - *enc_byte_count % AES_BLOCK_SIZE;
+    // The data may end within the partial block, which then is not complete and does not advance the counter.
+    size_t leading_blocks = leading_partial_block_size > 0 && leading_partial_block_size <= bytes_to_process ? 1 : 0;
+    leading_partial_block_size = MIN(leading_partial_block_size, bytes_to_process);
     size_t number_of_full_blocks = (bytes_to_process - leading_partial_block_size) / AES_BLOCK_SIZE;
     uint64_t* counter_buffer = (uint64_t*) (iv + 8);
     size_t num_blocks_before_rollover = UINT64_MAX - be64toh(*counter_buffer) + 1;
     bool counter_rollover =
-            num_blocks_before_rollover <= (number_of_full_blocks + (leading_partial_block_size > 0 ? 1 : 0));
+            num_blocks_before_rollover <= (number_of_full_blocks + leading_blocks);
 
     for (size_t bytes_encrypted = 0; bytes_to_process > bytes_encrypted;) {
         if (counter_rollover && cipher_algorithm == SA_CIPHER_ALGORITHM_AES_CTR) {
@@ -68,17 +71,22 @@ static sa_status decrypt(
                     return status;
                 }
 
-                // Increment the IV by the number of full blocks just decrypted.
-                (*counter_buffer) = htobe64(be64toh(*counter_buffer) + 1);
-                status = symmetric_context_set_iv(symmetric_context, iv, AES_BLOCK_SIZE);
-                if (status != SA_STATUS_OK) {
-                    ERROR("symmetric_context_set_iv failed");
-                    return status;
+                if (leading_blocks > 0) {
+                    // Increment the IV by the block just completed.
+                    (*counter_buffer) = htobe64(be64toh(*counter_buffer) + 1);
+                    status = symmetric_context_set_iv(symmetric_context, iv, AES_BLOCK_SIZE);
+                    if (status != SA_STATUS_OK) {
+                        ERROR("symmetric_context_set_iv failed");
+                        return status;
+                    }
+
+                    num_blocks_before_rollover--;
                 }
 
                 *enc_byte_count += length;
                 bytes_encrypted += length;
                 leading_partial_block_size = 0;
+                leading_blocks = 0;
             }
 
             size_t full_blocks_to_encrypt = MIN(num_blocks_before_rollover, number_of_full_blocks);
@@ -118,7 +126,7 @@ static sa_status decrypt(
             }
 
             uint64_t new_iv = be64toh(*counter_buffer);
-            new_iv += number_of_full_blocks + (leading_partial_block_size > 0 ? 1 : 0);
+            new_iv += number_of_full_blocks + leading_blocks;
             (*counter_buffer) = htobe64(new_iv);
             *enc_byte_count += length;
             bytes_encrypted = bytes_to_process; // length?
-- 
2.43.0


From b567bedbc18c3288f7cadb6e4497ec4dfa67d6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:31 +0000
Subject: [PATCH 11/90] fix: count common encryption patterns in blocks so that
 large ones do not overflow

---
 reference/src/taimpl/src/internal/cenc.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index 5ba5000..c48e061 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -272,8 +272,7 @@ sa_status cenc_process_sample(
                     while (bytes_left >= AES_BLOCK_SIZE) {
                         // Calculate the number of bytes in the encrypted pattern stripe and decrypt them into the
                         // output buffer. Account for any remainder partial block at the end of the protected data.
-                        size_t block = MIN(sample->crypt_byte_block * AES_BLOCK_SIZE,
-                                (bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE);
+                        size_t block = MIN(sample->crypt_byte_block, bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE;
                         if (block > 0) {
                             status = decrypt(out_bytes + offset, in_bytes + offset, block, &enc_byte_count, iv,
                                     cipher_algorithm, symmetric_context);
@@ -289,8 +288,7 @@ sa_status cenc_process_sample(
                         // Calculate the number of bytes in the skipped pattern stripe and copy them into the output
                         // buffer. Account for any remainder partial block at the end of the protected data.
                         if (sample->skip_byte_block > 0) {
-                            block = MIN(sample->skip_byte_block * AES_BLOCK_SIZE,
-                                    (bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE);
+                            block = MIN(sample->skip_byte_block, bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE;
                             if (block > 0) {
                                 memcpy(out_bytes + offset, in_bytes + offset, block);
                                 offset += block;
-- 
2.43.0


From ba139229feb04385fe5c9428d4522aee223d6646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 12/90] fix: refuse SVP memory outside the protected region

---
 reference/src/taimpl/src/porting/svp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/porting/svp.c b/reference/src/taimpl/src/porting/svp.c
index 7dfb5c4..b7372eb 100644
--- a/reference/src/taimpl/src/porting/svp.c
+++ b/reference/src/taimpl/src/porting/svp.c
@@ -39,7 +39,7 @@ static bool svp_validate_buffer(const svp_buffer_t* svp_buffer) {
 
     if (!memory_is_valid_svp(svp_buffer->svp_memory, svp_buffer->size)) {
         ERROR("memory range is not within SVP memory");
-        return SA_STATUS_INVALID_PARAMETER;
+        return false;
     }
 
     return true;
@@ -62,7 +62,7 @@ bool svp_create_buffer(
 
     if (!memory_is_valid_svp(svp_memory, size)) {
         ERROR("memory range is not within SVP memory");
-        return SA_STATUS_INVALID_PARAMETER;
+        return false;
     }
 
     *svp_buffer = memory_internal_alloc(sizeof(svp_buffer_t));
-- 
2.43.0


From 31886fb43bc408dfb403945b86dee90de9f372a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 13/90] fix: copy between overlapping SVP ranges

---
 reference/src/taimpl/src/porting/svp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/porting/svp.c b/reference/src/taimpl/src/porting/svp.c
index b7372eb..52fbb34 100644
--- a/reference/src/taimpl/src/porting/svp.c
+++ b/reference/src/taimpl/src/porting/svp.c
@@ -230,7 +230,7 @@ bool svp_copy(
             return false;
         }
 
-        memcpy((void*) out_position, (void*) in_position, offsets[i].length); // NOLINT
+        memmove((void*) out_position, (void*) in_position, offsets[i].length); // NOLINT
     }
     return true;
 }
-- 
2.43.0


From 6ae4d539b9bdf07b4f282c0db8af2c6eb0d19f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 14/90] fix: report and recover from a failed SVP buffer
 release

---
 reference/src/taimpl/src/internal/svp_store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/svp_store.c b/reference/src/taimpl/src/internal/svp_store.c
index bc04ffe..f4a6761 100644
--- a/reference/src/taimpl/src/internal/svp_store.c
+++ b/reference/src/taimpl/src/internal/svp_store.c
@@ -232,7 +232,8 @@ sa_status svp_store_release(
 
     if (!svp_release_buffer(svp_memory, size, svp->buffer)) {
         ERROR("svp_release_buffer failed");
-        return status;
+        svp_store_release_exclusive(store, svp_buffer, svp, caller_uuid);
+        return SA_STATUS_INTERNAL_ERROR;
     }
 
     svp->buffer = NULL;
-- 
2.43.0


From 4345bbbfc48ed9332fb9dced709c0816bf91f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 15/90] fix: answer key export size queries whatever the length
 holds

---
 reference/src/clientimpl/src/sa_key_export.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/reference/src/clientimpl/src/sa_key_export.c b/reference/src/clientimpl/src/sa_key_export.c
index 1108767..c036d17 100644
--- a/reference/src/clientimpl/src/sa_key_export.c
+++ b/reference/src/clientimpl/src/sa_key_export.c
@@ -34,11 +34,6 @@ sa_status sa_key_export(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    if (out == NULL && *out_length > 0) {
-        ERROR("NULL out");
-        return SA_STATUS_NULL_PARAMETER;
-    }
-
     if (mixin == NULL && mixin_length > 0) {
         ERROR("NULL mixin");
         return SA_STATUS_NULL_PARAMETER;
-- 
2.43.0


From 57e90cef5cba2910bab3b7d4fe8c334ece9d8227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 16/90] fix: report the length of the name written

---
 reference/src/taimpl/src/ta_sa_get_name.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reference/src/taimpl/src/ta_sa_get_name.c b/reference/src/taimpl/src/ta_sa_get_name.c
index 1593b6f..4ad513c 100644
--- a/reference/src/taimpl/src/ta_sa_get_name.c
+++ b/reference/src/taimpl/src/ta_sa_get_name.c
@@ -52,6 +52,7 @@ sa_status ta_sa_get_name(
     }
 
     memcpy(name, implementation_name, required_length);
+    *name_length = required_length;
 
     return SA_STATUS_OK;
 }
-- 
2.43.0


From 9ec3e2da573a549c2b905151fd3756cecbbbcb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 17/90] fix: import exported keys from memory of any alignment

---
 reference/src/taimpl/src/internal/key_store.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/reference/src/taimpl/src/internal/key_store.c b/reference/src/taimpl/src/internal/key_store.c
index 88d2535..42ac792 100644
--- a/reference/src/taimpl/src/internal/key_store.c
+++ b/reference/src/taimpl/src/internal/key_store.c
@@ -483,33 +483,36 @@ sa_status key_store_import_exported(
     const uint8_t* exported_bytes = (const uint8_t*) exported;
     const uint8_t* mixin = exported_bytes;
     exported_bytes += AES_BLOCK_SIZE;
-    const sa_header* header = (const sa_header*) exported_bytes;
+    // exported may have any alignment
+    sa_header header;
+    memcpy(&header, exported_bytes, sizeof(sa_header));
     exported_bytes += sizeof(sa_header);
 
-    if (!validate_header_format(header)) {
+    if (!validate_header_format(&header)) {
         ERROR("validate_header_format failed");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    const cipher_parameters_t* cipher_parameters = (const cipher_parameters_t*) (exported_bytes);
+    cipher_parameters_t cipher_parameters;
+    memcpy(&cipher_parameters, exported_bytes, sizeof(cipher_parameters_t));
     exported_bytes += sizeof(cipher_parameters_t);
 
-    if (cipher_parameters->ciphertext_length < AES_BLOCK_SIZE ||
-            (cipher_parameters->ciphertext_length % AES_BLOCK_SIZE) != 0) {
+    if (cipher_parameters.ciphertext_length < AES_BLOCK_SIZE ||
+            (cipher_parameters.ciphertext_length % AES_BLOCK_SIZE) != 0) {
 
         ERROR("Invalid ciphertext_length");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
     size_t required_exported_length = AES_BLOCK_SIZE + sizeof(sa_header) + sizeof(cipher_parameters_t) +
-                                      cipher_parameters->ciphertext_length + sizeof(signature_t);
+                                      cipher_parameters.ciphertext_length + sizeof(signature_t);
     if (exported_length != required_exported_length) {
         ERROR("Invalid exported_length");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
     const void* ciphertext = exported_bytes;
-    exported_bytes += cipher_parameters->ciphertext_length;
+    exported_bytes += cipher_parameters.ciphertext_length;
 
     const signature_t* signature = (const signature_t*) exported_bytes;
 
@@ -526,7 +529,7 @@ sa_status key_store_import_exported(
         xor(derivation_inputs.integrity_key_inputs.c3,
                 global_key_store.export_derivation_inputs.integrity_key_inputs.c3, mixin, AES_BLOCK_SIZE);
 
-        stored_key = unwrap(&derivation_inputs, header, cipher_parameters, ciphertext, signature);
+        stored_key = unwrap(&derivation_inputs, &header, &cipher_parameters, ciphertext, signature);
         if (stored_key == NULL) {
             ERROR("unwrap failed");
             status = SA_STATUS_INVALID_KEY_FORMAT;
-- 
2.43.0


From c798d754550d6a1a322030bfc580d936ff5c11b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 18/90] fix: take random values only from a source that
 succeeded

---
 reference/src/taimpl/src/porting/rand.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/reference/src/taimpl/src/porting/rand.c b/reference/src/taimpl/src/porting/rand.c
index 7951669..d36e0d0 100644
--- a/reference/src/taimpl/src/porting/rand.c
+++ b/reference/src/taimpl/src/porting/rand.c
@@ -18,7 +18,9 @@
 
 #include "porting/rand.h" // NOLINT
 #include "log.h"
+#include <limits.h>
 #include <openssl/rand.h>
+#include <stdint.h>
 
 bool rand_bytes(void* out, size_t out_length) {
     if (out == NULL) {
@@ -26,9 +28,16 @@ bool rand_bytes(void* out, size_t out_length) {
         return false;
     }
 
-    if (!RAND_bytes(out, (int) out_length)) {
-        ERROR("RAND_bytes failed");
-        return false;
+    uint8_t* bytes = (uint8_t*) out;
+    while (out_length > 0) {
+        size_t length = out_length > INT_MAX ? INT_MAX : out_length;
+        if (RAND_bytes(bytes, (int) length) != 1) {
+            ERROR("RAND_bytes failed");
+            return false;
+        }
+
+        bytes += length;
+        out_length -= length;
     }
 
     return true;
-- 
2.43.0


From 28a91a2ec534f59700c6bffe556fdeaeb2186315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 19/90] fix: refuse malformed base64 in key containers

---
 reference/src/taimpl/src/internal/json.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index c2a3bac..368782d 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -1170,6 +1170,11 @@ bool b64_decode(
             break;
         }
 
+        if (!url_decode && in_length != data_length) {
+            ERROR("Invalid in_length");
+            break;
+        }
+
         memcpy(data, in, in_length);
         if (url_decode) {
             for (size_t i = 0; i < in_length; i++) {
@@ -1199,8 +1204,13 @@ bool b64_decode(
         bio = BIO_push(b64, bio);
         b64 = NULL;
 
+        size_t decoded_length = *out_length;
+        if (data_length > 0 && data[data_length - 1] == '=')
+            decoded_length -= data[data_length - 2] == '=' ? 2 : 1;
+
+        // decoding stops at or skips what is not base64
         int written = BIO_read(bio, out, (int) *out_length);
-        if (written < 0) {
+        if (written < 0 || (size_t) written != decoded_length) {
             ERROR("BIO_read failed");
             break;
         }
-- 
2.43.0


From 25049fd70e5eeceaa56f2e76fff8cd38ca366f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 20/90] fix: free undecodable parts of TypeJ containers once

---
 reference/src/taimpl/src/internal/typej.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index 08792c4..dab41c4 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -176,7 +176,6 @@ static typej_unpacked_t* unpack_typej(
         if (!b64_decode(unpacked->header, &unpacked->header_length, unpacked->header_b64,
                     unpacked->header_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->header);
             break;
         }
 
@@ -185,7 +184,6 @@ static typej_unpacked_t* unpack_typej(
         if (!b64_decode(unpacked->payload, &unpacked->payload_length, unpacked->payload_b64,
                     unpacked->payload_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->payload);
             break;
         }
 
@@ -193,7 +191,6 @@ static typej_unpacked_t* unpack_typej(
         unpacked->mac = memory_internal_alloc(unpacked->mac_length);
         if (!b64_decode(unpacked->mac, &unpacked->mac_length, unpacked->mac_b64, unpacked->mac_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->mac);
             break;
         }
 
@@ -542,7 +539,6 @@ static sa_status unwrap_key_v1(
         content_key = memory_internal_alloc(content_key_size);
         if (!b64_decode(content_key, &content_key_size, content_key_b64, content_key_b64_size, false)) {
             ERROR("Invalid contentKey");
-            memory_secure_free(content_key);
             status = SA_STATUS_INVALID_KEY_FORMAT;
             break;
         }
@@ -655,7 +651,6 @@ static sa_status unwrap_key_v2(
         content_key = memory_internal_alloc(content_key_size);
         if (!b64_decode(content_key, &content_key_size, content_key_b64, content_key_b64_size, false)) {
             ERROR("json_key_value_find failed");
-            memory_secure_free(content_key);
             status = SA_STATUS_INVALID_KEY_FORMAT;
             break;
         }
@@ -699,7 +694,6 @@ static sa_status unwrap_key_v2(
             iv = memory_internal_alloc(iv_size);
             if (!b64_decode(iv, &iv_size, iv_b64, iv_b64_size, false) || iv_size != SYM_128_KEY_SIZE) {
                 ERROR("Invalid contentKeyTransportIv");
-                memory_secure_free(iv);
                 status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
             }
-- 
2.43.0


From c7e1cf5c49ebfdae24dc2d94bf3a3a1389362d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 21/90] fix: refuse TypeJ times with trailing characters

---
 reference/src/taimpl/src/internal/typej.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index dab41c4..7863a67 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -108,7 +108,7 @@ static bool iso8601_to_epoch_time(
 
     struct tm tm_value = {0};
     char* strptime_result = strptime(iso8601, ISO_TIME_FORMAT, &tm_value);
-    if (strptime_result == NULL || *strptime_result != 'Z') {
+    if (strptime_result != iso8601 + iso8601_size - 1 || *strptime_result != 'Z') {
         ERROR("strptime failed for iso time '%s'", iso8601);
         return false;
     }
-- 
2.43.0


From b9cd08a0786f185dad69aef8431845252864b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 22/90] fix: refuse TypeJ usage and TA lists of another type

---
 reference/src/taimpl/src/internal/typej.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index 7863a67..eaf5bd0 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -402,6 +402,11 @@ static sa_status fields_to_rights(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
+    if (json_value_get_type(usage_field->value) != JSON_TYPE_INT) {
+        ERROR("Invalid contentKeyUsage");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     long long usage = json_value_as_integer(usage_field->value);
     status = key_usage_to_usage_flags(&rights->usage_flags, usage, SA_KEY_TYPE_SYMMETRIC, AES_SUBTYPE);
     if (status != SA_STATUS_OK) {
@@ -469,8 +474,13 @@ static sa_status fields_to_rights(
         // those version. If omitted in a version 3 key container, the all caller UUIDS are allowed.
         memcpy(&rights->allowed_tas[0], &ALL_MATCH, sizeof(sa_uuid));
     } else {
-        size_t entitled_ta_ids_length;
+        size_t entitled_ta_ids_length = 0;
         entitled_ta_ids = json_value_as_array(&entitled_ta_ids_length, entitled_ta_ids_field->value);
+        if (entitled_ta_ids == NULL) {
+            ERROR("json_value_as_array failed");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
         if (entitled_ta_ids_length > MAX_NUM_ALLOWED_TA_IDS) {
             memory_internal_free(entitled_ta_ids);
             ERROR("Invalid entitled_ta_ids_length");
@@ -478,15 +488,13 @@ static sa_status fields_to_rights(
         }
 
         for (size_t i = 0; i < entitled_ta_ids_length; i++) {
-            size_t ta_id_length;
+            size_t ta_id_length = 0;
             const char* ta_id = json_value_as_string(&ta_id_length, entitled_ta_ids[i]);
-            if (ta_id_length != UUID_LENGTH) {
+            if (ta_id == NULL || !convert_uuid(ta_id, ta_id_length, &rights->allowed_tas[i])) {
                 memory_internal_free(entitled_ta_ids);
                 ERROR("Invalid ta_id");
                 return SA_STATUS_INVALID_KEY_FORMAT;
             }
-
-            convert_uuid(ta_id, ta_id_length, &rights->allowed_tas[i]);
         }
 
         memory_internal_free(entitled_ta_ids);
-- 
2.43.0


From 1fccd7fe414a81945538116bd256c89d2efe080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 23/90] fix: parse JSON of any depth and length in bounded
 stack

---
 reference/src/taimpl/src/internal/json.c | 63 ++++++++++++++----------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index 368782d..0d0269e 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -25,6 +25,7 @@
 #include <yajl/yajl_version.h>
 
 #define MAX_KEY_LENGTH 255 // NOLINT
+#define MAX_DEPTH 64       // NOLINT
 
 struct json_value_s {
     json_type_e type;
@@ -110,22 +111,23 @@ static json_map_t* json_map_new() {
 }
 
 static void json_map_free(json_map_t* map) {
-    if (map == NULL) {
-        return;
+    while (map != NULL) {
+        json_map_t* next = map->next;
+        memory_internal_free(map->key);
+        json_value_free(map->value);
+        memory_internal_free(map);
+        map = next;
     }
-
-    memory_internal_free(map->key);
-    json_value_free(map->value);
-    json_map_free(map->next);
-    memory_internal_free(map);
 }
 
 static size_t json_map_size(const json_map_t* map) {
-    if (map->next == NULL) {
-        return 0;
+    size_t size = 0;
+    while (map->next != NULL) {
+        map = map->next;
+        size++;
     }
 
-    return 1 + json_map_size(map->next);
+    return size;
 }
 
 static json_map_t* json_map_last_key_value(json_map_t* map) {
@@ -133,11 +135,10 @@ static json_map_t* json_map_last_key_value(json_map_t* map) {
         return NULL;
     }
 
-    if (map->next == NULL) {
-        return map;
-    }
+    while (map->next != NULL)
+        map = map->next;
 
-    return json_map_last_key_value(map->next);
+    return map;
 }
 
 static json_map_t* json_map_add_key_value(json_map_t* map) {
@@ -201,21 +202,22 @@ static json_array_t* json_array_new() {
 }
 
 static void json_array_free(json_array_t* array) {
-    if (array == NULL) {
-        return;
+    while (array != NULL) {
+        json_array_t* next = array->next;
+        json_value_free(array->value);
+        memory_internal_free(array);
+        array = next;
     }
-
-    json_array_free(array->next);
-    json_value_free(array->value);
-    memory_internal_free(array);
 }
 
 static size_t json_array_size(const json_array_t* array) {
-    if (array->next == NULL) {
-        return 0;
+    size_t size = 0;
+    while (array->next != NULL) {
+        array = array->next;
+        size++;
     }
 
-    return 1 + json_array_size(array->next);
+    return size;
 }
 
 static void json_array_set_value(json_array_t* array, json_value_t* value) {
@@ -233,11 +235,10 @@ static json_array_t* json_array_last(json_array_t* array) {
         return NULL;
     }
 
-    if (array->next == NULL) {
-        return array;
-    }
+    while (array->next != NULL)
+        array = array->next;
 
-    return json_array_last(array->next);
+    return array;
 }
 
 static json_array_t* json_array_add(
@@ -332,6 +333,7 @@ static json_stack_t* json_stack_pop(
 typedef struct {
     yajl_handle yajl;
     json_stack_t* stack;
+    size_t depth;
     json_value_t* root;
 } json_parse_context_t;
 
@@ -404,6 +406,11 @@ static json_stack_t* json_parse_context_push(
         return NULL;
     }
 
+    if (context->depth >= MAX_DEPTH) {
+        ERROR("Nested too deeply");
+        return NULL;
+    }
+
     json_stack_t* new_stack = json_stack_push(context->stack);
     if (new_stack == NULL) {
         ERROR("json_stack_push failed");
@@ -413,6 +420,7 @@ static json_stack_t* json_parse_context_push(
     json_stack_set_value(new_stack, val);
 
     context->stack = new_stack;
+    context->depth++;
 
     return context->stack;
 }
@@ -481,6 +489,7 @@ static json_stack_t* json_parse_context_pop(json_parse_context_t* context) {
 
     json_value_t* value = NULL;
     context->stack = json_stack_pop(context->stack, &value);
+    context->depth--;
 
     json_parse_context_set_value(context, value);
 
-- 
2.43.0


From 37abb6101f1b159531d7d84532411e04d19d4aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 24/90] fix: refuse TypeJ content keys that are not whole
 blocks

---
 reference/src/taimpl/src/internal/typej.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index eaf5bd0..3c1a0f7 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -551,7 +551,7 @@ static sa_status unwrap_key_v1(
             break;
         }
 
-        if (content_key_size % SYM_128_KEY_SIZE) {
+        if (content_key_size == 0 || content_key_size % AES_BLOCK_SIZE) {
             ERROR("Invalid content_key_size");
             status = SA_STATUS_INVALID_KEY_FORMAT;
             break;
@@ -663,6 +663,12 @@ static sa_status unwrap_key_v2(
             break;
         }
 
+        if (content_key_size == 0 || content_key_size % AES_BLOCK_SIZE) {
+            ERROR("Invalid content_key_size");
+            status = SA_STATUS_INVALID_KEY_FORMAT;
+            break;
+        }
+
         const json_key_value_t* content_key_length_field = json_key_value_find("contentKeyLength",
                 fields, fields_count);
         if (content_key_length_field == NULL) {
-- 
2.43.0


From 75fe0e518e70325214f455f7a3f39e048f5a31cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 25/90] fix: check the length and type of every SoC container
 field

---
 .../taimpl/src/internal/soc_key_container.c   | 182 ++++++++++++------
 1 file changed, 123 insertions(+), 59 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 9608297..bda898f 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -31,6 +31,7 @@
 
 #define AES_128_GCM "A128GCM"
 #define MAX_AAD_SIZE 1300
+#define MAX_KEY_TYPE_LENGTH 32
 #define SOC_CONTAINER_VERSION 4
 #define UNIQUE_STR "unique"
 #define COMMON_STR "common"
@@ -76,6 +77,61 @@ typedef struct {
     key_ladder_inputs_t key_ladder_inputs;
 } soc_kc_payload_t;
 
+static bool string_equals(
+        const char* string,
+        size_t string_length,
+        const char* expected) {
+
+    return string != NULL && string_length == strlen(expected) &&
+           memory_memcmp_constant(string, expected, string_length) == 0;
+}
+
+static bool decode_exactly(
+        uint8_t* out,
+        size_t out_length,
+        const json_value_t* value) {
+
+    size_t b64_length = 0;
+    const char* b64 = json_value_as_string(&b64_length, value);
+    if (b64 == NULL) {
+        ERROR("json_value_as_string failed");
+        return false;
+    }
+
+    size_t decoded_length = b64_decoded_length(b64_length);
+    uint8_t* decoded = memory_internal_alloc(decoded_length);
+    if (decoded == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return false;
+    }
+
+    bool status = b64_decode(decoded, &decoded_length, b64, b64_length, false) && decoded_length == out_length;
+    if (status)
+        memcpy(out, decoded, out_length);
+
+    memory_internal_free(decoded);
+    return status;
+}
+
+static bool read_uint8(
+        uint8_t* out,
+        const json_value_t* value) {
+
+    if (json_value_get_type(value) != JSON_TYPE_INT) {
+        ERROR("Invalid type");
+        return false;
+    }
+
+    int64_t integer = json_value_as_integer(value);
+    if (integer < 0 || integer > UINT8_MAX) {
+        ERROR("Invalid value");
+        return false;
+    }
+
+    *out = integer;
+    return true;
+}
+
 static soc_kc_unpacked_t* soc_kc_unpacked_create() {
     soc_kc_unpacked_t* unpacked = memory_internal_alloc(sizeof(soc_kc_unpacked_t));
     if (unpacked == NULL) {
@@ -265,8 +321,11 @@ static sa_status fields_to_rights(
         memcpy(&rights->allowed_tas[0], &ALL_MATCH, sizeof(sa_uuid));
     } else {
         for (size_t i = 0; i < payload->entitled_ta_ids_length; i++) {
-            convert_uuid(payload->entitled_ta_ids[i].ta_id, sizeof(payload->entitled_ta_ids[i].ta_id),
-                    &rights->allowed_tas[i]);
+            if (!convert_uuid(payload->entitled_ta_ids[i].ta_id, sizeof(payload->entitled_ta_ids[i].ta_id),
+                        &rights->allowed_tas[i])) {
+                ERROR("Invalid ta_id");
+                return SA_STATUS_INVALID_KEY_FORMAT;
+            }
         }
     }
 
@@ -326,7 +385,10 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    payload->container_version = json_value_as_integer(container_version_field->value);
+    if (!read_uint8(&payload->container_version, container_version_field->value)) {
+        ERROR("Invalid containerVersion");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
 
     // read the root key type
     if (payload->container_version >= 5) {
@@ -334,12 +396,12 @@ static sa_status parse_payload(
         if (root_key_type_field == NULL) {
             payload->root_key_type = UNDEFINED;
         } else {
-            size_t root_key_type_length;
+            size_t root_key_type_length = 0;
             const char* root_key_type = json_value_as_string(&root_key_type_length,
                     root_key_type_field->value);
-            if (memory_memcmp_constant(root_key_type, UNIQUE_STR, root_key_type_length) == 0) {
+            if (string_equals(root_key_type, root_key_type_length, UNIQUE_STR)) {
                 payload->root_key_type = UNIQUE;
-            } else if (memory_memcmp_constant(root_key_type, COMMON_STR, root_key_type_length) == 0) {
+            } else if (string_equals(root_key_type, root_key_type_length, COMMON_STR)) {
                 payload->root_key_type = COMMON;
             } else {
                 ERROR("Invalid rootKeyType");
@@ -370,8 +432,13 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_encrypted_key_length;
+    size_t b64_encrypted_key_length = 0;
     const char* encrypted_key = json_value_as_string(&b64_encrypted_key_length, encrypted_key_field->value);
+    if (encrypted_key == NULL) {
+        ERROR("json_value_as_string failed");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     payload->encrypted_key_length = b64_decoded_length(b64_encrypted_key_length);
     payload->encrypted_key = memory_internal_alloc(payload->encrypted_key_length);
     if (payload->encrypted_key == NULL) {
@@ -382,7 +449,6 @@ static sa_status parse_payload(
     if (!b64_decode(payload->encrypted_key, &payload->encrypted_key_length, encrypted_key, b64_encrypted_key_length,
                 false)) {
         ERROR("b64_decode failed");
-        memory_internal_free(payload->encrypted_key);
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -393,10 +459,7 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_iv_length;
-    const char* iv = json_value_as_string(&b64_iv_length, iv_field->value);
-    size_t iv_length = b64_decoded_length(b64_iv_length);
-    if (!b64_decode(payload->iv, &iv_length, iv, b64_iv_length, false) && iv_length != GCM_IV_LENGTH) {
+    if (!decode_exactly(payload->iv, GCM_IV_LENGTH, iv_field->value)) {
         ERROR("b64_decode failed");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
@@ -408,7 +471,10 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    payload->key_usage = json_value_as_integer(key_usage_field->value);
+    if (!read_uint8(&payload->key_usage, key_usage_field->value)) {
+        ERROR("Invalid keyUsage");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
 
     if (payload->key_usage == KEY_ONLY) {
         // read decrypted key usage
@@ -417,8 +483,9 @@ static sa_status parse_payload(
         if (decrypted_key_usage_field == NULL) {
             // For sake of compatibility,sometimes there is no field of decrypted_key_usage.
             payload->decrypted_key_usage = 0;
-        } else {
-            payload->decrypted_key_usage = json_value_as_integer(decrypted_key_usage_field->value);
+        } else if (!read_uint8(&payload->decrypted_key_usage, decrypted_key_usage_field->value)) {
+            ERROR("Invalid decryptedKeyUsage");
+            return SA_STATUS_INVALID_KEY_FORMAT;
         }
     } else {
         payload->decrypted_key_usage = 0;
@@ -431,10 +498,21 @@ static sa_status parse_payload(
         payload->entitled_ta_ids_length = 0;
     } else {
         entitled_ta_ids = json_value_as_array(&payload->entitled_ta_ids_length, entitled_ta_ids_field->value);
+        if (entitled_ta_ids == NULL) {
+            ERROR("json_value_as_array failed");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
+        if (payload->entitled_ta_ids_length > MAX_NUM_ALLOWED_TA_IDS) {
+            memory_internal_free(entitled_ta_ids);
+            ERROR("Too many entitled_ta_ids");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
         for (size_t i = 0; i < payload->entitled_ta_ids_length; i++) {
-            size_t ta_id_length;
+            size_t ta_id_length = 0;
             const char* ta_id = json_value_as_string(&ta_id_length, entitled_ta_ids[i]);
-            if (ta_id_length != UUID_LENGTH) {
+            if (ta_id == NULL || ta_id_length != UUID_LENGTH) {
                 memory_internal_free(entitled_ta_ids);
                 ERROR("Invalid ta_id");
                 return SA_STATUS_INVALID_KEY_FORMAT;
@@ -453,11 +531,7 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c1_length;
-    const char* c1 = json_value_as_string(&b64_c1_length, c1_field->value);
-    size_t c1_length = b64_decoded_length(b64_c1_length);
-    if (!b64_decode(payload->key_ladder_inputs.c1, &c1_length, c1, b64_c1_length, false) &&
-            c1_length != AES_BLOCK_SIZE) {
+    if (!decode_exactly(payload->key_ladder_inputs.c1, AES_BLOCK_SIZE, c1_field->value)) {
         ERROR("b64_decode failed");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
@@ -469,11 +543,7 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c2_length;
-    const char* c2 = json_value_as_string(&b64_c2_length, c2_field->value);
-    size_t c2_length = b64_decoded_length(b64_c2_length);
-    if (!b64_decode(payload->key_ladder_inputs.c2, &c2_length, c2, b64_c2_length, true) &&
-            c2_length != AES_BLOCK_SIZE) {
+    if (!decode_exactly(payload->key_ladder_inputs.c2, AES_BLOCK_SIZE, c2_field->value)) {
         ERROR("b64_decode failed");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
@@ -485,11 +555,7 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c3_length;
-    const char* c3 = json_value_as_string(&b64_c3_length, c3_field->value);
-    size_t c3_length = b64_decoded_length(b64_c3_length);
-    if (!b64_decode(payload->key_ladder_inputs.c3, &c3_length, c3, b64_c3_length, false) &&
-            c3_length != AES_BLOCK_SIZE) {
+    if (!decode_exactly(payload->key_ladder_inputs.c3, AES_BLOCK_SIZE, c3_field->value)) {
         ERROR("b64_decode failed");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
@@ -549,7 +615,8 @@ static size_t build_aad(
     }
 
     // key type string
-    if (!payload->key_type_string || payload->key_type_string_length <= 0) {
+    if (!payload->key_type_string || payload->key_type_string_length <= 0 ||
+            payload->key_type_string_length > MAX_KEY_TYPE_LENGTH) {
         ERROR("Invalid key_type_string");
         return 0;
     }
@@ -564,12 +631,9 @@ static size_t build_aad(
     }
 
     if (payload->key_usage == KEY_ONLY &&
-            (memory_memcmp_constant(payload->key_type_string, "HMAC-128",
-                     payload->key_type_string_length) == 0 ||
-                    memory_memcmp_constant(payload->key_type_string, "HMAC-160",
-                            payload->key_type_string_length) == 0 ||
-                    memory_memcmp_constant(payload->key_type_string, "HMAC-256",
-                            payload->key_type_string_length) == 0)) {
+            (string_equals(payload->key_type_string, payload->key_type_string_length, "HMAC-128") ||
+                    string_equals(payload->key_type_string, payload->key_type_string_length, "HMAC-160") ||
+                    string_equals(payload->key_type_string, payload->key_type_string_length, "HMAC-256"))) {
         ERROR("Invalid key_usage for HMAC key");
         return 0;
     }
@@ -641,97 +705,97 @@ static bool get_key_type_and_size(
         return false;
     }
 
-    if (memory_memcmp_constant(key_type_string, "AES-128", key_type_string_length) == 0) {
+    if (string_equals(key_type_string, key_type_string_length, "AES-128")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_128_KEY_SIZE;
         *subtype = AES_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-128", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "HMAC-128")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_128_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "AES-256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "AES-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = AES_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "CHACHA20-256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "CHACHA20-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = CHACHA20_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "HMAC-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-160", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "HMAC-160")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_160_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-1024", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-1024")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_1024_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-2048", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-2048")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_2048_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-3072", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-3072")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_3072_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-4096", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-4096")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_4096_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P192", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P192")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P192_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P192;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P224", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P224")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P224_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P224;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P256")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P256_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P256;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P384", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P384")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P384_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P384;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P521", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P521")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P521_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P521;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-ED25519", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-ED25519")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_25519_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_ED25519;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-ED448", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-ED448")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_ED448_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_ED448;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-X25519", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-X25519")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_25519_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_X25519;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-X448", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-X448")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_X448_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
@@ -894,7 +958,7 @@ sa_status soc_kc_unwrap(
     soc_kc_header_t header;
     soc_kc_payload_t payload;
 
-    memory_memset_unoptimizable(&payload, 0, sizeof(soc_kc_unpacked_t));
+    memory_memset_unoptimizable(&payload, 0, sizeof(soc_kc_payload_t));
     sa_status status = SA_STATUS_INVALID_KEY_FORMAT;
     do {
         unpacked = unpack_soc_kc(in, in_length);
-- 
2.43.0


From 5e1397e6925442e657bfa15b01ee0583a6300f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 26/90] fix: refuse SoC containers with an invalid EC key

---
 reference/src/taimpl/src/internal/soc_key_container.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index bda898f..39347fd 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -896,6 +896,7 @@ static sa_status decrypt_key_and_verify_mac(
             size_t ec_key_size = ec_validate_private(curve, key, payload->encrypted_key_length);
             if (ec_key_size == 0) {
                 ERROR("Invalid key size");
+                status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
             }
 
-- 
2.43.0


From c09e69486de243a63c32726c0fd7c72c2d696e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 27/90] fix: require the whole authentication tag of SoC
 containers

---
 reference/src/taimpl/src/internal/soc_key_container.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 39347fd..bd4872d 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -851,6 +851,11 @@ static sa_status decrypt_key_and_verify_mac(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
+    if (unpacked->mac_length != AES_BLOCK_SIZE) {
+        ERROR("Invalid mac_length");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     void* key = NULL;
     sa_status status;
     do {
-- 
2.43.0


From 86fac6b48b84e5b9d9131cc1cf19dbed47b1b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 28/90] fix: refuse base64 text one character longer than whole
 bytes

---
 reference/src/taimpl/src/internal/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index 0d0269e..1f19db9 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -1179,7 +1179,7 @@ bool b64_decode(
             break;
         }
 
-        if (!url_decode && in_length != data_length) {
+        if (in_length % 4 == 1 || (!url_decode && in_length != data_length)) {
             ERROR("Invalid in_length");
             break;
         }
-- 
2.43.0


From a8d18d414770d0bfcde8fc693f2c97f5354bca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 29/90] fix: check the length of SoC import parameters sent to
 the TA

---
 reference/src/taimpl/src/internal/ta.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 1a47888..6422ecd 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -358,6 +358,11 @@ static sa_status ta_invoke_key_import(
                     return SA_STATUS_NULL_PARAMETER;
                 }
 
+                if (params[2].mem_ref_size != sizeof(sa_import_parameters_soc)) {
+                    ERROR("params[2].mem_ref_size is invalid");
+                    return SA_STATUS_INVALID_PARAMETER;
+                }
+
                 memcpy(&parameters_soc, params[2].mem_ref, params[2].mem_ref_size);
                 parameters = &parameters_soc;
             }
@@ -405,6 +410,11 @@ static sa_status ta_invoke_key_provision(
             return SA_STATUS_NULL_PARAMETER;
         }
 
+        if (params[2].mem_ref_size != sizeof(sa_import_parameters_soc)) {
+            ERROR("params[2].mem_ref_size is invalid");
+            return SA_STATUS_INVALID_PARAMETER;
+        }
+
          memcpy(&parameters_soc, params[2].mem_ref, params[2].mem_ref_size);
          parameters = &parameters_soc;
      }
-- 
2.43.0


From 1dc7a67e9871c94b55142a74029db2bc00fb583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 30/90] fix: refuse provisioning commands with a missing or
 unknown key type

---
 reference/src/taimpl/src/internal/ta.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 6422ecd..3be4141 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -419,7 +419,19 @@ static sa_status ta_invoke_key_provision(
          parameters = &parameters_soc;
      }
     
-     sa_key_type_ta ta_key_type = *(int*)(params[3].mem_ref);
+     if (params[3].mem_ref == NULL) {
+         ERROR("NULL params[3].mem_ref");
+         return SA_STATUS_NULL_PARAMETER;
+     }
+
+     if (params[3].mem_ref_size != sizeof(int)) {
+         ERROR("params[3].mem_ref_size is invalid");
+         return SA_STATUS_INVALID_PARAMETER;
+     }
+
+     int ta_key_type_value;
+     memcpy(&ta_key_type_value, params[3].mem_ref, sizeof(int));
+     sa_key_type_ta ta_key_type = ta_key_type_value;
 
      void   *in = NULL;
      size_t in_length = 0;
@@ -483,7 +495,7 @@ static sa_status ta_invoke_key_provision(
               break;
 	  default:
 	      ERROR("unknown key provisioning type");
-              break;
+              return SA_STATUS_INVALID_PARAMETER;
      }
      INFO("ta_key_type: %d", ta_key_type);
      INFO("in_length: %d", in_length);
-- 
2.43.0


From 139db84a47c7448dbeeb3baa1901e5dad63be248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 31/90] fix: check the length of the provisioning object

---
 reference/src/taimpl/src/internal/ta.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 3be4141..5847c2a 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -441,6 +441,11 @@ static sa_status ta_invoke_key_provision(
      size_t in_wrapping_key_length = 0;
      switch(ta_key_type) {
          case WIDEVINE_OEM_PROVISIONING:
+	      if (params[1].mem_ref_size != sizeof(WidevineOemProvisioning)) {
+	          ERROR("params[1].mem_ref_size is invalid");
+	          return SA_STATUS_INVALID_PARAMETER;
+	      }
+
 	      in = ((WidevineOemProvisioning*)params[1].mem_ref)->oemDevicePrivateKey;
 	      in_length = ((WidevineOemProvisioning*)params[1].mem_ref)->oemDevicePrivateKeyLength;
 	      
@@ -457,6 +462,11 @@ static sa_status ta_invoke_key_provision(
 	      }
 	      break;
 	  case PLAYREADY_MODEL_PROVISIONING:
+	       if (params[1].mem_ref_size != sizeof(PlayReadyProvisioning)) {
+	           ERROR("params[1].mem_ref_size is invalid");
+	           return SA_STATUS_INVALID_PARAMETER;
+	       }
+
 	       in = ((PlayReadyProvisioning*)params[1].mem_ref)->privateKey;
 	       in_length = ((PlayReadyProvisioning*)params[1].mem_ref)->privateKeyLength;
 
@@ -479,6 +489,11 @@ static sa_status ta_invoke_key_provision(
 	       }
                break;
 	  case NETFLIX_PROVISIONING:
+	       if (params[1].mem_ref_size != sizeof(NetflixProvisioning)) {
+	           ERROR("params[1].mem_ref_size is invalid");
+	           return SA_STATUS_INVALID_PARAMETER;
+	       }
+
 	       in_hmac = ((NetflixProvisioning*)params[1].mem_ref)->hmacKey;
 	       in_hmac_length = ((NetflixProvisioning*)params[1].mem_ref)->hmacKeyLength;
 	       in_wrapping_key = ((NetflixProvisioning*)params[1].mem_ref)->wrappingKey;
-- 
2.43.0


From 06544ae1a70a0b77cd703d3d4eb7f5e213a90772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 32/90] fix: check the length of key derivation parameters sent
 to the TA

---
 reference/src/taimpl/src/internal/ta.c | 30 ++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 5847c2a..2c511e0 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -803,6 +803,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_root_key_ladder_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_root_key_ladder_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_root_key_ladder.c1 = parameters_root_key_ladder_s.c1;
             parameters_root_key_ladder.c1_length = AES_BLOCK_SIZE;
@@ -821,6 +826,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_hkdf_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref and params[3].mem_ref can be null.
             memcpy(&parameters_hkdf_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_hkdf.key_length = parameters_hkdf_s.key_length;
@@ -839,6 +849,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_concat_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref can be null.
             memcpy(&parameters_concat_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_concat.key_length = parameters_concat_s.key_length;
@@ -855,6 +870,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_ansi_x963_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref can be null.
             memcpy(&parameters_ansi_x963_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_ansi_x963.key_length = parameters_ansi_x963_s.key_length;
@@ -871,6 +891,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_cmac_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref can be null.
             memcpy(&parameters_cmac_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_cmac.key_length = parameters_cmac_s.key_length;
@@ -887,6 +912,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_netflix_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_netflix, params[1].mem_ref, params[1].mem_ref_size);
             algorithm_parameters = &parameters_netflix;
             break;
-- 
2.43.0


From a3d2972900ec7ec0b25b69888563eb989b53606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 33/90] fix: refuse key header commands with nowhere to write

---
 reference/src/taimpl/src/internal/ta.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 2c511e0..e3515c4 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1025,6 +1025,11 @@ static sa_status ta_invoke_key_header(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (params[1].mem_ref == NULL) {
+        ERROR("NULL params[1].mem_ref");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
     if (key_header->api_version != API_VERSION) {
         ERROR("Invalid api_version");
         return SA_STATUS_INVALID_PARAMETER;
-- 
2.43.0


From fa86fbe996c715cc842d21a12e0b026bac835bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 34/90] fix: check the buffer types and SVP references of
 commands

---
 reference/src/taimpl/src/internal/ta.c | 107 ++++++++++++++-----------
 1 file changed, 62 insertions(+), 45 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index e3515c4..304399e 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -44,6 +44,41 @@ typedef struct {
     ta_client client;
 } ta_session_context;
 
+static sa_status ta_get_buffer(
+        sa_buffer* buffer,
+        uint32_t buffer_type,
+        uint64_t offset,
+        const ta_param* param) {
+
+    buffer->buffer_type = buffer_type;
+    switch (buffer_type) {
+        case SA_BUFFER_TYPE_CLEAR:
+            buffer->context.clear.buffer = param->mem_ref;
+            buffer->context.clear.length = param->mem_ref_size;
+            buffer->context.clear.offset = offset;
+            return SA_STATUS_OK;
+
+        case SA_BUFFER_TYPE_SVP:
+            if (param->mem_ref == NULL) {
+                ERROR("NULL mem_ref");
+                return SA_STATUS_NULL_PARAMETER;
+            }
+
+            if (param->mem_ref_size != sizeof(sa_svp_buffer)) {
+                ERROR("mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
+            memcpy(&buffer->context.svp.buffer, param->mem_ref, sizeof(sa_svp_buffer));
+            buffer->context.svp.offset = offset;
+            return SA_STATUS_OK;
+
+        default:
+            ERROR("Invalid buffer type");
+            return SA_STATUS_INVALID_PARAMETER;
+    }
+}
+
 static sa_status ta_invoke_get_version(
         sa_get_version_s* get_version,
         const uint32_t param_types[NUM_TA_PARAMS],
@@ -1314,30 +1349,24 @@ static sa_status ta_invoke_crypto_cipher_process(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    sa_status status;
     sa_buffer out;
-    out.buffer_type = crypto_cipher_process->out_buffer_type;
-    if (crypto_cipher_process->out_buffer_type == SA_BUFFER_TYPE_CLEAR) {
-        out.context.clear.buffer = params[1].mem_ref;
-        out.context.clear.length = params[1].mem_ref_size;
-        out.context.clear.offset = crypto_cipher_process->out_offset;
-    } else {
-        out.context.svp.buffer = *(sa_svp_buffer*) params[1].mem_ref;
-        out.context.svp.offset = crypto_cipher_process->out_offset;
+    if (params[1].mem_ref != NULL) {
+        status = ta_get_buffer(&out, crypto_cipher_process->out_buffer_type, crypto_cipher_process->out_offset,
+                &params[1]);
+        if (status != SA_STATUS_OK) {
+            ERROR("ta_get_buffer failed");
+            return status;
+        }
     }
 
     sa_buffer in;
-    in.buffer_type = crypto_cipher_process->in_buffer_type;
-    if (crypto_cipher_process->in_buffer_type == SA_BUFFER_TYPE_CLEAR) {
-        in.context.clear.buffer = params[2].mem_ref;
-        in.context.clear.length = params[2].mem_ref_size;
-        in.context.clear.offset = crypto_cipher_process->in_offset;
-    } else {
-        in.buffer_type = crypto_cipher_process->in_buffer_type;
-        in.context.svp.buffer = *(sa_svp_buffer*) params[2].mem_ref;
-        in.context.svp.offset = crypto_cipher_process->in_offset;
+    status = ta_get_buffer(&in, crypto_cipher_process->in_buffer_type, crypto_cipher_process->in_offset, &params[2]);
+    if (status != SA_STATUS_OK) {
+        ERROR("ta_get_buffer failed");
+        return status;
     }
 
-    sa_status status;
     if (last) {
         void* parameters;
         sa_cipher_end_parameters_aes_gcm parameters_aes_gcm;
@@ -1814,18 +1843,13 @@ static sa_status ta_invoke_svp_key_check(
     }
 
     sa_buffer in;
-    in.buffer_type = svp_key_check->in_buffer_type;
-    if (svp_key_check->in_buffer_type == SA_BUFFER_TYPE_CLEAR) {
-        in.context.clear.buffer = params[1].mem_ref;
-        in.context.clear.length = params[1].mem_ref_size;
-        in.context.clear.offset = svp_key_check->in_offset;
-    } else {
-        in.buffer_type = svp_key_check->in_buffer_type;
-        in.context.svp.buffer = *(sa_svp_buffer*) params[1].mem_ref;
-        in.context.svp.offset = svp_key_check->in_offset;
+    sa_status status = ta_get_buffer(&in, svp_key_check->in_buffer_type, svp_key_check->in_offset, &params[1]);
+    if (status != SA_STATUS_OK) {
+        ERROR("ta_get_buffer failed");
+        return status;
     }
 
-    sa_status status = ta_sa_svp_key_check(svp_key_check->key, &in, svp_key_check->bytes_to_process, params[2].mem_ref,
+    status = ta_sa_svp_key_check(svp_key_check->key, &in, svp_key_check->bytes_to_process, params[2].mem_ref,
             params[2].mem_ref_size, context->client, uuid);
     svp_key_check->in_offset =
             (svp_key_check->in_buffer_type == SA_BUFFER_TYPE_CLEAR) ? in.context.clear.offset : in.context.svp.offset;
@@ -1930,27 +1954,20 @@ static sa_status ta_invoke_process_common_encryption(
 
         sa_buffer out;
         sample.out = &out;
-        out.buffer_type = process_common_encryption->out_buffer_type;
-        if (process_common_encryption->out_buffer_type == SA_BUFFER_TYPE_CLEAR) {
-            out.context.clear.buffer = params[2].mem_ref;
-            out.context.clear.length = params[2].mem_ref_size;
-            out.context.clear.offset = process_common_encryption->out_offset;
-        } else {
-            out.context.svp.buffer = *(sa_svp_buffer*) params[2].mem_ref;
-            out.context.svp.offset = process_common_encryption->out_offset;
+        status = ta_get_buffer(&out, process_common_encryption->out_buffer_type,
+                process_common_encryption->out_offset, &params[2]);
+        if (status != SA_STATUS_OK) {
+            ERROR("ta_get_buffer failed");
+            break;
         }
 
         sa_buffer in;
         sample.in = &in;
-        in.buffer_type = process_common_encryption->in_buffer_type;
-        if (process_common_encryption->in_buffer_type == SA_BUFFER_TYPE_CLEAR) {
-            in.context.clear.buffer = params[3].mem_ref;
-            in.context.clear.length = params[3].mem_ref_size;
-            in.context.clear.offset = process_common_encryption->in_offset;
-        } else {
-            in.buffer_type = process_common_encryption->in_buffer_type;
-            in.context.svp.buffer = *(sa_svp_buffer*) params[3].mem_ref;
-            in.context.svp.offset = process_common_encryption->in_offset;
+        status = ta_get_buffer(&in, process_common_encryption->in_buffer_type, process_common_encryption->in_offset,
+                &params[3]);
+        if (status != SA_STATUS_OK) {
+            ERROR("ta_get_buffer failed");
+            break;
         }
 
         status = ta_sa_process_common_encryption(1, &sample, context->client, uuid);
-- 
2.43.0


From 17bfc469dc62e8185ad4739e8e033e3f70f5c632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 35/90] fix: check the direction of output buffers

---
 reference/src/taimpl/src/internal/ta.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 304399e..abb6ccb 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -39,6 +39,8 @@
                                               (param_type) != TEEC_MEMREF_PARTIAL_INOUT)
 #define CHECK_TA_PARAM_INOUT(param_type) ((param_type) == TEEC_MEMREF_TEMP_INOUT || \
                                           (param_type) == TEEC_MEMREF_PARTIAL_INOUT)
+#define CHECK_NOT_TA_PARAM_BUFFER_OUT(param_type, buffer_type) (((buffer_type) == SA_BUFFER_TYPE_CLEAR) ? \
+        CHECK_NOT_TA_PARAM_OUT(param_type) : CHECK_NOT_TA_PARAM_IN(param_type))
 
 typedef struct {
     ta_client client;
@@ -1330,7 +1332,8 @@ static sa_status ta_invoke_crypto_cipher_process(
 
     if (CHECK_NOT_TA_PARAM_INOUT(param_types[0]) ||
             params[0].mem_ref_size != sizeof(sa_crypto_cipher_process_s) ||
-            (CHECK_TA_PARAM_INOUT(param_types[1]) && CHECK_NOT_TA_PARAM_NULL(param_types[1], params[1])) ||
+            (CHECK_NOT_TA_PARAM_BUFFER_OUT(param_types[1], crypto_cipher_process->out_buffer_type) &&
+                    CHECK_NOT_TA_PARAM_NULL(param_types[1], params[1])) ||
             CHECK_NOT_TA_PARAM_IN(param_types[2]) ||
             (CHECK_NOT_TA_PARAM_INOUT(param_types[3]) &&
                     CHECK_NOT_TA_PARAM_NULL(param_types[3], params[3]))) {
@@ -1902,7 +1905,7 @@ static sa_status ta_invoke_process_common_encryption(
     if (CHECK_NOT_TA_PARAM_INOUT(param_types[0]) ||
             params[0].mem_ref_size != sizeof(sa_process_common_encryption_s) ||
             CHECK_NOT_TA_PARAM_IN(param_types[1]) ||
-            (CHECK_NOT_TA_PARAM_IN(param_types[2]) && CHECK_NOT_TA_PARAM_OUT(param_types[2])) ||
+            CHECK_NOT_TA_PARAM_BUFFER_OUT(param_types[2], process_common_encryption->out_buffer_type) ||
             CHECK_NOT_TA_PARAM_IN(param_types[3])) {
         ERROR("Invalid param[0] or param type");
         return SA_STATUS_INVALID_PARAMETER;
-- 
2.43.0


From 3fbf0ccb3779e647336a1da4c0a47723f2cd784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 36/90] fix: check the subsample count against the parameter
 without overflow

---
 reference/src/taimpl/src/internal/ta.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index abb6ccb..f35ce81 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1930,7 +1930,8 @@ static sa_status ta_invoke_process_common_encryption(
     sa_sample sample;
     do {
         sample.subsample_count = process_common_encryption->subsample_count;
-        if (params[1].mem_ref_size != sizeof(sa_subsample_length) * sample.subsample_count) {
+        if (params[1].mem_ref_size % sizeof(sa_subsample_length_s) != 0 ||
+                params[1].mem_ref_size / sizeof(sa_subsample_length_s) != sample.subsample_count) {
             ERROR("params[1].mem_ref_size is invalid");
             return SA_STATUS_INVALID_PARAMETER;
         }
-- 
2.43.0


From 588757e7667528dd9d2698ef89e0f3aa4709a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 37/90] fix: use the cached EC ElGamal unwrap parameters

---
 reference/src/taimpl/src/internal/ta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index f35ce81..b4294b8 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -734,7 +734,7 @@ static sa_status ta_invoke_key_unwrap(
             }
 
             memcpy(&parameters_ec_elgamal, params[2].mem_ref, params[2].mem_ref_size);
-            algorithm_parameters = params[2].mem_ref;
+            algorithm_parameters = &parameters_ec_elgamal;
             break;
 
         case SA_CIPHER_ALGORITHM_RSA_OAEP:
-- 
2.43.0


From 478a1352484366b5a113a1485f56f29bb18cf5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 38/90] fix: refuse SVP offsets that are not whole structures

---
 reference/src/taimpl/src/internal/ta.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index b4294b8..76ac01f 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1732,6 +1732,11 @@ static sa_status ta_invoke_svp_buffer_write(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (params[2].mem_ref_size % sizeof(sa_svp_offset_s) != 0) {
+        ERROR("params[2].mem_ref_size is invalid");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (svp_buffer_write->api_version != API_VERSION) {
         ERROR("Invalid api_version");
         return SA_STATUS_INVALID_PARAMETER;
@@ -1786,6 +1791,11 @@ static sa_status ta_invoke_svp_buffer_copy(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (params[1].mem_ref_size % sizeof(sa_svp_offset_s) != 0) {
+        ERROR("params[1].mem_ref_size is invalid");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (svp_buffer_copy->api_version != API_VERSION) {
         ERROR("Invalid api_version");
         return SA_STATUS_INVALID_PARAMETER;
-- 
2.43.0


From eacc8216e0d3050a358fa85728c33a288cb07045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 39/90] fix: copy key containers and wrapped keys before
 authenticating them

---
 reference/src/taimpl/src/internal/ta.c | 37 +++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 76ac01f..3337acf 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -410,8 +410,19 @@ static sa_status ta_invoke_key_import(
             parameters = NULL;
     }
 
-    return ta_sa_key_import(&key_import->key, key_import->key_format, params[1].mem_ref, params[1].mem_ref_size,
+    // Cache the key data to prevent Time-of-use Time-of-check errors.
+    void* in = memory_secure_alloc(params[1].mem_ref_size);
+    if (in == NULL) {
+        ERROR("memory_secure_alloc failed");
+        return SA_STATUS_INTERNAL_ERROR;
+    }
+
+    memcpy(in, params[1].mem_ref, params[1].mem_ref_size);
+    sa_status status = ta_sa_key_import(&key_import->key, key_import->key_format, in, params[1].mem_ref_size,
             parameters, context->client, uuid);
+    memory_memset_unoptimizable(in, 0, params[1].mem_ref_size);
+    memory_secure_free(in);
+    return status;
 }
 
 static sa_status ta_invoke_key_provision(
@@ -761,9 +772,27 @@ static sa_status ta_invoke_key_unwrap(
             break;
     }
 
-    return ta_sa_key_unwrap(&key_unwrap->key, &key_unwrap->rights, key_unwrap->key_type, type_parameters,
-            key_unwrap->cipher_algorithm, algorithm_parameters, key_unwrap->wrapping_key, params[1].mem_ref,
-            params[1].mem_ref_size, context->client, uuid);
+    // Cache the wrapped key to prevent Time-of-use Time-of-check errors.
+    void* in = NULL;
+    if (params[1].mem_ref != NULL) {
+        in = memory_secure_alloc(params[1].mem_ref_size);
+        if (in == NULL) {
+            ERROR("memory_secure_alloc failed");
+            return SA_STATUS_INTERNAL_ERROR;
+        }
+
+        memcpy(in, params[1].mem_ref, params[1].mem_ref_size);
+    }
+
+    sa_status status = ta_sa_key_unwrap(&key_unwrap->key, &key_unwrap->rights, key_unwrap->key_type, type_parameters,
+            key_unwrap->cipher_algorithm, algorithm_parameters, key_unwrap->wrapping_key, in, params[1].mem_ref_size,
+            context->client, uuid);
+    if (in != NULL) {
+        memory_memset_unoptimizable(in, 0, params[1].mem_ref_size);
+        memory_secure_free(in);
+    }
+
+    return status;
 }
 
 static sa_status ta_invoke_key_get_public(
-- 
2.43.0


From 9e023e72d0141cafee6682f2f8d322e472df52dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 40/90] fix: free the unwrapped key when the OAEP label is
 missing

---
 reference/src/taimpl/src/internal/unwrap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/unwrap.c b/reference/src/taimpl/src/internal/unwrap.c
index ccfdc03..b1b8db0 100644
--- a/reference/src/taimpl/src/internal/unwrap.c
+++ b/reference/src/taimpl/src/internal/unwrap.c
@@ -802,7 +802,8 @@ sa_status unwrap_rsa(
             sa_unwrap_parameters_rsa_oaep* oaep_parameters = (sa_unwrap_parameters_rsa_oaep*) algorithm_parameters;
             if (oaep_parameters->label == NULL && oaep_parameters->label_length != 0) {
                 ERROR("Invalid label_length");
-                return SA_STATUS_INVALID_PARAMETER;
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
             }
 
             status = rsa_decrypt_oaep(unwrapped_key, &unwrapped_key_length, stored_key_wrapping,
-- 
2.43.0


From 7fb2620e4f46c90d82e54cc764726737097c7eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 41/90] fix: refuse an unknown digest in ta_sa_svp_buffer_check

---
 reference/src/taimpl/src/ta_sa_svp_buffer_check.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reference/src/taimpl/src/ta_sa_svp_buffer_check.c b/reference/src/taimpl/src/ta_sa_svp_buffer_check.c
index 94c8de8..aef6911 100644
--- a/reference/src/taimpl/src/ta_sa_svp_buffer_check.c
+++ b/reference/src/taimpl/src/ta_sa_svp_buffer_check.c
@@ -44,6 +44,10 @@ sa_status ta_sa_svp_buffer_check(
     }
 
     size_t required_length = digest_length(digest_algorithm);
+    if (required_length == (size_t) -1) {
+        ERROR("Invalid digest_algorithm");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
 
     if (hash_length != required_length) {
         ERROR("Invalid hash_length");
-- 
2.43.0


From d6da48297411a835804724067f69e05f0ae03eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 42/90] fix: keep JSON parsing within memory when an allocation
 fails

---
 reference/src/taimpl/src/internal/json.c | 80 ++++++++++++++++++------
 1 file changed, 61 insertions(+), 19 deletions(-)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index 1f19db9..79fd904 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -425,7 +425,7 @@ static json_stack_t* json_parse_context_push(
     return context->stack;
 }
 
-static void json_parse_context_set_value(
+static bool json_parse_context_set_value(
         json_parse_context_t* context,
         json_value_t* value) {
     do {
@@ -436,7 +436,7 @@ static void json_parse_context_set_value(
 
         if (context->stack == NULL) {
             json_parse_context_set_root(context, value);
-            return;
+            return true;
         }
 
         // stack exists, but no value set. should never get here
@@ -454,7 +454,7 @@ static void json_parse_context_set_value(
             }
 
             json_map_set_value(obj, value);
-            return;
+            return true;
         }
 
         // array
@@ -465,8 +465,12 @@ static void json_parse_context_set_value(
                 break;
             }
 
-            json_array_add(arr, value);
-            return;
+            if (json_array_add(arr, value) == NULL) {
+                ERROR("json_array_add failed");
+                break;
+            }
+
+            return true;
         }
 
         ERROR("Invalid context stack state detected");
@@ -474,26 +478,25 @@ static void json_parse_context_set_value(
 
     // since an error was detected, free the val
     json_value_free(value);
+    return false;
 }
 
-static json_stack_t* json_parse_context_pop(json_parse_context_t* context) {
+static bool json_parse_context_pop(json_parse_context_t* context) {
     if (context == NULL) {
         ERROR("NULL context");
-        return NULL;
+        return false;
     }
 
     if (context->stack == NULL) {
         ERROR("NULL stack");
-        return NULL;
+        return false;
     }
 
     json_value_t* value = NULL;
     context->stack = json_stack_pop(context->stack, &value);
     context->depth--;
 
-    json_parse_context_set_value(context, value);
-
-    return context->stack;
+    return json_parse_context_set_value(context, value);
 }
 
 static char* string_new(
@@ -696,7 +699,10 @@ static int bool_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
+    if (!json_parse_context_set_value(session, value)) {
+        ERROR("json_parse_context_set_value failed");
+        return 0;
+    }
 
     return 1;
 }
@@ -712,7 +718,10 @@ static int double_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
+    if (!json_parse_context_set_value(session, value)) {
+        ERROR("json_parse_context_set_value failed");
+        return 0;
+    }
 
     return 1;
 }
@@ -734,7 +743,10 @@ static int integer_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
+    if (!json_parse_context_set_value(session, value)) {
+        ERROR("json_parse_context_set_value failed");
+        return 0;
+    }
 
     return 1;
 }
@@ -742,7 +754,10 @@ static int integer_callback(
 static int null_callback(void* context) {
     json_parse_context_t* session = (json_parse_context_t*) context;
 
-    json_parse_context_set_value(session, NULL);
+    if (!json_parse_context_set_value(session, NULL)) {
+        ERROR("json_parse_context_set_value failed");
+        return 0;
+    }
 
     return 1;
 }
@@ -767,7 +782,10 @@ static int string_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
+    if (!json_parse_context_set_value(session, value)) {
+        ERROR("json_parse_context_set_value failed");
+        return 0;
+    }
 
     return 1;
 }
@@ -817,7 +835,13 @@ static int map_key_callback(
         return 0;
     }
 
-    json_map_set_key(new_key_value, string_new(key, key_length), key_length);
+    char* new_key = string_new(key, key_length);
+    if (new_key == NULL) {
+        ERROR("string_new failed");
+        return 0;
+    }
+
+    json_map_set_key(new_key_value, new_key, key_length);
 
     return 1;
 }
@@ -843,7 +867,11 @@ static int start_map_callback(void* context) {
 
 static int end_map_callback(void* context) {
     json_parse_context_t* session = (json_parse_context_t*) context;
-    json_parse_context_pop(session);
+    if (!json_parse_context_pop(session)) {
+        ERROR("json_parse_context_pop failed");
+        return 0;
+    }
+
     return 1;
 }
 
@@ -868,7 +896,11 @@ static int start_array_callback(void* context) {
 
 static int end_array_callback(void* context) {
     json_parse_context_t* session = (json_parse_context_t*) context;
-    json_parse_context_pop(session);
+    if (!json_parse_context_pop(session)) {
+        ERROR("json_parse_context_pop failed");
+        return 0;
+    }
+
     return 1;
 }
 
@@ -1003,6 +1035,11 @@ json_value_t** json_value_as_array(
     size_t size = json_array_size(array_payload);
 
     json_value_t** values_array = memory_internal_alloc(sizeof(json_value_t*) * size);
+    if (values_array == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return NULL;
+    }
+
     for (size_t i = 0; i < size; ++i) {
         array_payload = array_payload->next;
         values_array[i] = array_payload->value;
@@ -1038,6 +1075,11 @@ json_key_value_t* json_value_as_map(
     size_t size = json_map_size(map_payload);
 
     json_key_value_t* map_key_values = memory_internal_alloc(sizeof(json_key_value_t) * size);
+    if (map_key_values == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return NULL;
+    }
+
     for (size_t i = 0; i < size; ++i) {
         map_payload = map_payload->next;
         map_key_values[i].key = map_payload->key;
-- 
2.43.0


From 7f807582baebcb520b3c0363e7a61f00a746d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 43/90] fix: free a wrapped key without a ciphertext

---
 reference/src/taimpl/src/internal/key_store.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/key_store.c b/reference/src/taimpl/src/internal/key_store.c
index 42ac792..7193a16 100644
--- a/reference/src/taimpl/src/internal/key_store.c
+++ b/reference/src/taimpl/src/internal/key_store.c
@@ -253,8 +253,10 @@ static void wrapped_key_free(void* obj) {
 
     wrapped_key_t* wrapped_key = (wrapped_key_t*) obj;
 
-    memory_memset_unoptimizable(wrapped_key->ciphertext, 0, wrapped_key->cipher_parameters.ciphertext_length);
-    memory_secure_free(wrapped_key->ciphertext);
+    if (wrapped_key->ciphertext != NULL) {
+        memory_memset_unoptimizable(wrapped_key->ciphertext, 0, wrapped_key->cipher_parameters.ciphertext_length);
+        memory_secure_free(wrapped_key->ciphertext);
+    }
 
     memory_memset_unoptimizable(wrapped_key, 0, sizeof(wrapped_key_t));
     memory_secure_free(wrapped_key);
-- 
2.43.0


From 25435a8735059c819951027d0bc8aeeb7a537297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 44/90] fix: check the unpacked container for NULL

---
 reference/src/taimpl/src/internal/soc_key_container.c | 4 ++++
 reference/src/taimpl/src/internal/typej.c             | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index bd4872d..a2c6bed 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -167,6 +167,10 @@ static soc_kc_unpacked_t* unpack_soc_kc(
     soc_kc_unpacked_t* unpacked = NULL;
     do {
         unpacked = soc_kc_unpacked_create();
+        if (unpacked == NULL) {
+            ERROR("soc_kc_unpacked_create failed");
+            break;
+        }
 
         unpacked->in = in;
         unpacked->in_length = in_length;
diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index 3c1a0f7..2c7a881 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -135,6 +135,10 @@ static typej_unpacked_t* unpack_typej(
     typej_unpacked_t* unpacked = NULL;
     do {
         unpacked = typej_unpacked_create();
+        if (unpacked == NULL) {
+            ERROR("typej_unpacked_create failed");
+            break;
+        }
 
         unpacked->in = in;
         unpacked->in_length = in_length;
-- 
2.43.0


From 8f6339f12247680b269a221939a242925c53c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 45/90] fix: release the command when sa_get_device_id fails

---
 reference/src/clientimpl/src/sa_get_device_id.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/clientimpl/src/sa_get_device_id.c b/reference/src/clientimpl/src/sa_get_device_id.c
index 2c97a79..4b0d8df 100644
--- a/reference/src/clientimpl/src/sa_get_device_id.c
+++ b/reference/src/clientimpl/src/sa_get_device_id.c
@@ -52,7 +52,7 @@ sa_status sa_get_device_id(uint64_t* id) {
         status = ta_invoke_command(session, SA_GET_DEVICE_ID, param_types, params);
         if (status != SA_STATUS_OK) {
             ERROR("ta_invoke_command failed: %d", status);
-            return status;
+            break;
         }
 
         *id = get_device_id->id;
-- 
2.43.0


From cbf197c5edb302dcf66f9a6097797ab2636299fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 46/90] fix: check the provisioning command for NULL

---
 reference/src/clientimpl/src/sa_key_provision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/clientimpl/src/sa_key_provision.c b/reference/src/clientimpl/src/sa_key_provision.c
index 74f808e..ba3d10d 100644
--- a/reference/src/clientimpl/src/sa_key_provision.c
+++ b/reference/src/clientimpl/src/sa_key_provision.c
@@ -99,7 +99,7 @@ sa_status sa_key_provision_ta (
     } while (false);
 
     // ATTENTION: If you dont release the key, you will get resource leaked.
-    if (INVALID_HANDLE != key_provision_ta->key) {
+    if (NULL != key_provision_ta && INVALID_HANDLE != key_provision_ta->key) {
         sa_key_release(key_provision_ta->key);
     }
     RELEASE_COMMAND(key_provision_ta);
-- 
2.43.0


From e6c8a498cf4eaf67f398f57150b58c8827db9c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 47/90] fix: give the RSA-OAEP key up only once

---
 .../src/taimpl/src/ta_sa_crypto_cipher_init.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
index 87aed5f..056ab13 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
@@ -715,10 +715,11 @@ static sa_status ta_sa_crypto_cipher_init_rsa_pkcs1v15(
     return status;
 }
 
+// The stored key is set to NULL when it has been given to the cipher store, even if the initialization then fails.
 static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
         sa_crypto_cipher_context* context,
         sa_cipher_mode cipher_mode,
-        stored_key_t* stored_key,
+        stored_key_t** stored_key_owner,
         sa_cipher_parameters_rsa_oaep* parameters,
         client_t* client,
         const sa_uuid* caller_uuid) {
@@ -729,6 +730,12 @@ static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
     }
     *context = INVALID_HANDLE;
 
+    if (stored_key_owner == NULL) {
+        ERROR("NULL stored_key_owner");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
+    stored_key_t* stored_key = *stored_key_owner;
     if (stored_key == NULL) {
         ERROR("NULL stored_key");
         return SA_STATUS_NULL_PARAMETER;
@@ -787,6 +794,9 @@ static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
             break;
         }
 
+        // stored key is now owned by cipher store
+        *stored_key_owner = NULL;
+
         status = cipher_store_acquire_exclusive(&cipher, cipher_store, *context, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("cipher_store_acquire_exclusive failed");
@@ -804,6 +814,11 @@ static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
     if (cipher != NULL)
         cipher_store_release_exclusive(cipher_store, *context, cipher, caller_uuid);
 
+    if (status != SA_STATUS_OK && *context != INVALID_HANDLE) {
+        cipher_store_remove(cipher_store, *context, caller_uuid);
+        *context = INVALID_HANDLE;
+    }
+
     return status;
 }
 
@@ -1000,7 +1015,7 @@ sa_status ta_sa_crypto_cipher_init(
                 break;
             }
         } else if (cipher_algorithm == SA_CIPHER_ALGORITHM_RSA_OAEP) {
-            status = ta_sa_crypto_cipher_init_rsa_oaep(context, cipher_mode, stored_key,
+            status = ta_sa_crypto_cipher_init_rsa_oaep(context, cipher_mode, &stored_key,
                     (sa_cipher_parameters_rsa_oaep*) parameters, client,
                     caller_uuid);
             if (status != SA_STATUS_OK) {
-- 
2.43.0


From 143bf86f3123bedbeb3610a2bce3b501a29fbf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 48/90] fix: erase the ElGamal plaintext and private key before
 giving them back

---
 reference/src/taimpl/src/internal/ec.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ec.c b/reference/src/taimpl/src/internal/ec.c
index 16b2d19..06ddf6e 100644
--- a/reference/src/taimpl/src/internal/ec.c
+++ b/reference/src/taimpl/src/internal/ec.c
@@ -546,7 +546,7 @@ sa_status ec_decrypt_elgamal(
 
         int result = EC_POINT_mul(ec_group, shared_secret, NULL, c1, private_key, NULL);
 #if OPENSSL_VERSION_NUMBER >= 0x30000000
-        BN_free(private_key);
+        BN_clear_free(private_key);
 #endif
         if (result == 0) {
             ERROR("EC_POINT_mul failed");
@@ -577,6 +577,7 @@ sa_status ec_decrypt_elgamal(
 
         // The message is just the X coordinate.
         memcpy(out, buffer, header->size);
+        memory_memset_unoptimizable(buffer, 0, point_length);
         *out_length = header->size;
         status = SA_STATUS_OK;
     } while (false);
@@ -588,8 +589,8 @@ sa_status ec_decrypt_elgamal(
     EC_GROUP_free(ec_group);
     EC_POINT_free(c1);
     EC_POINT_free(c2);
-    EC_POINT_free(shared_secret);
-    EC_POINT_free(message_point);
+    EC_POINT_clear_free(shared_secret);
+    EC_POINT_clear_free(message_point);
     BN_free(message_point_x);
 
     return status;
-- 
2.43.0


From 40e02471c6a15fd9e71efa24861d61e77d5481fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:12 +0000
Subject: [PATCH 49/90] fix: install the OpenSSL allocator once when sessions
 open together

---
 reference/src/taimpl/src/ta_sa_init.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_init.c b/reference/src/taimpl/src/ta_sa_init.c
index 1897023..3bb079d 100644
--- a/reference/src/taimpl/src/ta_sa_init.c
+++ b/reference/src/taimpl/src/ta_sa_init.c
@@ -20,16 +20,15 @@
 #include "log.h"
 #include "porting/init.h"
 #include "ta_sa.h"
+#include <threads.h>
+
+static once_flag openssl_allocator_flag = ONCE_FLAG_INIT;
 
 sa_status ta_sa_init(
         ta_client* client_slot,
         const sa_uuid* caller_uuid) {
 
-    static bool openssl_allocator_inited = false;
-    if (!openssl_allocator_inited) {
-        openssl_allocator_inited = true;
-        init_openssl_allocator();
-    }
+    call_once(&openssl_allocator_flag, init_openssl_allocator);
 
     if (client_slot == NULL) {
         ERROR("NULL client_slot");
-- 
2.43.0


From 710ae7f6f31a786fd91e8526d6128e60bef074e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 50/90] fix: publish the client store safely to other threads

---
 reference/src/taimpl/src/internal/client_store.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/client_store.c b/reference/src/taimpl/src/internal/client_store.c
index 39a749e..59759c5 100644
--- a/reference/src/taimpl/src/internal/client_store.c
+++ b/reference/src/taimpl/src/internal/client_store.c
@@ -19,6 +19,7 @@
 #include "client_store.h"
 #include "log.h"
 #include "porting/memory.h"
+#include <stdatomic.h>
 #include <stdlib.h>
 #include <threads.h>
 
@@ -30,7 +31,7 @@
 
 static once_flag flag = ONCE_FLAG_INIT;
 static mtx_t mutex;
-static bool global_shutdown = false;
+static atomic_bool global_shutdown = false;
 
 struct client_s {
     key_store_t* key_store;
@@ -180,7 +181,7 @@ static void client_store_global_create() {
 }
 
 client_store_t* client_store_global() {
-    static client_store_t* global = NULL;
+    static client_store_t* _Atomic global = NULL;
 
     if (global != NULL) {
         if (global_shutdown)
-- 
2.43.0


From e885908a77876e14d780c2cba4b4fe588de6a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:06 +0000
Subject: [PATCH 51/90] fix: publish the client session safely to other threads

---
 reference/src/clientimpl/src/internal/client.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/reference/src/clientimpl/src/internal/client.c b/reference/src/clientimpl/src/internal/client.c
index 1c6e8c7..f6222ab 100644
--- a/reference/src/clientimpl/src/internal/client.c
+++ b/reference/src/clientimpl/src/internal/client.c
@@ -19,11 +19,12 @@
 #include "client.h"
 #include "log.h"
 #include "ta_client.h"
+#include <stdatomic.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <threads.h>
 
-static void* session = NULL;
+static void* _Atomic session = NULL;
 static once_flag mutex_flag = ONCE_FLAG_INIT;
 static once_flag shutdown_flag = ONCE_FLAG_INIT;
 static mtx_t mutex;
@@ -68,12 +69,15 @@ void* client_session() {
             break;
         }
 
-        sa_status status = ta_open_session(&session);
+        void* opened_session = NULL;
+        sa_status status = ta_open_session(&opened_session);
         if (status != SA_STATUS_OK) {
             ERROR("ta_sa_init failed: %d", status);
             break;
         }
 
+        session = opened_session;
+
         // Call after the open session so that client_shutdown handler runs after the TA handler in the reference
         // implementation.
         call_once(&shutdown_flag, client_create);
-- 
2.43.0


From dedcea08b7940f85646d9cedfa66618d638812aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 52/90] fix: load the OTP keys under a lock

---
 reference/src/taimpl/src/porting/otp.c | 119 +++++++++++++++++--------
 1 file changed, 84 insertions(+), 35 deletions(-)

diff --git a/reference/src/taimpl/src/porting/otp.c b/reference/src/taimpl/src/porting/otp.c
index 98a283d..34ec38a 100644
--- a/reference/src/taimpl/src/porting/otp.c
+++ b/reference/src/taimpl/src/porting/otp.c
@@ -27,13 +27,40 @@
 #include <ctype.h>
 #include <openssl/evp.h>
 #include <openssl/x509.h>
+#include <stdatomic.h>
+#include <threads.h>
 #if OPENSSL_VERSION_NUMBER < 0x30000000
 #include <memory.h>
 #endif
 
 #define MAX_DEVICE_NAME_LENGTH 16
 
-static uint64_t device_id;
+static _Atomic uint64_t device_id;
+static once_flag key_flag = ONCE_FLAG_INIT;
+static mtx_t key_mutex;
+
+static void key_mutex_create() {
+    if (mtx_init(&key_mutex, mtx_plain) != thrd_success) {
+        ERROR("mtx_init failed");
+    }
+}
+
+// Held while the keys are being loaded from the keystore.
+static bool key_lock() {
+    call_once(&key_flag, key_mutex_create);
+    if (mtx_lock(&key_mutex) != thrd_success) {
+        ERROR("mtx_lock failed");
+        return false;
+    }
+
+    return true;
+}
+
+static void key_unlock() {
+    if (mtx_unlock(&key_mutex) != thrd_success) {
+        ERROR("mtx_unlock failed");
+    }
+}
 
 static uint64_t convert_str_to_int(
         const char* str,
@@ -80,30 +107,41 @@ static bool get_root_key(
         return false;
     }
 
-    if (key_length == 0) {
-        char device_name[MAX_DEVICE_NAME_LENGTH];
-        size_t device_name_length = MAX_DEVICE_NAME_LENGTH;
-        device_name[0] = '\0';
-        if (load_pkcs12_secret_key(key, &key_length, device_name, &device_name_length) != 1) {
-            ERROR("load_pkcs12_secret_key failed");
-            return false;
+    if (!key_lock()) {
+        ERROR("key_lock failed");
+        return false;
+    }
+
+    bool status = false;
+    do {
+        if (key_length == 0) {
+            char device_name[MAX_DEVICE_NAME_LENGTH];
+            size_t device_name_length = MAX_DEVICE_NAME_LENGTH;
+            device_name[0] = '\0';
+            if (load_pkcs12_secret_key(key, &key_length, device_name, &device_name_length) != 1) {
+                ERROR("load_pkcs12_secret_key failed");
+                break;
+            }
+
+            device_id = convert_str_to_int(device_name, device_name_length);
+            if (device_id == 0) {
+                ERROR("Invalid device ID in keystore");
+                break;
+            }
         }
 
-        device_id = convert_str_to_int(device_name, device_name_length);
-        if (device_id == 0) {
-            ERROR("Invalid device ID in keystore");
-            return false;
+        if (*root_key_length < key_length) {
+            ERROR("root key too short");
+            break;
         }
-    }
 
-    if (*root_key_length < key_length) {
-        ERROR("root key too short");
-        return false;
-    }
+        memcpy(root_key, key, key_length);
+        *root_key_length = key_length;
+        status = true;
+    } while (false);
 
-    memcpy(root_key, key, key_length);
-    *root_key_length = key_length;
-    return true;
+    key_unlock();
+    return status;
 }
 
 static bool get_common_root_key(
@@ -122,24 +160,35 @@ static bool get_common_root_key(
         return false;
     }
 
-    if (key_length == 0) {
-        char name[MAX_NAME_SIZE];
-        size_t name_length = MAX_NAME_SIZE;
-        strcpy(name, COMMON_ROOT_NAME);
-        if (load_pkcs12_secret_key(key, &key_length, name, &name_length) != 1) {
-            ERROR("load_pkcs12_secret_key failed");
-            return false;
-        }
-    }
-
-    if (*common_root_key_length < key_length) {
-        ERROR("root key too short");
+    if (!key_lock()) {
+        ERROR("key_lock failed");
         return false;
     }
 
-    memcpy(common_root_key, key, key_length);
-    *common_root_key_length = key_length;
-    return true;
+    bool status = false;
+    do {
+        if (key_length == 0) {
+            char name[MAX_NAME_SIZE];
+            size_t name_length = MAX_NAME_SIZE;
+            strcpy(name, COMMON_ROOT_NAME);
+            if (load_pkcs12_secret_key(key, &key_length, name, &name_length) != 1) {
+                ERROR("load_pkcs12_secret_key failed");
+                break;
+            }
+        }
+
+        if (*common_root_key_length < key_length) {
+            ERROR("root key too short");
+            break;
+        }
+
+        memcpy(common_root_key, key, key_length);
+        *common_root_key_length = key_length;
+        status = true;
+    } while (false);
+
+    key_unlock();
+    return status;
 }
 
 static sa_status wrap_aes_cbc(
-- 
2.43.0


From 6d0e9f210ea1d7bdc84992256ec0f37824c9df31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 53/90] fix: refuse an SVP buffer that another thread is
 releasing

---
 reference/src/taimpl/src/internal/svp_store.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reference/src/taimpl/src/internal/svp_store.c b/reference/src/taimpl/src/internal/svp_store.c
index f4a6761..1c066ac 100644
--- a/reference/src/taimpl/src/internal/svp_store.c
+++ b/reference/src/taimpl/src/internal/svp_store.c
@@ -292,6 +292,13 @@ sa_status svp_store_acquire_exclusive(
         return SA_STATUS_INTERNAL_ERROR;
     }
 
+    if ((*svp)->buffer == NULL) {
+        ERROR("svp is being released");
+        svp_store_release_exclusive(store, svp_buffer, *svp, caller_uuid);
+        *svp = NULL;
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     return SA_STATUS_OK;
 }
 
-- 
2.43.0


From f22effa82908216d0549f786fcc673a011e79d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 54/90] fix: lock two SVP buffers in the order of their handles

---
 .../src/taimpl/include/internal/buffer.h      | 28 ++++++++++++++
 reference/src/taimpl/src/internal/buffer.c    | 37 +++++++++++++++++++
 reference/src/taimpl/src/internal/cenc.c      | 11 ++----
 .../taimpl/src/ta_sa_crypto_cipher_process.c  | 11 ++----
 .../src/ta_sa_crypto_cipher_process_last.c    | 11 ++----
 .../src/ta_sa_process_common_encryption.c     | 14 ++-----
 .../src/taimpl/src/ta_sa_svp_buffer_copy.c    |  8 +++-
 7 files changed, 84 insertions(+), 36 deletions(-)

diff --git a/reference/src/taimpl/include/internal/buffer.h b/reference/src/taimpl/include/internal/buffer.h
index f1239fd..f74b73c 100644
--- a/reference/src/taimpl/include/internal/buffer.h
+++ b/reference/src/taimpl/include/internal/buffer.h
@@ -52,6 +52,34 @@ sa_status convert_buffer(
         const client_t* client,
         const sa_uuid* caller_uuid);
 
+/**
+ * Converts an output and an input sa_buffer with convert_buffer. SVP buffers are acquired in the order of their handles
+ * so that two threads using the same two SVP buffers in opposite directions do not wait for each other.
+ *
+ * @param[out] out_bytes the array of output bytes.
+ * @param[out] out_svp the output svp object.
+ * @param[in] out the output buffer to convert.
+ * @param[in] out_length the number of bytes that will be written to the output buffer.
+ * @param[out] in_bytes the array of input bytes.
+ * @param[out] in_svp the input svp object.
+ * @param[in] in the input buffer to convert.
+ * @param[in] in_length the number of bytes that will be read from the input buffer.
+ * @param[in] client the client from which to retrieve the SVP store.
+ * @param[in] caller_uuid the UUID of the caller.
+ * @return the status of the validity check.
+ */
+sa_status convert_buffers(
+        uint8_t** out_bytes,
+        svp_t** out_svp,
+        const sa_buffer* out,
+        size_t out_length,
+        uint8_t** in_bytes,
+        svp_t** in_svp,
+        const sa_buffer* in,
+        size_t in_length,
+        const client_t* client,
+        const sa_uuid* caller_uuid);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/reference/src/taimpl/src/internal/buffer.c b/reference/src/taimpl/src/internal/buffer.c
index 159f755..d584667 100644
--- a/reference/src/taimpl/src/internal/buffer.c
+++ b/reference/src/taimpl/src/internal/buffer.c
@@ -119,3 +119,40 @@ sa_status convert_buffer(
 
     return SA_STATUS_OK;
 }
+
+sa_status convert_buffers(
+        uint8_t** out_bytes,
+        svp_t** out_svp,
+        const sa_buffer* out,
+        size_t out_length,
+        uint8_t** in_bytes,
+        svp_t** in_svp,
+        const sa_buffer* in,
+        size_t in_length,
+        const client_t* client,
+        const sa_uuid* caller_uuid) {
+
+    if (out == NULL || in == NULL) {
+        ERROR("NULL buffer");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
+    bool in_first = out->buffer_type == SA_BUFFER_TYPE_SVP && in->buffer_type == SA_BUFFER_TYPE_SVP &&
+                    in->context.svp.buffer < out->context.svp.buffer;
+
+    sa_status status = SA_STATUS_OK;
+    if (in_first)
+        status = convert_buffer(in_bytes, in_svp, in, in_length, client, caller_uuid);
+
+    if (status == SA_STATUS_OK)
+        status = convert_buffer(out_bytes, out_svp, out, out_length, client, caller_uuid);
+
+    if (status == SA_STATUS_OK && !in_first)
+        status = convert_buffer(in_bytes, in_svp, in, in_length, client, caller_uuid);
+
+    if (status != SA_STATUS_OK) {
+        ERROR("convert_buffer failed");
+    }
+
+    return status;
+}
diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index c48e061..c3232c2 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -185,16 +185,11 @@ sa_status cenc_process_sample(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, sample->out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, sample->in, required_length, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, sample->out, required_length, &in_bytes, &in_svp, sample->in, required_length,
+                client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
index 92f552b..ba942e8 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
@@ -470,16 +470,11 @@ sa_status ta_sa_crypto_cipher_process(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, in, *bytes_to_process, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, out, required_length, &in_bytes, &in_svp, in, *bytes_to_process,
+                client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
index dedef13..0fa0772 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
@@ -596,16 +596,11 @@ sa_status ta_sa_crypto_cipher_process_last(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, in, *bytes_to_process, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, out, required_length, &in_bytes, &in_svp, in, *bytes_to_process,
+                client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_process_common_encryption.c b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
index 449b84f..04b82f7 100644
--- a/reference/src/taimpl/src/ta_sa_process_common_encryption.c
+++ b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
@@ -126,7 +126,7 @@ static sa_status verify_sample(
             break;
         }
 
-        // Check out buffer length.
+        // Check out and in buffer lengths.
         size_t required_length = cenc_get_required_length(sample->subsample_lengths, sample->subsample_count);
         if (required_length == CENC_OVERFLOW) {
             ERROR("cenc_get_required_length integer overflow");
@@ -135,17 +135,11 @@ static sa_status verify_sample(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, sample->out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
-        // Check in buffer length.
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, sample->in, required_length, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, sample->out, required_length, &in_bytes, &in_svp, sample->in, required_length,
+                client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c b/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
index 9009171..d31fb77 100644
--- a/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
+++ b/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
@@ -52,13 +52,17 @@ sa_status ta_sa_svp_buffer_copy(
         }
 
         svp_store = client_get_svp_store(client);
-        status = svp_store_acquire_exclusive(&out_svp, svp_store, out, caller_uuid);
+
+        // Acquire the buffers in the order of their handles so that a copy in the other direction by another thread does
+        // not wait for this one while this one waits for it.
+        bool in_first = in < out;
+        status = svp_store_acquire_exclusive(in_first ? &in_svp : &out_svp, svp_store, in_first ? in : out, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("svp_store_acquire_exclusive failed");
             break;
         }
 
-        status = svp_store_acquire_exclusive(&in_svp, svp_store, in, caller_uuid);
+        status = svp_store_acquire_exclusive(in_first ? &out_svp : &in_svp, svp_store, in_first ? out : in, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("svp_store_acquire_exclusive failed");
             break;
-- 
2.43.0


From 7393c58d5f3c2319f39c56d765be73dda85dabbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:10 +0000
Subject: [PATCH 55/90] fix: refuse counts of offsets and subsamples whose size
 overflows

---
 reference/src/clientimpl/src/sa_process_common_encryption.c | 6 ++++++
 reference/src/clientimpl/src/sa_svp_buffer_copy.c           | 6 ++++++
 reference/src/clientimpl/src/sa_svp_buffer_write.c          | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/reference/src/clientimpl/src/sa_process_common_encryption.c b/reference/src/clientimpl/src/sa_process_common_encryption.c
index 5b6800c..a1ce42a 100644
--- a/reference/src/clientimpl/src/sa_process_common_encryption.c
+++ b/reference/src/clientimpl/src/sa_process_common_encryption.c
@@ -90,6 +90,12 @@ sa_status sa_process_common_encryption(
             process_common_encryption->out_buffer_type = samples[i].out->buffer_type;
             process_common_encryption->in_buffer_type = samples[i].in->buffer_type;
 
+            if (samples[i].subsample_count > SIZE_MAX / sizeof(sa_subsample_length_s)) {
+                ERROR("Integer overflow");
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
+            }
+
             size_t param1_size = samples[i].subsample_count * sizeof(sa_subsample_length_s);
             subsample_length_s = malloc(param1_size);
             if (subsample_length_s == NULL) {
diff --git a/reference/src/clientimpl/src/sa_svp_buffer_copy.c b/reference/src/clientimpl/src/sa_svp_buffer_copy.c
index fb1599e..a18de4c 100644
--- a/reference/src/clientimpl/src/sa_svp_buffer_copy.c
+++ b/reference/src/clientimpl/src/sa_svp_buffer_copy.c
@@ -50,6 +50,12 @@ sa_status sa_svp_buffer_copy(
         svp_buffer_copy->out = out;
         svp_buffer_copy->in = in;
 
+        if (offsets_length > SIZE_MAX / sizeof(sa_svp_offset_s)) {
+            ERROR("Integer overflow");
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
+        }
+
         param1_size = offsets_length * sizeof(sa_svp_offset_s);
         offset_s = malloc(param1_size);
         if (offset_s == NULL) {
diff --git a/reference/src/clientimpl/src/sa_svp_buffer_write.c b/reference/src/clientimpl/src/sa_svp_buffer_write.c
index 5c4150d..08dd256 100644
--- a/reference/src/clientimpl/src/sa_svp_buffer_write.c
+++ b/reference/src/clientimpl/src/sa_svp_buffer_write.c
@@ -58,6 +58,12 @@ sa_status sa_svp_buffer_write(
         svp_buffer_write->out = out;
         CREATE_PARAM(param1, (void*) in, in_length);
 
+        if (offsets_length > SIZE_MAX / sizeof(sa_svp_offset_s)) {
+            ERROR("Integer overflow");
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
+        }
+
         param2_size = offsets_length * sizeof(sa_svp_offset_s);
         offset_s = malloc(param2_size);
         if (offset_s == NULL) {
-- 
2.43.0


From fbe4c0c0e80ded3bafd1b9e3d9695ee1cc837d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:13 +0000
Subject: [PATCH 56/90] fix: release only the keys a cipher context of the
 provider owns

---
 reference/src/client/src/sa_provider_cipher.c | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 746bf0a..9dff51a 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -119,6 +119,14 @@ static void* cipher_newctx(
     return cipher_context;
 }
 
+static void cipher_release_key(sa_provider_cipher_context* cipher_context) {
+    if (cipher_context->delete_key && cipher_context->key != INVALID_HANDLE)
+        sa_key_release(cipher_context->key);
+
+    cipher_context->key = INVALID_HANDLE;
+    cipher_context->delete_key = false;
+}
+
 static void cipher_freectx(void* cctx) {
     if (cctx == NULL)
         return;
@@ -127,10 +135,7 @@ static void cipher_freectx(void* cctx) {
     if (cipher_context->cipher_context != INVALID_HANDLE)
         sa_crypto_cipher_release(cipher_context->cipher_context);
 
-    if (cipher_context->delete_key && cipher_context->key != INVALID_HANDLE)
-        sa_key_release(cipher_context->key);
-
-    cipher_context->key = INVALID_HANDLE;
+    cipher_release_key(cipher_context);
     cipher_context->cipher_context = INVALID_HANDLE;
     OPENSSL_free(cipher_context);
 }
@@ -168,8 +173,7 @@ static int cipher_init(
         }
 
         if (key != NULL) {
-            if (cipher_context->key != INVALID_HANDLE)
-                sa_key_release(cipher_context->key);
+            cipher_release_key(cipher_context);
 
             sa_rights rights;
             sa_rights_set_allow_all(&rights);
@@ -177,9 +181,12 @@ static int cipher_init(
             if (sa_key_import(&cipher_context->key, SA_KEY_FORMAT_SYMMETRIC_BYTES, key, keylen,
                         &parameters_symmetric) != SA_STATUS_OK) {
                 ERROR("sa_key_import failed");
+                cipher_context->key = INVALID_HANDLE;
                 break;
             }
 
+            cipher_context->delete_key = true;
+
             sa_header header;
             if (sa_key_header(&header, cipher_context->key) != SA_STATUS_OK) {
                 ERROR("sa_key_header failed");
@@ -190,8 +197,6 @@ static int cipher_init(
                 ERROR("Key size mismtach for algorithm");
                 break;
             }
-
-            cipher_context->delete_key = true;
         }
 
         if (cipher_set_ctx_params(cctx, params) != 1) {
@@ -649,10 +654,12 @@ static int cipher_set_ctx_params(void* cctx,
             return 0;
         }
 
-        if (cipher_context->key != INVALID_HANDLE)
-            sa_key_release(cipher_context->key);
+        // The caller keeps the key unless OSSL_PARAM_SA_KEY_DELETE is set below.
+        if (cipher_context->key != key)
+            cipher_release_key(cipher_context);
 
         cipher_context->key = key;
+        cipher_context->delete_key = false;
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
-- 
2.43.0


From a95daa762b49febedae8cb59d8e5a937ead8ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:31 +0000
Subject: [PATCH 57/90] fix: drop the partial block of the previous message
 when a provider cipher is initialized again

---
 reference/src/client/src/sa_provider_cipher.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 9dff51a..02c45e5 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -158,6 +158,7 @@ static int cipher_init(
     sa_provider_cipher_context* cipher_context = cctx;
     do {
         cipher_context->mode = mode;
+        cipher_context->remaining_block_length = 0;
         if (cipher_context->cipher_context != INVALID_HANDLE) {
             sa_crypto_cipher_release(cipher_context->cipher_context);
             cipher_context->cipher_context = INVALID_HANDLE;
-- 
2.43.0


From 4e9b0df7fdc8e3a45ecd5809ad3cf5e5f3581bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:42 +0000
Subject: [PATCH 58/90] fix: authenticate all the AAD given to a provider
 cipher, and its tag whatever the output pointer

---
 reference/src/client/src/sa_provider_cipher.c | 71 +++++++++++++++----
 1 file changed, 58 insertions(+), 13 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 02c45e5..541138a 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -50,6 +50,8 @@ typedef struct {
     bool delete_key;
     uint8_t remaining_block[AES_BLOCK_SIZE];
     size_t remaining_block_length;
+    uint8_t* aad;
+    size_t aad_length;
 } sa_provider_cipher_context;
 
 ossl_unused static OSSL_FUNC_cipher_newctx_fn cipher_aes_ecb_128_newctx;
@@ -127,6 +129,43 @@ static void cipher_release_key(sa_provider_cipher_context* cipher_context) {
     cipher_context->delete_key = false;
 }
 
+static void cipher_clear_aad(sa_provider_cipher_context* cipher_context) {
+    OPENSSL_clear_free(cipher_context->aad, cipher_context->aad_length);
+    cipher_context->aad = NULL;
+    cipher_context->aad_length = 0;
+}
+
+static int cipher_append_aad(
+        sa_provider_cipher_context* cipher_context,
+        const unsigned char* in,
+        size_t inl) {
+
+    if (!cipher_context->aead) {
+        ERROR("AAD is only supported by AEAD ciphers");
+        return 0;
+    }
+
+    if (cipher_context->cipher_context != INVALID_HANDLE) {
+        ERROR("AAD must come before the data");
+        return 0;
+    }
+
+    if (inl == 0)
+        return 1;
+
+    uint8_t* aad = OPENSSL_clear_realloc(cipher_context->aad, cipher_context->aad_length,
+            cipher_context->aad_length + inl);
+    if (aad == NULL) {
+        ERROR("OPENSSL_clear_realloc failed");
+        return 0;
+    }
+
+    memcpy(aad + cipher_context->aad_length, in, inl);
+    cipher_context->aad = aad;
+    cipher_context->aad_length += inl;
+    return 1;
+}
+
 static void cipher_freectx(void* cctx) {
     if (cctx == NULL)
         return;
@@ -136,6 +175,7 @@ static void cipher_freectx(void* cctx) {
         sa_crypto_cipher_release(cipher_context->cipher_context);
 
     cipher_release_key(cipher_context);
+    cipher_clear_aad(cipher_context);
     cipher_context->cipher_context = INVALID_HANDLE;
     OPENSSL_free(cipher_context);
 }
@@ -159,6 +199,7 @@ static int cipher_init(
     do {
         cipher_context->mode = mode;
         cipher_context->remaining_block_length = 0;
+        cipher_clear_aad(cipher_context);
         if (cipher_context->cipher_context != INVALID_HANDLE) {
             sa_crypto_cipher_release(cipher_context->cipher_context);
             cipher_context->cipher_context = INVALID_HANDLE;
@@ -276,16 +317,13 @@ static int cipher_cipher(
             break;
         }
 
-        if (cipher_context->cipher_context == INVALID_HANDLE) {
-            void* aad = NULL;
-            size_t aad_length;
-            if (out == NULL) {
-                aad = (void*) in;
-                aad_length = inl;
-            } else {
-                aad_length = 0;
-            }
+        if (out == NULL && in != NULL) {
+            *outl = 0;
+            result = cipher_append_aad(cipher_context, in, inl);
+            break;
+        }
 
+        if (cipher_context->cipher_context == INVALID_HANDLE) {
             sa_cipher_parameters_aes_cbc parameters_aes_cbc;
             sa_cipher_parameters_aes_ctr parameters_aes_ctr;
             sa_cipher_parameters_chacha20 parameters_chacha20;
@@ -322,16 +360,16 @@ static int cipher_cipher(
                 case SA_CIPHER_ALGORITHM_AES_GCM:
                     parameters_aes_gcm.iv = cipher_context->iv;
                     parameters_aes_gcm.iv_length = cipher_context->iv_length;
-                    parameters_aes_gcm.aad = aad;
-                    parameters_aes_gcm.aad_length = aad_length;
+                    parameters_aes_gcm.aad = cipher_context->aad;
+                    parameters_aes_gcm.aad_length = cipher_context->aad_length;
                     parameters = &parameters_aes_gcm;
                     break;
 
                 case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305:
                     parameters_chacha20_poly1305.nonce = cipher_context->iv;
                     parameters_chacha20_poly1305.nonce_length = cipher_context->iv_length;
-                    parameters_chacha20_poly1305.aad = aad;
-                    parameters_chacha20_poly1305.aad_length = aad_length;
+                    parameters_chacha20_poly1305.aad = cipher_context->aad;
+                    parameters_chacha20_poly1305.aad_length = cipher_context->aad_length;
                     parameters = &parameters_chacha20_poly1305;
                     break;
 
@@ -348,6 +386,13 @@ static int cipher_cipher(
         }
 
         size_t total_processed = 0;
+        uint8_t no_output[AES_BLOCK_SIZE];
+        if (out == NULL && cipher_context->aead) {
+            // The last call of an AEAD cipher produces no output.
+            out = no_output;
+            outsize = sizeof(no_output);
+        }
+
         if (out != NULL) {
             sa_status status = SA_STATUS_OK;
             size_t bytes_to_process = 0;
-- 
2.43.0


From aad8d3d9edf7618689b1454fd021803137b09d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:42 +0000
Subject: [PATCH 59/90] fix: support the tag length given to a provider AEAD
 cipher

---
 reference/src/client/src/sa_provider_cipher.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 541138a..eb66f83 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -47,6 +47,7 @@ typedef struct {
     bool padded;
     bool aead;
     uint8_t tag[AES_BLOCK_SIZE];
+    size_t tag_length;
     bool delete_key;
     uint8_t remaining_block[AES_BLOCK_SIZE];
     size_t remaining_block_length;
@@ -456,7 +457,9 @@ static int cipher_cipher(
                 sa_cipher_end_parameters_aes_gcm end_parameters;
                 if (cipher_context->aead) {
                     end_parameters.tag = cipher_context->tag;
-                    end_parameters.tag_length = MAX_GCM_TAG_LENGTH;
+                    end_parameters.tag_length = cipher_context->mode == SA_CIPHER_MODE_DECRYPT
+                                                        ? cipher_context->tag_length
+                                                        : MAX_GCM_TAG_LENGTH;
                     parameters = &end_parameters;
                 }
 
@@ -604,7 +607,8 @@ static int cipher_get_ctx_params(
     }
 
     param = OSSL_PARAM_locate(params, OSSL_CIPHER_PARAM_AEAD_TAG);
-    if (param != NULL && !OSSL_PARAM_set_octet_string(param, cipher_context->tag, AES_BLOCK_SIZE)) {
+    if (param != NULL && !OSSL_PARAM_set_octet_string(param, cipher_context->tag,
+                                 param->data_size < AES_BLOCK_SIZE ? param->data_size : AES_BLOCK_SIZE)) {
         ERROR("OSSL_PARAM_set_octet_string failed");
         return 0;
     }
@@ -679,6 +683,8 @@ static int cipher_set_ctx_params(void* cctx,
             ERROR("OSSL_PARAM_get_octet_string failed");
             return 0;
         }
+
+        cipher_context->tag_length = length;
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY);
-- 
2.43.0


From df3f4b508d22cd369be64d2890d4a557f4285801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:03 +0000
Subject: [PATCH 60/90] fix: keep the partial block of a provider cipher when
 another update does not complete it

---
 reference/src/client/src/sa_provider_cipher.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index eb66f83..ca32b36 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -440,9 +440,9 @@ static int cipher_cipher(
 
                 // Store any leftover data in remaining_block for processing on the next call to update.
                 if (position < inl) {
-                    cipher_context->remaining_block_length = inl - position;
-                    memcpy(cipher_context->remaining_block, in + position,
-                            cipher_context->remaining_block_length);
+                    memcpy(cipher_context->remaining_block + cipher_context->remaining_block_length, in + position,
+                            inl - position);
+                    cipher_context->remaining_block_length += inl - position;
                 }
             } else if (cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CBC &&
                        cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_ECB) {
-- 
2.43.0


From a0064880c5b973e272b45431b71b603ca5c6d174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 61/90] fix: release only the keys a MAC context of the
 provider owns

---
 reference/src/client/src/sa_provider_mac.c | 34 +++++++++++++---------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/reference/src/client/src/sa_provider_mac.c b/reference/src/client/src/sa_provider_mac.c
index ff7570d..5a82d0b 100644
--- a/reference/src/client/src/sa_provider_mac.c
+++ b/reference/src/client/src/sa_provider_mac.c
@@ -78,6 +78,14 @@ static void* mac_newctx(
     return mac_context;
 }
 
+static void mac_release_key(sa_provider_mac_context* mac_context) {
+    if (mac_context->delete_key && mac_context->key != INVALID_HANDLE)
+        sa_key_release(mac_context->key);
+
+    mac_context->key = INVALID_HANDLE;
+    mac_context->delete_key = false;
+}
+
 static void mac_freectx(void* mctx) {
     if (mctx == NULL)
         return;
@@ -86,10 +94,7 @@ static void mac_freectx(void* mctx) {
     if (mac_context->mac_context != INVALID_HANDLE)
         sa_crypto_mac_release(mac_context->mac_context);
 
-    if (mac_context->delete_key && mac_context->key != INVALID_HANDLE)
-        sa_key_release(mac_context->key);
-
-    mac_context->key = INVALID_HANDLE;
+    mac_release_key(mac_context);
     mac_context->mac_context = INVALID_HANDLE;
     EVP_MD_free(mac_context->evp_md);
     OPENSSL_free(mac_context);
@@ -115,8 +120,7 @@ static int mac_init(
         }
 
         if (key != NULL) {
-            if (mac_context->key != INVALID_HANDLE)
-                sa_key_release(mac_context->key);
+            mac_release_key(mac_context);
 
             sa_rights rights;
             sa_rights_set_allow_all(&rights);
@@ -124,16 +128,17 @@ static int mac_init(
             if (sa_key_import(&mac_context->key, SA_KEY_FORMAT_SYMMETRIC_BYTES, key, keylen,
                         &parameters_symmetric) != SA_STATUS_OK) {
                 ERROR("sa_key_import failed");
+                mac_context->key = INVALID_HANDLE;
                 break;
             }
 
+            mac_context->delete_key = true;
+
             sa_header header;
             if (sa_key_header(&header, mac_context->key) != SA_STATUS_OK) {
                 ERROR("sa_key_header failed");
                 break;
             }
-
-            mac_context->delete_key = true;
         }
 
         if (mac_set_ctx_params(mctx, params) != 1) {
@@ -309,15 +314,18 @@ static int mac_set_ctx_params(
             return 0;
         }
 
-        if (mac_context->key != INVALID_HANDLE)
-            sa_key_release(mac_context->key);
-
-        mac_context->key = key;
         sa_header header;
-        if (sa_key_header(&header, mac_context->key) != SA_STATUS_OK) {
+        if (sa_key_header(&header, key) != SA_STATUS_OK) {
             ERROR("sa_key_header failed");
             return 0;
         }
+
+        // The caller keeps the key unless OSSL_PARAM_SA_KEY_DELETE is set below.
+        if (mac_context->key != key)
+            mac_release_key(mac_context);
+
+        mac_context->key = key;
+        mac_context->delete_key = false;
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
-- 
2.43.0


From aa1bdd83127eec9353c984d0cb6b901b153f28e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 62/90] fix: free the digest a provider MAC context replaces

---
 reference/src/client/src/sa_provider_mac.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reference/src/client/src/sa_provider_mac.c b/reference/src/client/src/sa_provider_mac.c
index 5a82d0b..f955705 100644
--- a/reference/src/client/src/sa_provider_mac.c
+++ b/reference/src/client/src/sa_provider_mac.c
@@ -299,6 +299,7 @@ static int mac_set_ctx_params(
             properties[0] = 0;
         }
 
+        EVP_MD_free(mac_context->evp_md);
         mac_context->evp_md = EVP_MD_fetch(mac_context->provider_context->lib_ctx, name, properties);
         if (mac_context->evp_md == NULL) {
             ERROR("EVP_MD_fetch failed");
-- 
2.43.0


From 581688fe424025983cefdbe3c8ba93c135312d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 63/90] fix: refuse an HMAC without a digest in the provider

---
 reference/src/client/src/sa_provider_mac.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_mac.c b/reference/src/client/src/sa_provider_mac.c
index f955705..bccf719 100644
--- a/reference/src/client/src/sa_provider_mac.c
+++ b/reference/src/client/src/sa_provider_mac.c
@@ -155,6 +155,11 @@ static int mac_init(
         void* parameters = NULL;
         if (mac_context->mac_algorithm == SA_MAC_ALGORITHM_HMAC) {
 
+            if (mac_context->evp_md == NULL) {
+                ERROR("NULL evp_md");
+                break;
+            }
+
             parameters_hmac.digest_algorithm = digest_algorithm_from_name(EVP_MD_get0_name(mac_context->evp_md));
             parameters = &parameters_hmac;
         }
@@ -235,7 +240,7 @@ static int mac_get_ctx_params(
     OSSL_PARAM* param = OSSL_PARAM_locate(params, OSSL_MAC_PARAM_SIZE);
     if (param != NULL) {
         if (mac_context->mac_algorithm == SA_MAC_ALGORITHM_HMAC) {
-            size_t size = EVP_MD_get_size(mac_context->evp_md);
+            size_t size = mac_context->evp_md == NULL ? 0 : EVP_MD_get_size(mac_context->evp_md);
             if (OSSL_PARAM_set_size_t(param, size) != 1) {
                 ERROR("OSSL_PARAM_set_size_t failed");
                 return 0;
@@ -251,7 +256,7 @@ static int mac_get_ctx_params(
     param = OSSL_PARAM_locate(params, OSSL_MAC_PARAM_BLOCK_SIZE);
     if (param != NULL) {
         if (mac_context->mac_algorithm == SA_MAC_ALGORITHM_HMAC) {
-            size_t size = EVP_MD_block_size(mac_context->evp_md);
+            size_t size = mac_context->evp_md == NULL ? 0 : EVP_MD_block_size(mac_context->evp_md);
             if (OSSL_PARAM_set_size_t(param, size) != 1) {
                 ERROR("OSSL_PARAM_set_size_t failed");
                 return 0;
-- 
2.43.0


From ca7403eb32dc4e5a6111d1c791323492a609306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 64/90] fix: list the gettable and settable parameters of a
 provider digest as such

---
 reference/src/client/src/sa_provider_digest.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_digest.c b/reference/src/client/src/sa_provider_digest.c
index 044ac8c..30266b0 100644
--- a/reference/src/client/src/sa_provider_digest.c
+++ b/reference/src/client/src/sa_provider_digest.c
@@ -303,7 +303,7 @@ static const OSSL_PARAM* digest_gettable_ctx_params(
     }
 
     sa_provider_digest_context* digest_context = dctx;
-    return EVP_MD_CTX_settable_params(digest_context->evp_md_ctx);
+    return EVP_MD_CTX_gettable_params(digest_context->evp_md_ctx);
 }
 
 static const OSSL_PARAM* digest_settable_ctx_params(
@@ -316,7 +316,7 @@ static const OSSL_PARAM* digest_settable_ctx_params(
     }
 
     sa_provider_digest_context* digest_context = dctx;
-    return EVP_MD_CTX_gettable_params(digest_context->evp_md_ctx);
+    return EVP_MD_CTX_settable_params(digest_context->evp_md_ctx);
 }
 
 #define SA_PROVIDER_DIGEST_FUNCTIONS(algorithm, name, length) \
-- 
2.43.0


From f69f69bbfd237fddb40f60ee87dabd4bcc32a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 65/90] fix: release only the keys a KDF context of the
 provider owns

---
 reference/src/client/src/sa_provider_kdf.c | 31 +++++++++++++---------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index aaa2c93..d1e6858 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -89,15 +89,20 @@ void* kdf_newctx(
     return kdf_context;
 }
 
+static void kdf_release_key(sa_provider_kdf_context* kdf_context) {
+    if (kdf_context->delete_key && kdf_context->key != INVALID_HANDLE)
+        sa_key_release(kdf_context->key);
+
+    kdf_context->key = INVALID_HANDLE;
+    kdf_context->delete_key = false;
+}
+
 void kdf_freectx(void* kctx) {
     if (kctx == NULL)
         return;
 
     sa_provider_kdf_context* kdf_context = kctx;
-    if (kdf_context->delete_key && kdf_context->key != INVALID_HANDLE)
-        sa_key_release(kdf_context->key);
-
-    kdf_context->key = INVALID_HANDLE;
+    kdf_release_key(kdf_context);
     OPENSSL_free(kdf_context->salt);
     kdf_context->salt = NULL;
     OPENSSL_free(kdf_context->info);
@@ -192,11 +197,7 @@ void kdf_reset(void* kctx) {
     }
 
     sa_provider_kdf_context* kdf_context = kctx;
-    if (kdf_context->delete_key && kdf_context->key != INVALID_HANDLE)
-        sa_key_release(kdf_context->key);
-
-    kdf_context->key = INVALID_HANDLE;
-    kdf_context->delete_key = false;
+    kdf_release_key(kdf_context);
     OPENSSL_free(kdf_context->salt);
     kdf_context->salt = NULL;
     OPENSSL_free(kdf_context->info);
@@ -397,10 +398,12 @@ int kdf_set_ctx_params(
             return 0;
         }
 
-        if (kdf_context->key != INVALID_HANDLE)
-            sa_key_release(kdf_context->key);
+        // The caller keeps the key unless OSSL_PARAM_SA_KEY_DELETE is set below.
+        if (kdf_context->key != key)
+            kdf_release_key(kdf_context);
 
         kdf_context->key = key;
+        kdf_context->delete_key = false;
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY);
@@ -417,10 +420,12 @@ int kdf_set_ctx_params(
             return 0;
         }
 
-        if (kdf_context->key != INVALID_HANDLE)
-            sa_key_release(kdf_context->key);
+        // The caller keeps the key unless OSSL_PARAM_SA_KEY_DELETE is set below.
+        if (kdf_context->key != key)
+            kdf_release_key(kdf_context);
 
         kdf_context->key = key;
+        kdf_context->delete_key = false;
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
-- 
2.43.0


From 5c10e94b9a8edddba3ebe6e33c556d85e31d2730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 66/90] fix: duplicate the algorithm and key of a provider KDF
 context

---
 reference/src/client/src/sa_provider_kdf.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index d1e6858..0ea8f52 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -125,6 +125,8 @@ void* kdf_dupctx(void* kctx) {
     }
 
     new_kdf_context->provider_context = kdf_context->provider_context;
+    new_kdf_context->kdf_algorithm = kdf_context->kdf_algorithm;
+    new_kdf_context->key = INVALID_HANDLE;
     new_kdf_context->digest_algorithm = kdf_context->digest_algorithm;
     new_kdf_context->use_separator = kdf_context->use_separator;
     new_kdf_context->use_l = kdf_context->use_l;
@@ -152,12 +154,14 @@ void* kdf_dupctx(void* kctx) {
         memcpy(new_kdf_context->info, kdf_context->info, kdf_context->info_length);
     }
 
-    if (new_kdf_context->delete_key) {
+    if (!kdf_context->delete_key || kdf_context->key == INVALID_HANDLE) {
+        // The caller is managing the lifetime of the key.
+        new_kdf_context->key = kdf_context->key;
+    } else {
         // We are managing the lifetime of the key, so copy the key by exporting and reimporting it.
         size_t exported_key_length = 0;
-        if (sa_key_export(NULL, &exported_key_length, NULL, 0, new_kdf_context->key) != SA_STATUS_OK) {
+        if (sa_key_export(NULL, &exported_key_length, NULL, 0, kdf_context->key) != SA_STATUS_OK) {
             ERROR("sa_key_export failed");
-            OPENSSL_free(new_kdf_context);
             kdf_freectx(new_kdf_context);
             return NULL;
         }
@@ -165,7 +169,6 @@ void* kdf_dupctx(void* kctx) {
         uint8_t* exported_key = OPENSSL_malloc(exported_key_length);
         if (exported_key == NULL) {
             ERROR("OPENSSL_malloc failed");
-            OPENSSL_free(new_kdf_context);
             kdf_freectx(new_kdf_context);
             return NULL;
         }
@@ -182,9 +185,12 @@ void* kdf_dupctx(void* kctx) {
         OPENSSL_free(exported_key);
         if (status != SA_STATUS_OK) {
             ERROR("sa_key_import failed");
+            new_kdf_context->key = INVALID_HANDLE;
             kdf_freectx(new_kdf_context);
             return NULL;
         }
+
+        new_kdf_context->delete_key = true;
     }
 
     return new_kdf_context;
-- 
2.43.0


From 919f6ed4954ce9536191537b05c004257b769ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 67/90] fix: forget the salt, info and digest of a provider KDF
 context that is reset

---
 reference/src/client/src/sa_provider_kdf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index 0ea8f52..7bb89d9 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -206,8 +206,11 @@ void kdf_reset(void* kctx) {
     kdf_release_key(kdf_context);
     OPENSSL_free(kdf_context->salt);
     kdf_context->salt = NULL;
+    kdf_context->salt_length = 0;
     OPENSSL_free(kdf_context->info);
     kdf_context->info = NULL;
+    kdf_context->info_length = 0;
+    kdf_context->digest_algorithm = UINT32_MAX;
     kdf_context->use_separator = 0;
     kdf_context->use_l = 0;
 }
-- 
2.43.0


From ce723edc40c874793d48e193a1cfe92a669295c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 68/90] fix: derive with the parameters already set in a
 provider KDF context

---
 reference/src/client/src/sa_provider_kdf.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index 7bb89d9..28cdbb9 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -385,10 +385,8 @@ int kdf_set_ctx_params(
         return 0;
     }
 
-    if (params == NULL) {
-        ERROR("NULL params");
-        return 0;
-    }
+    if (params == NULL)
+        return 1;
 
     sa_provider_kdf_context* kdf_context = kctx;
     const OSSL_PARAM* param = OSSL_PARAM_locate_const(params, OSSL_KDF_PARAM_KEY);
-- 
2.43.0


From 22e3c55fd283a8e3e047faeb619afe20d237932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 69/90] fix: refuse a provider KDF key parameter shorter than a
 handle

---
 reference/src/client/src/sa_provider_kdf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index 28cdbb9..f392cd3 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -399,6 +399,11 @@ int kdf_set_ctx_params(
             return 0;
         }
 
+        if (length != sizeof(sa_key)) {
+            ERROR("Invalid key length");
+            return 0;
+        }
+
         sa_header header;
         if (sa_key_header(&header, key) != SA_STATUS_OK) {
             ERROR("sa_key_header failed");
-- 
2.43.0


From 30c5e5a29bf0c4adf6aec852ba6268b28797a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 70/90] fix: do not write a derived key handle beyond a shorter
 output of a provider KDF

---
 reference/src/client/src/sa_provider_kdf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index f392cd3..5f8104e 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -237,6 +237,11 @@ int kdf_derive(
         return 0;
     }
 
+    if (keylen < sizeof(sa_key)) {
+        ERROR("No room for the derived key handle");
+        return 0;
+    }
+
     int result = 0;
     sa_kdf_parameters_hkdf parameters_hkdf;
     sa_kdf_parameters_concat parameters_concat;
-- 
2.43.0


From 6a956dddc3c4c126d9b0263630b36f57d6bbf8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 71/90] fix: start the counter of the provider KBKDF at one for
 every key length

---
 reference/src/client/src/sa_provider_kdf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index 5f8104e..007f0ee 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -317,7 +317,7 @@ int kdf_derive(
                 }
 
                 parameters_cmac.key_length = keylen;
-                parameters_cmac.counter = (keylen / SYM_128_KEY_SIZE) + (keylen % SYM_128_KEY_SIZE == 0 ? 0 : 1);
+                parameters_cmac.counter = 1;
                 parameters_cmac.parent = kdf_context->key;
                 parameters_cmac.other_data_length = position;
                 parameters_cmac.other_data = other_data;
-- 
2.43.0


From 44675b9f7a0f8262fee14096a39eedd82d8defd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:55 +0000
Subject: [PATCH 72/90] fix: compare a provider key with the other key, not
 with itself

---
 reference/src/client/src/sa_provider_keymgt.c | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index 2ceb34d..daf761a 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -279,7 +279,7 @@ static int keymgmt_has(
 static int keymgmt_match(
         const void* keydata1,
         const void* keydata2,
-        ossl_unused int selection) {
+        int selection) {
 
     if (keydata1 == NULL) {
         ERROR("NULL keydata1");
@@ -292,8 +292,22 @@ static int keymgmt_match(
     }
 
     const sa_provider_key_data* key_data1 = keydata1;
-    const sa_provider_key_data* key_data2 = keydata1;
-    return key_data1->private_key == key_data2->private_key;
+    const sa_provider_key_data* key_data2 = keydata2;
+    if (key_data1->type != key_data2->type)
+        return 0;
+
+    if (key_data1->public_key == NULL || key_data2->public_key == NULL) {
+        if ((selection & OSSL_KEYMGMT_SELECT_KEYPAIR) != 0)
+            return key_data1->private_key != INVALID_HANDLE && key_data1->private_key == key_data2->private_key;
+
+        return memcmp(&key_data1->private_key_header.type_parameters, &key_data2->private_key_header.type_parameters,
+                       sizeof(sa_type_parameters)) == 0;
+    }
+
+    if ((selection & OSSL_KEYMGMT_SELECT_KEYPAIR) != 0)
+        return EVP_PKEY_eq(key_data1->public_key, key_data2->public_key) == 1;
+
+    return EVP_PKEY_parameters_eq(key_data1->public_key, key_data2->public_key) == 1;
 }
 
 static int keymgmt_import(
-- 
2.43.0


From 9c24e6b709da71f0f2d263b1e1aff73f3709ec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:55 +0000
Subject: [PATCH 73/90] fix: tell the public part of a provider key from its
 private part

---
 reference/src/client/src/sa_provider_keymgt.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index daf761a..033b47a 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -265,7 +265,7 @@ static void* keymgmt_dup(
 
 static int keymgmt_has(
         const void* keydata,
-        ossl_unused int selection) {
+        int selection) {
 
     if (keydata == NULL) {
         ERROR("NULL keydata");
@@ -273,7 +273,13 @@ static int keymgmt_has(
     }
 
     const sa_provider_key_data* key_data = keydata;
-    return key_data->private_key != INVALID_HANDLE;
+    if ((selection & OSSL_KEYMGMT_SELECT_PRIVATE_KEY) != 0 && key_data->private_key == INVALID_HANDLE)
+        return 0;
+
+    if ((selection & OSSL_KEYMGMT_SELECT_PUBLIC_KEY) != 0 && key_data->public_key == NULL)
+        return 0;
+
+    return 1;
 }
 
 static int keymgmt_match(
-- 
2.43.0


From 17782111f958b69480466489c8cf04ad1cbef7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:55 +0000
Subject: [PATCH 74/90] fix: refuse a key handle of another type, and release
 only the keys a provider key owns

---
 reference/src/client/src/sa_provider_keymgt.c | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index 033b47a..ca80ef9 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -335,6 +335,7 @@ static int keymgmt_import(
     BIGNUM* g = NULL;
     sa_key private_key = INVALID_HANDLE;
     int delete_key = 0;
+    bool imported = false;
     sa_header private_key_header;
     memset(&private_key_header, 0, sizeof(sa_header));
     do {
@@ -347,6 +348,11 @@ static int keymgmt_import(
                     ERROR("OSSL_PARAM_get_uint64 failed");
                     break;
                 }
+
+                if (private_key == INVALID_HANDLE) {
+                    ERROR("Invalid key handle");
+                    break;
+                }
             } else {
                 // Import the raw private or public key.
                 evp_pkey_ctx = EVP_PKEY_CTX_new_from_name(NULL, key_data->name, NULL);
@@ -416,7 +422,9 @@ static int keymgmt_import(
 
                     // Free the private key, public key will be reloaded below.
                     EVP_PKEY_free(evp_pkey);
+                    evp_pkey = NULL;
                     delete_key = 1;
+                    imported = true;
                 }
             }
         }
@@ -429,6 +437,11 @@ static int keymgmt_import(
                 break;
             }
 
+            if (EVP_PKEY_get_base_id(evp_pkey) != key_data->type) {
+                ERROR("Invalid key type");
+                break;
+            }
+
             if (sa_key_header(&private_key_header, private_key) != SA_STATUS_OK) {
                 ERROR("sa_key_header failed");
                 break;
@@ -514,7 +527,7 @@ static int keymgmt_import(
             }
         }
 
-        if (key_data->private_key != INVALID_HANDLE)
+        if (key_data->delete_key && key_data->private_key != INVALID_HANDLE)
             sa_key_release(key_data->private_key);
 
         EVP_PKEY_free(key_data->public_key);
@@ -532,11 +545,14 @@ static int keymgmt_import(
     BN_free(p);
     BN_free(g);
     if (result != 1) {
-        if (key_data->private_key != INVALID_HANDLE) {
+        if (imported)
+            sa_key_release(private_key);
+
+        if (key_data->delete_key && key_data->private_key != INVALID_HANDLE)
             sa_key_release(key_data->private_key);
-            key_data->private_key = INVALID_HANDLE;
-        }
 
+        key_data->private_key = INVALID_HANDLE;
+        key_data->delete_key = false;
         EVP_PKEY_free(key_data->public_key);
         key_data->public_key = NULL;
         memset(&key_data->private_key_header, 0, sizeof(sa_header));
-- 
2.43.0


From d08f465836f998a1f44b50d78bd8dcb07bb0fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:11 +0000
Subject: [PATCH 75/90] fix: keep the DH parameters given to the provider
 within their room

---
 reference/src/client/src/sa_provider_keymgt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index ca80ef9..c59339a 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -467,7 +467,11 @@ static int keymgmt_import(
 
                     if (OSSL_PARAM_get_BN(g_param, &g) != 1) {
                         ERROR("OSSL_PARAM_get_BN failed");
-                        BN_free(p);
+                        break;
+                    }
+
+                    if (BN_num_bytes(p) > DH_MAX_MOD_SIZE || BN_num_bytes(g) > DH_MAX_MOD_SIZE) {
+                        ERROR("DH parameters too long");
                         break;
                     }
 
-- 
2.43.0


From 9bcd9f84f032ef1baa6a053487cf6ffe460907a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:55 +0000
Subject: [PATCH 76/90] fix: refuse to generate a provider key of a group of
 another type

---
 reference/src/client/src/sa_provider_keymgt.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index c59339a..1e6d2bf 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -870,7 +870,12 @@ static void* keymgmt_gen_init(
             return NULL;
     }
 
-    keymgmt_gen_set_params(key_gen_context, params);
+    if (keymgmt_gen_set_params(key_gen_context, params) != 1) {
+        ERROR("keymgmt_gen_set_params failed");
+        OPENSSL_free(key_gen_context);
+        return NULL;
+    }
+
     return key_gen_context;
 }
 
@@ -1028,11 +1033,19 @@ static int keymgmt_gen_set_params(
             return 0;
         }
 
-        key_gen_context->type_parameters.curve = ec_get_curve_from_name(name);
-        if (key_gen_context->type_parameters.curve == UINT32_MAX) {
+        sa_elliptic_curve curve = ec_get_curve_from_name(name);
+        bool fits = false;
+        if (key_gen_context->type == EVP_PKEY_EC)
+            fits = is_pcurve(curve);
+        else if (key_gen_context->type != EVP_PKEY_DH && curve != UINT32_MAX)
+            fits = key_gen_context->type_parameters.curve == curve;
+
+        if (!fits) {
             ERROR("Unknown curve name");
             return 0;
         }
+
+        key_gen_context->type_parameters.curve = curve;
     }
 
     return 1;
-- 
2.43.0


From 9b47562f5b8335ea30bb6da24e7dd5c9f3487060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:36 +0000
Subject: [PATCH 77/90] fix: import raw EC keys into the provider whatever name
 their curve goes by

---
 reference/src/client/src/sa_provider_keymgt.c | 73 ++++++++-----------
 1 file changed, 29 insertions(+), 44 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index 1e6d2bf..975b11d 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -129,50 +129,6 @@ ossl_unused static OSSL_FUNC_keymgmt_gen_settable_params_fn keymgmt_ed448_gen_se
 ossl_unused static OSSL_FUNC_keymgmt_gen_fn keymgmt_gen;
 ossl_unused static OSSL_FUNC_keymgmt_gen_cleanup_fn keymgmt_gen_cleanup;
 
-static sa_elliptic_curve ec_get_curve_from_type(EVP_PKEY* evp_pkey) {
-    int type = EVP_PKEY_get_id(evp_pkey);
-    char group_name[MAX_NAME_SIZE];
-    size_t group_name_length = 0;
-
-    switch (type) {
-        case EVP_PKEY_X25519:
-            return SA_ELLIPTIC_CURVE_X25519;
-
-        case EVP_PKEY_X448:
-            return SA_ELLIPTIC_CURVE_X448;
-
-        case EVP_PKEY_ED25519:
-            return SA_ELLIPTIC_CURVE_ED25519;
-
-        case EVP_PKEY_ED448:
-            return SA_ELLIPTIC_CURVE_ED448;
-
-        case EVP_PKEY_EC:
-            if (EVP_PKEY_get_group_name(evp_pkey, group_name, MAX_NAME_SIZE, &group_name_length) != 1)
-                return UINT32_MAX;
-
-            if (strcmp(group_name, "P-192") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P192;
-
-            if (strcmp(group_name, "P-224") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P224;
-
-            if (strcmp(group_name, "P-256") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P256;
-
-            if (strcmp(group_name, "P-384") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P384;
-
-            if (strcmp(group_name, "P-521") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P521;
-
-            return UINT32_MAX;
-
-        default:
-            return UINT32_MAX;
-    }
-}
-
 static sa_elliptic_curve ec_get_curve_from_name(const char* name) {
     if (strcmp("prime192v1", name) == 0 || strcmp("P-192", name) == 0)
         return SA_ELLIPTIC_CURVE_NIST_P192;
@@ -204,6 +160,35 @@ static sa_elliptic_curve ec_get_curve_from_name(const char* name) {
     return UINT32_MAX;
 }
 
+static sa_elliptic_curve ec_get_curve_from_type(EVP_PKEY* evp_pkey) {
+    int type = EVP_PKEY_get_id(evp_pkey);
+    char group_name[MAX_NAME_SIZE];
+    size_t group_name_length = 0;
+
+    switch (type) {
+        case EVP_PKEY_X25519:
+            return SA_ELLIPTIC_CURVE_X25519;
+
+        case EVP_PKEY_X448:
+            return SA_ELLIPTIC_CURVE_X448;
+
+        case EVP_PKEY_ED25519:
+            return SA_ELLIPTIC_CURVE_ED25519;
+
+        case EVP_PKEY_ED448:
+            return SA_ELLIPTIC_CURVE_ED448;
+
+        case EVP_PKEY_EC:
+            if (EVP_PKEY_get_group_name(evp_pkey, group_name, MAX_NAME_SIZE, &group_name_length) != 1)
+                return UINT32_MAX;
+
+            return ec_get_curve_from_name(group_name);
+
+        default:
+            return UINT32_MAX;
+    }
+}
+
 static void* keymgmt_new(
         int type,
         const char* name,
-- 
2.43.0


From df42d98031bc798031d527bb3b4c2933a7d25880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 78/90] fix: report that a provider signature could not be
 started

---
 reference/src/client/src/sa_provider_signature.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 9ee41b6..fd07783 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -203,6 +203,7 @@ static int signature_sign_init(
     }
 
     sa_provider_signature_context* signature_context = ctx;
+    sa_provider_key_data_free(signature_context->key_data);
     signature_context->key_data = sa_provider_key_data_dup(provkey);
     return signature_set_ctx_params(ctx, params);
 }
@@ -500,10 +501,11 @@ static int signature_digest_sign_init(
         EVP_MD_CTX_free(signature_context->evp_md_ctx);
         signature_context->evp_md = NULL;
         signature_context->evp_md_ctx = NULL;
+        sa_provider_key_data_free(signature_context->key_data);
         signature_context->key_data = NULL;
     }
 
-    return 1;
+    return result;
 }
 
 static int signature_digest_sign_update(
@@ -522,6 +524,11 @@ static int signature_digest_sign_update(
     }
 
     sa_provider_signature_context* signature_context = ctx;
+    if (signature_context->evp_md_ctx == NULL) {
+        ERROR("NULL evp_md_ctx");
+        return 0;
+    }
+
     if (EVP_DigestUpdate(signature_context->evp_md_ctx, data, datalen) != 1) {
         ERROR("EVP_DigestUpdate failed");
         return 0;
-- 
2.43.0


From 4292a48ff9ee96f70560e5a7e49b4cb383a98d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 79/90] fix: use the digest of a provider PSS signature for
 MGF1 when none other is set

---
 reference/src/client/src/sa_provider_signature.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index fd07783..1fcf942 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -258,7 +258,7 @@ static int signature_sign(
                     parameters_rsa_pss.digest_algorithm = SA_DIGEST_ALGORITHM_SHA256;
 
                 if (parameters_rsa_pss.mgf1_digest_algorithm == UINT32_MAX)
-                    parameters_rsa_pss.mgf1_digest_algorithm = SA_DIGEST_ALGORITHM_SHA256;
+                    parameters_rsa_pss.mgf1_digest_algorithm = parameters_rsa_pss.digest_algorithm;
 
                 parameters_rsa_pss.precomputed_digest = true;
                 int salt_length;
-- 
2.43.0


From 669220bd84e4d772747deb726e20a57e586887f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 80/90] fix: write no provider signature beyond the room given
 for it

---
 .../src/client/src/sa_provider_signature.c    | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 1fcf942..777c28b 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -212,7 +212,7 @@ static int signature_sign(
         void* ctx,
         unsigned char* sig,
         size_t* siglen,
-        ossl_unused size_t sigsize,
+        size_t sigsize,
         const unsigned char* tbs,
         size_t tbslen) {
 
@@ -325,17 +325,34 @@ static int signature_sign(
         // Take the SecApi 3 signature and encode it like OpenSSL would so that it looks like it came from
         // OpenSSL
         if (sig != NULL) {
-            if (!ec_encode_signature(sig, siglen, local_signature, local_signature_length)) {
+            uint8_t encoded_signature[MAX_SIGNATURE_LENGTH];
+            size_t encoded_signature_length;
+            if (!ec_encode_signature(encoded_signature, &encoded_signature_length, local_signature,
+                        local_signature_length)) {
                 ERROR("ec_encode_signature failed");
                 return 0;
             }
+
+            if (sigsize < encoded_signature_length) {
+                ERROR("sig too short");
+                return 0;
+            }
+
+            memcpy(sig, encoded_signature, encoded_signature_length);
+            *siglen = encoded_signature_length;
         } else {
             // Add the most number of bytes that can be added by ASN.1 encoding (9). It could be as few as 6.
             *siglen = local_signature_length + 9;
         }
     } else {
-        if (sig != NULL)
+        if (sig != NULL) {
+            if (sigsize < local_signature_length) {
+                ERROR("sig too short");
+                return 0;
+            }
+
             memcpy(sig, local_signature, local_signature_length);
+        }
 
         *siglen = local_signature_length;
     }
-- 
2.43.0


From 6dd0c8744604ab9a1a3020b6c140ab4bb5ce339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 81/90] fix: duplicate provider signature contexts that hold no
 digest

---
 .../src/client/src/sa_provider_signature.c    | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 777c28b..e72ae3f 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -137,7 +137,7 @@ static void* signature_dupctx(void* ctx) {
 
     int result = 0;
     sa_provider_signature_context* signature_context = ctx;
-    sa_provider_signature_context* new_signature_context;
+    sa_provider_signature_context* new_signature_context = NULL;
     do {
         new_signature_context = OPENSSL_zalloc(sizeof(sa_provider_signature_context));
         if (new_signature_context == NULL) {
@@ -146,16 +146,20 @@ static void* signature_dupctx(void* ctx) {
         }
 
         new_signature_context->provider_context = signature_context->provider_context;
-        new_signature_context->key_data = sa_provider_key_data_dup(signature_context->key_data);
-        new_signature_context->evp_md_ctx = EVP_MD_CTX_new();
-        if (new_signature_context->evp_md_ctx == NULL) {
-            ERROR("EVP_MD_CTX_new failed");
-            break;
-        }
+        if (signature_context->key_data != NULL)
+            new_signature_context->key_data = sa_provider_key_data_dup(signature_context->key_data);
 
-        if (EVP_MD_CTX_copy(new_signature_context->evp_md_ctx, signature_context->evp_md_ctx) != 1) {
-            ERROR("EVP_MD_CTX_copy failed");
-            break;
+        if (signature_context->evp_md_ctx != NULL) {
+            new_signature_context->evp_md_ctx = EVP_MD_CTX_new();
+            if (new_signature_context->evp_md_ctx == NULL) {
+                ERROR("EVP_MD_CTX_new failed");
+                break;
+            }
+
+            if (EVP_MD_CTX_copy(new_signature_context->evp_md_ctx, signature_context->evp_md_ctx) != 1) {
+                ERROR("EVP_MD_CTX_copy failed");
+                break;
+            }
         }
 
         new_signature_context->evp_md = signature_context->evp_md;
@@ -178,10 +182,12 @@ static void* signature_dupctx(void* ctx) {
     } while (false);
 
     if (result == 0 && new_signature_context != NULL) {
+        sa_provider_key_data_free(new_signature_context->key_data);
         EVP_MD_CTX_free(new_signature_context->evp_md_ctx);
         EVP_MD_free(new_signature_context->evp_md);
         EVP_MD_free(new_signature_context->mgf1_md);
         OPENSSL_free(new_signature_context);
+        new_signature_context = NULL;
     }
 
     return new_signature_context;
-- 
2.43.0


From af1882f255c29d5cddd9bbfa458191747e7cfd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 82/90] fix: name SHA-1 with RSA rightly in the algorithm
 identifier

---
 reference/src/client/src/sa_provider_signature.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index e72ae3f..2ece998 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -72,7 +72,7 @@ ossl_unused static OSSL_FUNC_signature_gettable_ctx_md_params_fn signature_getta
 ossl_unused static OSSL_FUNC_signature_set_ctx_md_params_fn signature_set_ctx_md_params;
 ossl_unused static OSSL_FUNC_signature_settable_ctx_md_params_fn signature_settable_ctx_md_params;
 
-static uint8_t rsa_sha1_oid[] = {0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b, 0x05,
+static uint8_t rsa_sha1_oid[] = {0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x05, 0x05,
         0x00};
 static uint8_t rsa_sha256_oid[] = {0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b, 0x05,
         0x00};
@@ -776,8 +776,14 @@ static int signature_get_ctx_params(
     if (param != NULL) {
         uint8_t* algorithm_id = NULL;
         size_t algorithm_id_length = 0;
+        int md_type = signature_context->evp_md != NULL ? EVP_MD_get_type(signature_context->evp_md) : NID_undef;
+        if (signature_context->key_data == NULL) {
+            ERROR("NULL key_data");
+            return 0;
+        }
+
         if (signature_context->key_data->type == EVP_PKEY_RSA) {
-            switch (EVP_MD_get_type(signature_context->evp_md)) {
+            switch (md_type) {
                 case NID_sha1:
                     algorithm_id = rsa_sha1_oid;
                     algorithm_id_length = sizeof(rsa_sha1_oid);
@@ -802,7 +808,7 @@ static int signature_get_ctx_params(
                     break;
             }
         } else if (signature_context->key_data->type == EVP_PKEY_EC) {
-            switch (EVP_MD_get_type(signature_context->evp_md)) {
+            switch (md_type) {
                 case NID_sha1:
                     algorithm_id = ecdsa_sha1_oid;
                     algorithm_id_length = sizeof(ecdsa_sha1_oid);
-- 
2.43.0


From c6fc3b5f76090dd76487ae3850a518ed394a02d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:57 +0000
Subject: [PATCH 83/90] fix: duplicate the label of a provider RSA encryption
 context, and contexts without digests

---
 .../src/client/src/sa_provider_asym_cipher.c  | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index f7af18d..443c80f 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -120,21 +120,29 @@ static void* asym_cipher_dupctx(void* ctx) {
 
     new_asym_cipher_context->provider_context = asym_cipher_context->provider_context;
     new_asym_cipher_context->cipher_algorithm = asym_cipher_context->cipher_algorithm;
-    new_asym_cipher_context->key_data = sa_provider_key_data_dup(asym_cipher_context->key_data);
     new_asym_cipher_context->padding_mode = asym_cipher_context->padding_mode;
+    if (asym_cipher_context->oaep_label != NULL && asym_cipher_context->oaep_label_length > 0) {
+        new_asym_cipher_context->oaep_label = OPENSSL_memdup(asym_cipher_context->oaep_label,
+                asym_cipher_context->oaep_label_length);
+        if (new_asym_cipher_context->oaep_label == NULL) {
+            ERROR("OPENSSL_memdup failed");
+            OPENSSL_free(new_asym_cipher_context);
+            return NULL;
+        }
+
+        new_asym_cipher_context->oaep_label_length = asym_cipher_context->oaep_label_length;
+    }
+
+    if (asym_cipher_context->key_data != NULL)
+        new_asym_cipher_context->key_data = sa_provider_key_data_dup(asym_cipher_context->key_data);
+
     new_asym_cipher_context->oaep_md = asym_cipher_context->oaep_md;
-    EVP_MD_up_ref(new_asym_cipher_context->oaep_md);
+    if (new_asym_cipher_context->oaep_md != NULL)
+        EVP_MD_up_ref(new_asym_cipher_context->oaep_md);
+
     new_asym_cipher_context->oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md;
-    EVP_MD_up_ref(new_asym_cipher_context->oaep_mgf1_md);
-    new_asym_cipher_context->oaep_label_length = asym_cipher_context->oaep_label_length;
-    new_asym_cipher_context->oaep_label = OPENSSL_malloc(new_asym_cipher_context->oaep_label_length);
-    if (new_asym_cipher_context->oaep_label == NULL) {
-        ERROR("OPENSSL_malloc failed");
-        EVP_MD_free(new_asym_cipher_context->oaep_md);
-        EVP_MD_free(new_asym_cipher_context->oaep_mgf1_md);
-        OPENSSL_free(new_asym_cipher_context);
-        return NULL;
-    }
+    if (new_asym_cipher_context->oaep_mgf1_md != NULL)
+        EVP_MD_up_ref(new_asym_cipher_context->oaep_mgf1_md);
 
     return new_asym_cipher_context;
 }
-- 
2.43.0


From 36444df5254fffe5c1db348112d326d2f6619de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:57 +0000
Subject: [PATCH 84/90] fix: use the digests set for provider RSA OAEP, and
 SHA1 when none is

---
 .../src/client/src/sa_provider_asym_cipher.c  | 31 +++++++------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index 443c80f..4886f63 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -34,7 +34,6 @@
 #include <openssl/ec.h>
 #include <openssl/rsa.h>
 
-#define DEFAULT_OAEP_DIGEST "SHA1"
 #define UNSUPPORTED_OPERATION (-2)
 
 typedef struct {
@@ -163,6 +162,7 @@ static int asym_cipher_encrypt_init(
     }
 
     sa_provider_asym_cipher_context* asym_cipher_context = ctx;
+    sa_provider_key_data_free(asym_cipher_context->key_data);
     asym_cipher_context->key_data = sa_provider_key_data_dup(provkey);
     return asym_cipher_set_ctx_params(ctx, params);
 }
@@ -216,19 +216,15 @@ static int asym_cipher_encrypt(
         }
 
         if (asym_cipher_context->padding_mode == RSA_PKCS1_OAEP_PADDING) {
-            EVP_MD* oaep_md;
-            if (asym_cipher_context->oaep_md != NULL)
-                oaep_md = asym_cipher_context->oaep_md;
-            else
-                oaep_md = EVP_MD_fetch(asym_cipher_context->provider_context->lib_ctx, DEFAULT_OAEP_DIGEST, NULL);
-
-            EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? oaep_md : asym_cipher_context->oaep_md;
-            if (EVP_PKEY_CTX_set_rsa_oaep_md(encrypt_pkey_ctx, oaep_md) != 1) {
+            // The digest is SHA1 and the MGF1 digest is the same when none is set.
+            if (asym_cipher_context->oaep_md != NULL &&
+                    EVP_PKEY_CTX_set_rsa_oaep_md(encrypt_pkey_ctx, asym_cipher_context->oaep_md) != 1) {
                 ERROR("EVP_PKEY_CTX_set_rsa_oaep_md failed");
                 break;
             }
 
-            if (EVP_PKEY_CTX_set_rsa_mgf1_md(encrypt_pkey_ctx, oaep_mgf1_md) != 1) {
+            if (asym_cipher_context->oaep_mgf1_md != NULL &&
+                    EVP_PKEY_CTX_set_rsa_mgf1_md(encrypt_pkey_ctx, asym_cipher_context->oaep_mgf1_md) != 1) {
                 ERROR("EVP_PKEY_CTX_set_rsa_mgf1_md failed");
                 break;
             }
@@ -302,15 +298,12 @@ static int asym_cipher_decrypt(void* ctx,
     void* parameters = NULL;
     if (asym_cipher_context->padding_mode == RSA_PKCS1_OAEP_PADDING) {
         cipher_algorithm = SA_CIPHER_ALGORITHM_RSA_OAEP;
-        EVP_MD* oaep_md;
-        if (asym_cipher_context->oaep_md != NULL)
-            oaep_md = asym_cipher_context->oaep_md;
-        else
-            oaep_md = EVP_MD_fetch(asym_cipher_context->provider_context->lib_ctx, DEFAULT_OAEP_DIGEST, NULL);
-
-        EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? oaep_md : asym_cipher_context->oaep_md;
-        parameters_rsa_oaep.digest_algorithm = digest_algorithm_from_md(oaep_md);
-        parameters_rsa_oaep.mgf1_digest_algorithm = digest_algorithm_from_md(oaep_mgf1_md);
+        parameters_rsa_oaep.digest_algorithm = asym_cipher_context->oaep_md != NULL ?
+                                                       digest_algorithm_from_md(asym_cipher_context->oaep_md) :
+                                                       SA_DIGEST_ALGORITHM_SHA1;
+        parameters_rsa_oaep.mgf1_digest_algorithm = asym_cipher_context->oaep_mgf1_md != NULL ?
+                                                            digest_algorithm_from_md(asym_cipher_context->oaep_mgf1_md) :
+                                                            parameters_rsa_oaep.digest_algorithm;
         parameters_rsa_oaep.label = asym_cipher_context->oaep_label;
         parameters_rsa_oaep.label_length = asym_cipher_context->oaep_label_length;
         parameters = &parameters_rsa_oaep;
-- 
2.43.0


From cf650944172bdc387ac8ca730c9ad71b325e473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:57 +0000
Subject: [PATCH 85/90] fix: give the padding mode of a provider RSA encryption
 context as a number

---
 reference/src/client/src/sa_provider_asym_cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index 4886f63..e6870b9 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -362,7 +362,7 @@ static int asym_cipher_get_ctx_params(
     if (param != NULL) {
         switch (param->data_type) {
             case OSSL_PARAM_INTEGER:
-                if (OSSL_PARAM_set_int(param, asym_cipher_context->padding_mode)) {
+                if (OSSL_PARAM_set_int(param, asym_cipher_context->padding_mode) != 1) {
                     ERROR("OSSL_PARAM_set_int failed");
                     return 0;
                 }
-- 
2.43.0


From 3c311a9ab4bd32a89c9a96111f2e8c65a976f849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:57 +0000
Subject: [PATCH 86/90] fix: refuse provider RSA decryption with a padding
 SecAPI has not

---
 reference/src/client/src/sa_provider_asym_cipher.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index e6870b9..fe94e40 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -307,8 +307,11 @@ static int asym_cipher_decrypt(void* ctx,
         parameters_rsa_oaep.label = asym_cipher_context->oaep_label;
         parameters_rsa_oaep.label_length = asym_cipher_context->oaep_label_length;
         parameters = &parameters_rsa_oaep;
-    } else {
+    } else if (asym_cipher_context->padding_mode == RSA_PKCS1_PADDING) {
         cipher_algorithm = SA_CIPHER_ALGORITHM_RSA_PKCS1V15;
+    } else {
+        ERROR("Unsupported padding mode");
+        return UNSUPPORTED_OPERATION;
     }
 
     sa_crypto_cipher_context cipher_context;
-- 
2.43.0


From 5f9f56f2f067949598a1648a896ce8cfd8ec52a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:57 +0000
Subject: [PATCH 87/90] fix: write no provider RSA cryptogram beyond the room
 given for it

---
 reference/src/client/src/sa_provider_asym_cipher.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index fe94e40..01dbdd5 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -171,7 +171,7 @@ static int asym_cipher_encrypt(
         void* ctx,
         unsigned char* out,
         size_t* outlen,
-        ossl_unused size_t outsize,
+        size_t outsize,
         const unsigned char* in,
         size_t inlen) {
 
@@ -191,11 +191,16 @@ static int asym_cipher_encrypt(
     }
 
     sa_provider_asym_cipher_context* asym_cipher_context = ctx;
-    if (asym_cipher_context->key_data->public_key == NULL) {
+    if (asym_cipher_context->key_data == NULL || asym_cipher_context->key_data->public_key == NULL) {
         ERROR("NULL asym_cipher_context->key_data->public_key");
         return 0;
     }
 
+    if (out != NULL && outsize < (size_t) EVP_PKEY_size(asym_cipher_context->key_data->public_key)) {
+        ERROR("out too short");
+        return 0;
+    }
+
     int result = 0;
     EVP_PKEY_CTX* encrypt_pkey_ctx = NULL;
     do {
@@ -288,7 +293,7 @@ static int asym_cipher_decrypt(void* ctx,
     }
 
     sa_provider_asym_cipher_context* asym_cipher_context = ctx;
-    if (asym_cipher_context->key_data->public_key == NULL) {
+    if (asym_cipher_context->key_data == NULL || asym_cipher_context->key_data->public_key == NULL) {
         ERROR("NULL asym_cipher_context->key_data->public_key");
         return 0;
     }
-- 
2.43.0


From b3519de689cf389cf4d163cc2c321cee9f6c4650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:57 +0000
Subject: [PATCH 88/90] fix: refuse a provider key exchange without a peer, and
 duplicate one

---
 reference/src/client/src/sa_provider_keyexch.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keyexch.c b/reference/src/client/src/sa_provider_keyexch.c
index 8e9a962..055d0c5 100644
--- a/reference/src/client/src/sa_provider_keyexch.c
+++ b/reference/src/client/src/sa_provider_keyexch.c
@@ -95,8 +95,12 @@ void* keyexch_dupctx(void* ctx) {
     }
 
     new_keyexch_context->provider_context = keyexch_context->provider_context;
-    new_keyexch_context->key_data = sa_provider_key_data_dup(keyexch_context->key_data);
-    new_keyexch_context->peer_key_data = sa_provider_key_data_dup(keyexch_context->peer_key_data);
+    if (keyexch_context->key_data != NULL)
+        new_keyexch_context->key_data = sa_provider_key_data_dup(keyexch_context->key_data);
+
+    if (keyexch_context->peer_key_data != NULL)
+        new_keyexch_context->peer_key_data = sa_provider_key_data_dup(keyexch_context->peer_key_data);
+
     return new_keyexch_context;
 }
 
@@ -152,6 +156,11 @@ int keyexch_derive(
     uint8_t* other_public = NULL;
     size_t other_public_length;
     do {
+        if (keyexch_context->key_data == NULL || keyexch_context->peer_key_data == NULL) {
+            ERROR("NULL key");
+            break;
+        }
+
         if (keyexch_context->key_data->type == EVP_PKEY_DH) {
             key_exchange_algorithm = SA_KEY_EXCHANGE_ALGORITHM_DH;
         } else if (keyexch_context->key_data->type == EVP_PKEY_EC ||
-- 
2.43.0


From 8437236f50ee5848fdf175bde6ed8353146af19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:57 +0000
Subject: [PATCH 89/90] fix: free the peer another one replaces in a provider
 key exchange

---
 reference/src/client/src/sa_provider_keyexch.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reference/src/client/src/sa_provider_keyexch.c b/reference/src/client/src/sa_provider_keyexch.c
index 055d0c5..099f933 100644
--- a/reference/src/client/src/sa_provider_keyexch.c
+++ b/reference/src/client/src/sa_provider_keyexch.c
@@ -120,6 +120,7 @@ int keyexch_init(
     }
 
     sa_provider_keyexch_context* keyexch_context = ctx;
+    sa_provider_key_data_free(keyexch_context->key_data);
     keyexch_context->key_data = sa_provider_key_data_dup(provkey);
     return keyexch_set_ctx_params(keyexch_context, params);
 }
@@ -228,6 +229,7 @@ int keyexch_set_peer(
     }
 
     sa_provider_keyexch_context* keyexch_context = ctx;
+    sa_provider_key_data_free(keyexch_context->peer_key_data);
     keyexch_context->peer_key_data = sa_provider_key_data_dup(provkey);
     return 1;
 }
-- 
2.43.0


From cfe2c8a284cfb3a33d0db5b15224b39aa8dbe6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:57 +0000
Subject: [PATCH 90/90] fix: store the handle of a provider key exchange
 wherever the caller wants it

---
 reference/src/client/src/sa_provider_keyexch.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_keyexch.c b/reference/src/client/src/sa_provider_keyexch.c
index 099f933..ffadb45 100644
--- a/reference/src/client/src/sa_provider_keyexch.c
+++ b/reference/src/client/src/sa_provider_keyexch.c
@@ -26,6 +26,7 @@
 #if OPENSSL_VERSION_NUMBER >= 0x30000000
 #include "log.h"
 #include "sa_rights.h"
+#include <memory.h>
 #include <openssl/core_names.h>
 #include <openssl/evp.h>
 #include <openssl/pem.h>
@@ -194,7 +195,8 @@ int keyexch_derive(
 
         sa_rights rights;
         sa_rights_set_allow_all(&rights);
-        sa_status status = sa_key_exchange((sa_key*) secret, &rights, key_exchange_algorithm,
+        sa_key shared_secret = INVALID_HANDLE;
+        sa_status status = sa_key_exchange(&shared_secret, &rights, key_exchange_algorithm,
                 keyexch_context->key_data->private_key, other_public, other_public_length, NULL);
         if (status == SA_STATUS_OPERATION_NOT_SUPPORTED) {
             ERROR("sa_key_exchange operation not supported");
@@ -206,6 +208,7 @@ int keyexch_derive(
             break;
         }
 
+        memcpy(secret, &shared_secret, sizeof(sa_key));
         *secretlen = sizeof(sa_key);
         result = 1;
     } while (false);
-- 
2.43.0


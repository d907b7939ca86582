From f299b3acebf5d3f8a23826432a02f88342d8a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 01/63] fix: release a decoded EC private key when wrapping it
 in an EVP key fails

---
 src/wickrcrypto/src/openssl_suite.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index fc48e27..f452ca1 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -114,12 +114,19 @@ static EVP_PKEY *__openssl_evp_ec_key_from_buffer(EC_KEY *existing,
     EVP_PKEY *evp_signing_key = EVP_PKEY_new();
     
     if (!evp_signing_key) {
+        /* A key passed in by the caller is still owned by the caller on failure */
+        if (!existing) {
+            EC_KEY_free(key);
+        }
         return NULL;
     }
     
     /* Convert the EC_KEY structure to an EVP_PKEY */
     if (1 != EVP_PKEY_assign_EC_KEY(evp_signing_key, key)) {
         EVP_PKEY_free(evp_signing_key);
+        if (!existing) {
+            EC_KEY_free(key);
+        }
         return NULL;
     }
     
-- 
2.43.0


From eed6cc11987ce87e3f1ee55573b47988d5d1d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 02/63] fix: release the digest context when a signing or
 verification key is rejected

---
 src/wickrcrypto/src/openssl_suite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index f452ca1..f9b4d05 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -257,6 +257,7 @@ static EVP_MD_CTX * __openssl_digest_sign_ctx_create(wickr_digest_t digest_mode,
     EVP_PKEY *evp_signing_key = key_deserialization_function(key_data);
     
     if (!evp_signing_key) {
+        EVP_MD_CTX_destroy(ctx);
         return NULL;
     }
     
@@ -284,6 +285,7 @@ static EVP_MD_CTX * __openssl_digest_verify_ctx_create(wickr_digest_t digest_mod
     
     /* Initialize a digest context with the digest the signature was created with */
     if (1 != EVP_DigestInit_ex(ctx, EVP_MD_CTX_md(ctx), NULL)) {
+        EVP_MD_CTX_destroy(ctx);
         return NULL;
     }
     
-- 
2.43.0


From a3e3f3c4c1ecfa59a56d86ffee7aa18b9457f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 03/63] fix: check buffer allocation in openssl_crypto_random
 and openssl_sha2

---
 src/wickrcrypto/src/openssl_suite.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index f9b4d05..1d52460 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -369,6 +369,10 @@ wickr_buffer_t *openssl_crypto_random(size_t len)
     
     wickr_buffer_t *new_buffer = wickr_buffer_create_empty(len);
     
+    if (!new_buffer) {
+        return NULL;
+    }
+    
     if (1 != RAND_bytes(new_buffer->bytes, (int)len)) {
         wickr_buffer_destroy(&new_buffer);
         return NULL;
@@ -662,6 +666,11 @@ wickr_buffer_t *openssl_sha2(const wickr_buffer_t *buffer, const wickr_buffer_t
     
     wickr_buffer_t *hash_result = wickr_buffer_create_empty_zero(mode.size);
     
+    if (!hash_result) {
+        EVP_MD_CTX_destroy(c);
+        return NULL;
+    }
+    
     if (1 != EVP_DigestFinal(c, hash_result->bytes, NULL)) {
         wickr_buffer_destroy(&hash_result);
         EVP_MD_CTX_destroy(c);
-- 
2.43.0


From 755120fd2bf685d10c8e15355a0b5e0b9cad0eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 04/63] fix: release the signature when its DER encoding fails
 in openssl_ecdsa_from_raw

---
 src/wickrcrypto/src/openssl_suite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 1d52460..41a2e31 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1088,6 +1088,7 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         uint8_t *bytes = sig_data->bytes;
         
         if (sig_size != i2d_ECDSA_SIG(sig, &bytes)) {
+            ECDSA_SIG_free(sig);
             wickr_buffer_destroy(&sig_data);
             return NULL;
         }
-- 
2.43.0


From a8ffc46954e608ba20d78ef2f49512e0fb317a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 05/63] fix: release the computed HMAC when there is no
 expected value to compare with

---
 src/wickrcrypto/src/openssl_suite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 41a2e31..76fd62d 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1229,6 +1229,7 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         wickr_buffer_t *computed_hmac = openssl_hmac_create(data, hmac_key, mode);
         
         if (!expected || !computed_hmac) {
+            wickr_buffer_destroy_zero(&computed_hmac);
             return false;
         }
         
-- 
2.43.0


From 020a18c54072654cf4886b1f145e38489974f95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 06/63] fix: check allocation of cipher keys and cipher results

---
 src/wickrcrypto/src/cipher.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/wickrcrypto/src/cipher.c b/src/wickrcrypto/src/cipher.c
index b9d669b..43deacd 100644
--- a/src/wickrcrypto/src/cipher.c
+++ b/src/wickrcrypto/src/cipher.c
@@ -31,6 +31,11 @@ wickr_cipher_result_t *wickr_cipher_result_create(wickr_cipher_t cipher, wickr_b
     }
     
     wickr_cipher_result_t *new_result = wickr_alloc_zero(sizeof(wickr_cipher_result_t));
+    
+    if (!new_result) {
+        return NULL;
+    }
+    
     new_result->cipher = cipher;
     
     
@@ -170,6 +175,11 @@ wickr_cipher_key_t *wickr_cipher_key_create(wickr_cipher_t cipher, wickr_buffer_
     }
     
     wickr_cipher_key_t *new_key = wickr_alloc_zero(sizeof(wickr_cipher_key_t));
+    
+    if (!new_key) {
+        return NULL;
+    }
+    
     new_key->cipher = cipher;
     new_key->key_data = key_data;
     
-- 
2.43.0


From dbe194fc1946befd4b769df836d307dcc9e4dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 07/63] fix: release the parts of a cipher result or key that
 could not be assembled

---
 src/wickrcrypto/src/cipher.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/cipher.c b/src/wickrcrypto/src/cipher.c
index 43deacd..f7ff823 100644
--- a/src/wickrcrypto/src/cipher.c
+++ b/src/wickrcrypto/src/cipher.c
@@ -60,12 +60,25 @@ wickr_cipher_result_t *wickr_cipher_result_copy(const wickr_cipher_result_t *res
         cipher_text_copy = NULL;
     wickr_buffer_t *auth_tag_copy = result->auth_tag ? wickr_buffer_copy(result->auth_tag) : NULL;
     
-    return wickr_cipher_result_create(result->cipher, iv_copy, cipher_text_copy, auth_tag_copy);
+    wickr_cipher_result_t *copy = NULL;
+    
+    /* A copy that could not take over the cipher text is not a copy */
+    if (!result->cipher_text || cipher_text_copy) {
+        copy = wickr_cipher_result_create(result->cipher, iv_copy, cipher_text_copy, auth_tag_copy);
+    }
+    
+    if (!copy) {
+        wickr_buffer_destroy(&iv_copy);
+        wickr_buffer_destroy(&cipher_text_copy);
+        wickr_buffer_destroy(&auth_tag_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_cipher_result_destroy(wickr_cipher_result_t **result)
 {
-    if (!*result) {
+    if (!result || !*result) {
         return;
     }
     
@@ -165,7 +178,16 @@ wickr_cipher_result_t *wickr_cipher_result_from_buffer(const wickr_buffer_t *buf
     } else {
         cipher_text = NULL;
     }
-    return wickr_cipher_result_create(*mode, iv, cipher_text, auth_tag);
+    
+    wickr_cipher_result_t *result = wickr_cipher_result_create(*mode, iv, cipher_text, auth_tag);
+    
+    if (!result) {
+        wickr_buffer_destroy(&iv);
+        wickr_buffer_destroy(&cipher_text);
+        wickr_buffer_destroy(&auth_tag);
+    }
+    
+    return result;
 }
 
 wickr_cipher_key_t *wickr_cipher_key_create(wickr_cipher_t cipher, wickr_buffer_t *key_data)
@@ -251,5 +273,11 @@ wickr_cipher_key_t *wickr_cipher_key_from_buffer(const wickr_buffer_t *buffer)
         return NULL;
     }
     
-    return wickr_cipher_key_create(*cipher, key_buffer);
+    wickr_cipher_key_t *key = wickr_cipher_key_create(*cipher, key_buffer);
+    
+    if (!key) {
+        wickr_buffer_destroy_zero(&key_buffer);
+    }
+    
+    return key;
 }
-- 
2.43.0


From 938e354fbd5e82b7e266da90b56ea17e63f769bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 08/63] fix: reject an IV that does not have the length of the
 cipher before encrypting

---
 src/wickrcrypto/src/openssl_suite.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 76fd62d..a0a716a 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -446,6 +446,11 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
         goto process_error;
     }
     
+    /* OpenSSL reads as many bytes of the IV as the cipher requires */
+    if (iv_f->length != cipher.iv_len) {
+        goto process_error;
+    }
+    
     /* Initialize the context with NULL to allow us to perform control operations */
     if (1 != EVP_EncryptInit_ex(ctx, openssl_cipher, NULL, NULL, NULL)) {
         goto process_error;
-- 
2.43.0


From 3d59d0f58f310eb128041c6fdbfbd047b04cca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 09/63] fix: release the buffers of an encryption whose result
 could not be allocated

---
 src/wickrcrypto/src/openssl_suite.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index a0a716a..013cc7c 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -495,9 +495,15 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
         }
     }
     
+    wickr_cipher_result_t *result = wickr_cipher_result_create(cipher, iv_f, cipher_text, auth_tag);
+    
+    if (!result) {
+        goto process_error;
+    }
+    
     EVP_CIPHER_CTX_free(ctx);
     
-    return wickr_cipher_result_create(cipher, iv_f, cipher_text, auth_tag);
+    return result;
     
 process_error:
     if (auth_tag) {
-- 
2.43.0


From eab38d1855a166fc3dcf75368277fb52a95e7598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 10/63] fix: refuse additional authenticated data OpenSSL can
 not process instead of skipping it

---
 src/wickrcrypto/src/openssl_suite.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 013cc7c..e2c5a4e 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -418,7 +418,7 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
     wickr_cipher_t cipher = key->cipher;
     
     /* OpenSSL does not allow encryption of buffers greater than INT_MAX size */
-    if (key->key_data->length != cipher.key_len || plaintext->length > INT_MAX) {
+    if (key->key_data->length != cipher.key_len || plaintext->length > INT_MAX || (aad && aad->length > INT_MAX)) {
         return NULL;
     }
     
@@ -547,6 +547,11 @@ wickr_buffer_t *openssl_aes256_decrypt(const wickr_cipher_result_t *cipher_resul
         return NULL;
     }
     
+    /* Additional data that can't be authenticated must not be ignored */
+    if (aad && aad->length > INT_MAX) {
+        return NULL;
+    }
+    
     /* In GCM mode, make sure the length of the auth tag is correct */
     if (cipher_result->cipher.is_authenticated) {
         if (!cipher_result->auth_tag || cipher_result->auth_tag->length != cipher_result->cipher.auth_tag_len) {
@@ -593,7 +598,7 @@ wickr_buffer_t *openssl_aes256_decrypt(const wickr_cipher_result_t *cipher_resul
     
     /* Update the AAD if needed */
     
-    if (aad && aad->length <= INT_MAX) {
+    if (aad) {
         if (1 != EVP_DecryptUpdate(ctx, NULL, &temp_length, aad->bytes, (int)aad->length)) {
             goto process_error;
         }
-- 
2.43.0


From 6a8bc0978f84200bf359e633c996c23420b3ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 11/63] fix: check allocations in file encryption and
 decryption

---
 src/wickrcrypto/src/openssl_suite.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index e2c5a4e..7840880 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1276,6 +1276,12 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         wickr_cipher_result_t *cipher_result = wickr_cipher_result_create(key->cipher, iv_f, NULL, auth_tag);
         
+        if (!cipher_result) {
+            wickr_buffer_destroy(&iv_f);
+            wickr_buffer_destroy(&auth_tag);
+            return false;
+        }
+        
         wickr_buffer_t *serialized = wickr_cipher_result_serialize(cipher_result);
         if (!serialized)
             goto process_error;
@@ -1325,6 +1331,9 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         // Use a 4kb block size
         unsigned char plainBuffer[4096];
         cipherBuffer = (unsigned char *)wickr_alloc(sizeof(plainBuffer) + EVP_CIPHER_CTX_block_size(ctx));
+        if (!cipherBuffer) {
+            goto process_error;
+        }
         int outlength = 0;
         
         for (;;) {
@@ -1445,6 +1454,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         wickr_cipher_result_t *cipher_result = wickr_cipher_result_from_buffer(cipher_buffer);
         
         unsigned char *plainBuffer = NULL;
+        
+        if (!cipher_result) {
+            goto process_error;
+        }
+        
         const EVP_CIPHER *cipher = __openssl_get_cipher_mode(cipher_result->cipher);
         if (!cipher) {
             goto process_error;
@@ -1464,6 +1478,9 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         /* Allocate a cipher context */
         ctx = EVP_CIPHER_CTX_new();
+        if (!ctx) {
+            goto process_error;
+        }
         
         /* Initialize the context with NULL to allow us to perform control operations */
         if (1 != EVP_DecryptInit_ex(ctx, cipher, NULL, NULL, NULL)) {
@@ -1495,6 +1512,9 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         unsigned char cipherBuffer[4096];
         plainBuffer = wickr_alloc(sizeof(cipherBuffer) + EVP_CIPHER_CTX_block_size(ctx));
+        if (!plainBuffer) {
+            goto process_error;
+        }
         int outlength = 0;
         
         for (;;) {
-- 
2.43.0


From c89883c3eb9292754c71d5506bc0215ba392ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 12/63] fix: report file encryption as failed when the input
 can not be read or the header can not be written

---
 src/wickrcrypto/src/openssl_suite.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 7840880..0ed853f 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1339,6 +1339,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         for (;;) {
             size_t bytes_read = fread(plainBuffer, 1, sizeof(plainBuffer), in_file);
             
+            /* A read error must not be taken for the end of the file */
+            if (ferror(in_file)) {
+                goto process_error;
+            }
+            
             if (1 != EVP_EncryptUpdate(ctx, cipherBuffer, &outlength, plainBuffer, (int)bytes_read)) {
                 goto process_error;
             }
@@ -1377,13 +1382,15 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         // Complete the saving of data to the file
         serialized = wickr_cipher_result_serialize(cipher_result);
-        if (serialized) {
-            //Seek to the position that the Tag zeros start in the file so we can fill in the tag
-            rewind(out_file);
-            size_t bytes_written = fwrite(serialized->bytes, 1, serialized->length, out_file);
-            if (bytes_written != serialized->length) {
-                goto process_error;
-            }
+        if (!serialized) {
+            goto process_error;
+        }
+        
+        //Seek to the position that the Tag zeros start in the file so we can fill in the tag
+        rewind(out_file);
+        size_t header_written = fwrite(serialized->bytes, 1, serialized->length, out_file);
+        if (header_written != serialized->length) {
+            goto process_error;
         }
         
         ret_val = true;
@@ -1520,6 +1527,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         for (;;) {
             size_t bytesRead = fread(cipherBuffer, 1, sizeof(cipherBuffer), in_file);
             
+            /* A read error must not be taken for the end of the file */
+            if (ferror(in_file)) {
+                goto process_error;
+            }
+            
             if (1 != EVP_DecryptUpdate(ctx, plainBuffer, &outlength, cipherBuffer, (int)bytesRead)) {
                 goto process_error;
             }
-- 
2.43.0


From cb9cb282362d37c17ff347484fd92251a2f6d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 13/63] fix: refuse to decrypt a file that names another cipher
 than the key

---
 src/wickrcrypto/src/openssl_suite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 0ed853f..5469692 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1471,8 +1471,8 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
             goto process_error;
         }
         
-        /* OpenSSL does not allow decryption of buffers greater than INT_MAX in length */
-        if (key->key_data->length != cipher_result->cipher.key_len) {
+        /* The cipher named by the file must be the one the key is for */
+        if (key->cipher.cipher_id != cipher_result->cipher.cipher_id || key->key_data->length != cipher_result->cipher.key_len) {
             goto process_error;
         }
         
-- 
2.43.0


From 8638a092e1da26c80349efdbb0690c7fd7d792af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 14/63] fix: do not move an output file into place when closing
 it failed

---
 src/wickrcrypto/src/openssl_file_suite.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_file_suite.c b/src/wickrcrypto/src/openssl_file_suite.c
index 8e6d7c3..56d0524 100644
--- a/src/wickrcrypto/src/openssl_file_suite.c
+++ b/src/wickrcrypto/src/openssl_file_suite.c
@@ -146,19 +146,26 @@ static void aesFileOpRemoveTempFile(AESFileOperation *operation) {
     remove(operation->tempPath);
 }
 
-static void aesFileOpCloseSourceAndDestination(AESFileOperation *operation) {
+static bool aesFileOpCloseSourceAndDestination(AESFileOperation *operation) {
+	bool retVal = true;
 	if (operation->sourceHandle) {
 		fclose(operation->sourceHandle);
 		operation->sourceHandle = NULL;
 	}
 	if (operation->destinationHandle) {
-		fclose(operation->destinationHandle);
+		// Closing writes what is still buffered, the output is incomplete if that fails
+		if (fclose(operation->destinationHandle) != 0) {
+			retVal = false;
+		}
 		operation->destinationHandle = NULL;
 	}
+	return retVal;
 }
 
 static bool aesFileOpMoveTempToDestination(AESFileOperation *operation) {
-    aesFileOpCloseSourceAndDestination(operation);
+    if (!aesFileOpCloseSourceAndDestination(operation)) {
+        return false;
+    }
     
     bool retVal = true;
 #if defined(_WIN32)
-- 
2.43.0


From 3f4dd87d19a4a7eff70f6ccb15b7412956729afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 15/63] fix: remove the temporary file when a file operation
 can not be set up

---
 src/wickrcrypto/src/openssl_file_suite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/openssl_file_suite.c b/src/wickrcrypto/src/openssl_file_suite.c
index 56d0524..4efc1c8 100644
--- a/src/wickrcrypto/src/openssl_file_suite.c
+++ b/src/wickrcrypto/src/openssl_file_suite.c
@@ -133,6 +133,7 @@ process_error:
     }
     if (destinationHandle) {
         fclose(destinationHandle);
+        remove(tempPath);
     }
     if (tempPath) {
         wickr_free(tempPath);
-- 
2.43.0


From cc51392e51230754f84dc77ac4b399543caeda4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 16/63] fix: release the parts of a KDF result or meta that
 could not be assembled

---
 src/wickrcrypto/src/kdf.c | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index 86cd7e8..92a89a3 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -116,7 +116,13 @@ wickr_kdf_meta_t *wickr_kdf_meta_create_with_buffer(const wickr_buffer_t *buffer
         return NULL;
     }
     
-    return wickr_kdf_meta_create(*algo, salt_buffer, NULL);
+    wickr_kdf_meta_t *meta = wickr_kdf_meta_create(*algo, salt_buffer, NULL);
+    
+    if (!meta) {
+        wickr_buffer_destroy_zero(&salt_buffer);
+    }
+    
+    return meta;
 }
 
 wickr_buffer_t *wickr_kdf_meta_serialize(const wickr_kdf_meta_t *meta)
@@ -158,7 +164,14 @@ wickr_kdf_meta_t *wickr_kdf_meta_copy(const wickr_kdf_meta_t *source)
         return NULL;
     }
     
-    return wickr_kdf_meta_create(source->algo, salt_copy, info_copy);
+    wickr_kdf_meta_t *copy = wickr_kdf_meta_create(source->algo, salt_copy, info_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy(&salt_copy);
+        wickr_buffer_destroy(&info_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_kdf_meta_destroy(wickr_kdf_meta_t **meta)
@@ -210,7 +223,14 @@ wickr_kdf_result_t *wickr_kdf_result_copy(const wickr_kdf_result_t *source)
         return NULL;
     }
     
-    return wickr_kdf_result_create(meta_copy, hash_copy);
+    wickr_kdf_result_t *copy = wickr_kdf_result_create(meta_copy, hash_copy);
+    
+    if (!copy) {
+        wickr_kdf_meta_destroy(&meta_copy);
+        wickr_buffer_destroy_zero(&hash_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_kdf_result_destroy(wickr_kdf_result_t **result)
@@ -461,11 +481,18 @@ wickr_kdf_result_t *wickr_perform_kdf_meta(const wickr_kdf_meta_t *existing_meta
     wickr_kdf_meta_t *result_meta = wickr_kdf_meta_copy(existing_meta);
     
     if (!result_meta) {
-        wickr_buffer_destroy(&hash_output);
+        wickr_buffer_destroy_zero(&hash_output);
         return NULL;
     }
     
-    return wickr_kdf_result_create(result_meta, hash_output);
+    wickr_kdf_result_t *result = wickr_kdf_result_create(result_meta, hash_output);
+    
+    if (!result) {
+        wickr_kdf_meta_destroy(&result_meta);
+        wickr_buffer_destroy_zero(&hash_output);
+    }
+    
+    return result;
 }
 
 const wickr_kdf_algo_t *wickr_hkdf_algo_for_digest(wickr_digest_t digest)
-- 
2.43.0


From 619f056e46af18e01d4044d9dc05a01e1942ee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 17/63] fix: release the passphrase copy when preparing a
 bcrypt hash fails

---
 src/wickrcrypto/src/kdf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index 92a89a3..73a9693 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -324,7 +324,13 @@ static wickr_buffer_t *__bcrypt_generate_hash(const wickr_kdf_meta_t *meta, cons
     
     wickr_buffer_t *passphrase_final = wickr_buffer_create_empty_zero(passphrase->length + 1);
     
+    if (!passphrase_final) {
+        wickr_buffer_destroy(&salt_buffer);
+        return NULL;
+    }
+    
     if (!wickr_buffer_modify_section(passphrase_final, passphrase->bytes, 0, passphrase->length)) {
+        wickr_buffer_destroy_zero(&passphrase_final);
         wickr_buffer_destroy(&salt_buffer);
         return NULL;
     }
-- 
2.43.0


From e78333a07d058ceedbf6abdf1308d7aed86d1dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 18/63] fix: wipe the passphrase copy and the raw hash of a
 bcrypt operation

---
 src/wickrcrypto/src/kdf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index 73a9693..c233f66 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -339,14 +339,16 @@ static wickr_buffer_t *__bcrypt_generate_hash(const wickr_kdf_meta_t *meta, cons
     memset(&out, 0, BCRYPT_HASH_SIZE);
     
     if (!crypt_rn((char *)passphrase_final->bytes, (char *)salt_buffer->bytes, out, BCRYPT_HASH_SIZE)) {
-        wickr_buffer_destroy(&passphrase_final);
+        wickr_zero(out, BCRYPT_HASH_SIZE);
+        wickr_buffer_destroy_zero(&passphrase_final);
         wickr_buffer_destroy(&salt_buffer);
         return NULL;
     }
     
-    wickr_buffer_destroy(&passphrase_final);
+    wickr_buffer_destroy_zero(&passphrase_final);
     
     wickr_buffer_t *hash_buffer = wickr_buffer_create((uint8_t *)out, strlen(out));
+    wickr_zero(out, BCRYPT_HASH_SIZE);
     wickr_buffer_destroy(&salt_buffer);
 
     return hash_buffer;
-- 
2.43.0


From efc10e188cc00b54fe6c931a7de0070ae79fd776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 19/63] fix: release the derived key when the ciphertext of
 kdf_decipher is malformed

---
 src/wickrcrypto/src/crypto_engine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/crypto_engine.c b/src/wickrcrypto/src/crypto_engine.c
index 7178dea..a2f5671 100644
--- a/src/wickrcrypto/src/crypto_engine.c
+++ b/src/wickrcrypto/src/crypto_engine.c
@@ -153,6 +153,7 @@ wickr_buffer_t *wickr_crypto_engine_kdf_decipher(const wickr_crypto_engine_t *en
     wickr_cipher_result_t *cipher_result = wickr_cipher_result_from_buffer(&cipher_text);
     
     if (!cipher_result) {
+        wickr_kdf_result_destroy(&kdf_result);
         return NULL;
     }
     
-- 
2.43.0


From f04d8e73eca6fc3ab0837cad20029d5fc5b6b425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 20/63] fix: release the key material when a stream key can not
 be derived from a transport root key

---
 src/wickrcrypto/src/transport_root_key.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_root_key.c b/src/wickrcrypto/src/transport_root_key.c
index cb7df79..766b86b 100644
--- a/src/wickrcrypto/src/transport_root_key.c
+++ b/src/wickrcrypto/src/transport_root_key.c
@@ -97,7 +97,12 @@ wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport
     wickr_kdf_meta_t kdf_meta =  { .algo = KDF_HKDF_SHA512, .salt = (wickr_buffer_t *)salt, .info = (wickr_buffer_t *)stream_id };
     wickr_kdf_result_t *raw_key_material = engine->wickr_crypto_kdf_meta(&kdf_meta, root_key->secret);
     
-    if (!raw_key_material || raw_key_material->hash->length != root_key->cipher.key_len * 2) {
+    if (!raw_key_material) {
+        return NULL;
+    }
+    
+    if (raw_key_material->hash->length != root_key->cipher.key_len * 2) {
+        wickr_kdf_result_destroy(&raw_key_material);
         return NULL;
     }
     
@@ -106,6 +111,7 @@ wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport
     
     if (!cipher_key) {
         wickr_buffer_destroy_zero(&cipher_key_data);
+        wickr_kdf_result_destroy(&raw_key_material);
         return NULL;
     }
     
-- 
2.43.0


From 3ffe459930a95269738a82dafe23c3ca1386ffb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 21/63] fix: release the IV factory when a stream context can
 not be allocated

---
 src/wickrcrypto/src/stream_ctx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/stream_ctx.c b/src/wickrcrypto/src/stream_ctx.c
index 7baa2eb..4fdfdfe 100644
--- a/src/wickrcrypto/src/stream_ctx.c
+++ b/src/wickrcrypto/src/stream_ctx.c
@@ -23,6 +23,7 @@ wickr_stream_ctx_t *wickr_stream_ctx_create(const wickr_crypto_engine_t engine,
     wickr_stream_ctx_t *stream_cipher = wickr_alloc_zero(sizeof(wickr_stream_ctx_t));
     
     if (!stream_cipher) {
+        wickr_stream_iv_destroy(&iv_factory);
         return NULL;
     }
     
-- 
2.43.0


From a79246afcf2173be2727988206866c859a06c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 22/63] fix: check allocations in the constructors of keys,
 signatures, exchanges and packet metadata

---
 src/wickrcrypto/src/ecdsa.c        | 5 +++++
 src/wickrcrypto/src/eckey.c        | 5 +++++
 src/wickrcrypto/src/key_exchange.c | 5 +++++
 src/wickrcrypto/src/packet_meta.c  | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/src/wickrcrypto/src/ecdsa.c b/src/wickrcrypto/src/ecdsa.c
index f55267a..fe48ad5 100644
--- a/src/wickrcrypto/src/ecdsa.c
+++ b/src/wickrcrypto/src/ecdsa.c
@@ -12,6 +12,11 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_create(wickr_ec_curve_t curve, wickr_di
     }
     
     wickr_ecdsa_result_t *new_result = wickr_alloc_zero(sizeof(wickr_ecdsa_result_t));
+    
+    if (!new_result) {
+        return NULL;
+    }
+    
     new_result->curve = curve;
     new_result->digest_mode = digest_mode;
     new_result->sig_data = sig_data;
diff --git a/src/wickrcrypto/src/eckey.c b/src/wickrcrypto/src/eckey.c
index 015cbac..7d4de78 100644
--- a/src/wickrcrypto/src/eckey.c
+++ b/src/wickrcrypto/src/eckey.c
@@ -10,6 +10,11 @@ wickr_ec_key_t *wickr_ec_key_create(wickr_ec_curve_t curve, wickr_buffer_t *pub_
     }
     
     wickr_ec_key_t *new_key = wickr_alloc_zero(sizeof(wickr_ec_key_t));
+    
+    if (!new_key) {
+        return NULL;
+    }
+    
     new_key->curve = curve;
     new_key->pub_data = pub_data;
     new_key->pri_data = pri_data;
diff --git a/src/wickrcrypto/src/key_exchange.c b/src/wickrcrypto/src/key_exchange.c
index b61bfeb..ce7e375 100644
--- a/src/wickrcrypto/src/key_exchange.c
+++ b/src/wickrcrypto/src/key_exchange.c
@@ -16,6 +16,11 @@ wickr_key_exchange_t *wickr_key_exchange_create(wickr_buffer_t *exchange_id,
     }
     
     wickr_key_exchange_t *new_exchange = wickr_alloc_zero(sizeof(wickr_key_exchange_t));
+    
+    if (!new_exchange) {
+        return NULL;
+    }
+    
     new_exchange->exchange_id = exchange_id;
     new_exchange->key_id = key_id;
     new_exchange->exchange_ciphertext = exchange_ciphertext;
diff --git a/src/wickrcrypto/src/packet_meta.c b/src/wickrcrypto/src/packet_meta.c
index 4262b87..b0fe8c8 100644
--- a/src/wickrcrypto/src/packet_meta.c
+++ b/src/wickrcrypto/src/packet_meta.c
@@ -9,6 +9,11 @@ wickr_packet_meta_t *wickr_packet_meta_create(wickr_ephemeral_info_t ephemeralit
     }
     
     wickr_packet_meta_t *new_packet_meta = wickr_alloc_zero(sizeof(wickr_packet_meta_t));
+    
+    if (!new_packet_meta) {
+        return NULL;
+    }
+    
     new_packet_meta->channel_tag = channel_tag;
     new_packet_meta->content_type = content_type;
     new_packet_meta->ephemerality_settings = ephemerality_settings;
-- 
2.43.0


From d23a60b1346cc6bb37658c83ca97019f71f05337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 23/63] fix: release the parts of a key or signature that could
 not be assembled

---
 src/wickrcrypto/src/ecdsa.c |  8 +++++++-
 src/wickrcrypto/src/eckey.c | 15 +++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/src/ecdsa.c b/src/wickrcrypto/src/ecdsa.c
index fe48ad5..21430c5 100644
--- a/src/wickrcrypto/src/ecdsa.c
+++ b/src/wickrcrypto/src/ecdsa.c
@@ -50,7 +50,13 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_create_from_buffer(const wickr_buffer_t
         return NULL;
     }
     
-    return wickr_ecdsa_result_create(*curve, *digest_mode, key_data);
+    wickr_ecdsa_result_t *result = wickr_ecdsa_result_create(*curve, *digest_mode, key_data);
+    
+    if (!result) {
+        wickr_buffer_destroy(&key_data);
+    }
+    
+    return result;
 }
 
 wickr_buffer_t *wickr_ecdsa_result_serialize(const wickr_ecdsa_result_t *result)
diff --git a/src/wickrcrypto/src/eckey.c b/src/wickrcrypto/src/eckey.c
index 7d4de78..6fec241 100644
--- a/src/wickrcrypto/src/eckey.c
+++ b/src/wickrcrypto/src/eckey.c
@@ -45,18 +45,29 @@ wickr_ec_key_t *wickr_ec_key_copy(const wickr_ec_key_t *source)
         }
     }
     
-    return wickr_ec_key_create(source->curve, pub_key_copy, pri_key_copy);
+    wickr_ec_key_t *copy = wickr_ec_key_create(source->curve, pub_key_copy, pri_key_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy(&pub_key_copy);
+        wickr_buffer_destroy_zero(&pri_key_copy);
+    }
+    
+    return copy;
 }
 
 wickr_buffer_t *wickr_ec_key_get_pubdata_fixed_len(const wickr_ec_key_t *key)
 {
+    if (!key) {
+        return NULL;
+    }
+    
     /* If no adjustments are necessary, just return a new copy of the pub key data as is */
     if (key->pub_data->length == key->curve.max_pub_size) {
         return wickr_buffer_copy(key->pub_data);
     }
     
     /* Verify that we don't have a corrupt key with a length greater than the maximum */
-    if (!key || key->pub_data->length > key->curve.max_pub_size) {
+    if (key->pub_data->length > key->curve.max_pub_size) {
         return NULL;
     }
     
-- 
2.43.0


From 4fbc055c8431b14af433c22f48d593da02166cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 24/63] fix: skip unset items when searching a key exchange set

---
 src/wickrcrypto/src/key_exchange.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/key_exchange.c b/src/wickrcrypto/src/key_exchange.c
index ce7e375..73a0cbf 100644
--- a/src/wickrcrypto/src/key_exchange.c
+++ b/src/wickrcrypto/src/key_exchange.c
@@ -207,7 +207,7 @@ wickr_key_exchange_t *wickr_key_exchange_set_find(const wickr_key_exchange_set_t
     
     for (uint32_t i = 0; i < wickr_array_get_item_count(exchange_set->exchanges); i++) {
         wickr_key_exchange_t *one_exchange = wickr_exchange_array_fetch_item(exchange_set->exchanges, i);
-        if (wickr_buffer_is_equal(identifier, one_exchange->exchange_id, NULL)) {
+        if (one_exchange && wickr_buffer_is_equal(identifier, one_exchange->exchange_id, NULL)) {
             return wickr_key_exchange_copy(one_exchange);
         }
     }
-- 
2.43.0


From 4ffb8f74610b0abf9651f139cff1f19f561ee01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 25/63] fix: release partial results on the error paths of
 packet creation and copying

---
 src/wickrcrypto/src/protocol.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index 3813daf..aab45ee 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -271,6 +271,11 @@ wickr_packet_t *wickr_packet_create_with_components(const wickr_crypto_engine_t
     
     wickr_buffer_t *enc_payload_bytes = wickr_cipher_result_serialize(enc_payload);
     
+    if (!enc_payload_bytes) {
+        wickr_buffer_destroy(&enc_header_bytes);
+        return NULL;
+    }
+    
     proto_packet.enc_header.data = enc_header_bytes->bytes;
     proto_packet.enc_header.len = enc_header_bytes->length;
     proto_packet.enc_payload.data = enc_payload_bytes->bytes;
@@ -358,6 +363,7 @@ wickr_packet_t *wickr_packet_create_from_buffer(const wickr_buffer_t *buffer)
     if (!signature ||
         signature->digest_mode.digest_id != digest.digest_id ||
         signature->curve.identifier != curve->identifier) {
+        wickr_ecdsa_result_destroy(&signature);
         return NULL;
     }
     
@@ -395,6 +401,7 @@ wickr_buffer_t *wickr_packet_serialize(const wickr_packet_t *packet)
     wickr_buffer_t *sig_data = wickr_ecdsa_result_serialize(packet->signature);
     
     if (!sig_data || sig_data->length != packet->signature->curve.signature_size) {
+        wickr_buffer_destroy(&sig_data);
         return NULL;
     }
     
@@ -548,12 +555,23 @@ wickr_decode_result_t *wickr_decode_result_copy(const wickr_decode_result_t *res
     }
     
     wickr_payload_t *payload_copy = wickr_payload_copy(result->decrypted_payload);
+    
+    if (!payload_copy && result->decrypted_payload) {
+        return NULL;
+    }
+    
     wickr_cipher_key_t *cipher_key_copy = wickr_cipher_key_copy(result->payload_key);
     
+    if (!cipher_key_copy && result->payload_key) {
+        wickr_payload_destroy(&payload_copy);
+        return NULL;
+    }
+    
     wickr_decode_result_t *copy = __wickr_decode_result_create(result->err, payload_copy, cipher_key_copy);
     
     if (!copy) {
         wickr_payload_destroy(&payload_copy);
+        wickr_cipher_key_destroy(&cipher_key_copy);
     }
     
     return copy;
-- 
2.43.0


From 7b53c865a65cb34bad00496c12292d20c9f02805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 26/63] fix: check that storage keys could be converted before
 serializing them

---
 src/wickrcrypto/src/storage.c      | 5 +++++
 src/wickrcrypto/src/storage_priv.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/wickrcrypto/src/storage.c b/src/wickrcrypto/src/storage.c
index 1bf93a0..7b6c078 100644
--- a/src/wickrcrypto/src/storage.c
+++ b/src/wickrcrypto/src/storage.c
@@ -58,6 +58,11 @@ wickr_buffer_t *wickr_storage_keys_serialize(const wickr_storage_keys_t *keys)
     }
     
     Wickr__Proto__StorageKeys *proto_keys = wickr_storage_keys_to_proto(keys);
+    
+    if (!proto_keys) {
+        return NULL;
+    }
+    
     size_t buffer_size = wickr__proto__storage_keys__get_packed_size(proto_keys);
     wickr_buffer_t *concat_buffer = wickr_buffer_create_empty(buffer_size);
     
diff --git a/src/wickrcrypto/src/storage_priv.c b/src/wickrcrypto/src/storage_priv.c
index ef5cd62..c517010 100644
--- a/src/wickrcrypto/src/storage_priv.c
+++ b/src/wickrcrypto/src/storage_priv.c
@@ -23,6 +23,11 @@ Wickr__Proto__StorageKeys *wickr_storage_keys_to_proto(const wickr_storage_keys_
     }
     
     Wickr__Proto__StorageKeys *proto_keys = wickr_alloc_zero(sizeof(Wickr__Proto__StorageKeys));
+    
+    if (!proto_keys) {
+        return NULL;
+    }
+    
     wickr__proto__storage_keys__init(proto_keys);
     proto_keys->version = CURRENT_STORAGE_KEY_VERSION;
     
-- 
2.43.0


From cc06a1d099f1ee03a6ed79f24f6676b221e90c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 27/63] fix: check the converted stream key before serializing
 it and release it on failure

---
 src/wickrcrypto/src/stream_key.c      | 2 +-
 src/wickrcrypto/src/stream_key_priv.c | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/stream_key.c b/src/wickrcrypto/src/stream_key.c
index 04a339e..ab8979e 100644
--- a/src/wickrcrypto/src/stream_key.c
+++ b/src/wickrcrypto/src/stream_key.c
@@ -110,7 +110,7 @@ wickr_buffer_t *wickr_stream_key_serialize(const wickr_stream_key_t *key)
     
     Wickr__Proto__StreamKey *proto_key = wickr_stream_key_to_proto(key);
     
-    if (!key) {
+    if (!proto_key) {
         return NULL;
     }
     
diff --git a/src/wickrcrypto/src/stream_key_priv.c b/src/wickrcrypto/src/stream_key_priv.c
index b8ac43f..57c0edf 100644
--- a/src/wickrcrypto/src/stream_key_priv.c
+++ b/src/wickrcrypto/src/stream_key_priv.c
@@ -35,6 +35,7 @@ Wickr__Proto__StreamKey *wickr_stream_key_to_proto(const wickr_stream_key_t *key
     
     if (!wickr_buffer_to_protobytes(&proto->cipher_key, key_buffer)) {
         wickr_buffer_destroy_zero(&key_buffer);
+        wickr_free(proto);
         return NULL;
     }
     
@@ -100,6 +101,7 @@ wickr_stream_key_t *wickr_stream_key_create_from_proto(const Wickr__Proto__Strea
     if (!stream_key) {
         wickr_cipher_key_destroy(&cipher_key);
         wickr_buffer_destroy_zero(&evo_key);
+        wickr_buffer_destroy(&user_data);
         return NULL;
     }
     
-- 
2.43.0


From 626193ccb71b6f8e58ac172489b10a17d6179c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 28/63] fix: check that a fingerprint could be encoded before
 shortening it

---
 src/wickrcrypto/src/fingerprint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/src/fingerprint.c b/src/wickrcrypto/src/fingerprint.c
index d2801d6..87033b5 100644
--- a/src/wickrcrypto/src/fingerprint.c
+++ b/src/wickrcrypto/src/fingerprint.c
@@ -181,6 +181,10 @@ static wickr_buffer_t *__wickr_fingerprint_encode_for_output_mode(const wickr_fi
     
     wickr_buffer_t *encoded_fingerprint_data = enc_func(fingerprint->data);
     
+    if (!encoded_fingerprint_data) {
+        return NULL;
+    }
+    
     if (output_mode == FINGERPRINT_OUTPUT_SHORT) {
         size_t short_length = encoded_fingerprint_data->length / 2;
         
-- 
2.43.0


From 157150402bc5fcfcf2a2a1c60dfab2b1f43548f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 29/63] fix: check the results of copying and generating
 contexts

---
 src/wickrcrypto/src/wickr_ctx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index acf6bcb..14344c5 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -164,6 +164,10 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_recovery(const wickr_crypto_engine_t
     wickr_ctx_gen_result_t *gen_result = wickr_ctx_gen_with_root_keys(engine, dev_info, root_keys, identifier);
     wickr_root_keys_destroy(&root_keys);
     
+    if (!gen_result) {
+        return NULL;
+    }
+    
     /* Swap out the randomly assigned recovery key with the one that was specified */
     wickr_cipher_key_destroy(&gen_result->recovery_key);
     gen_result->recovery_key = wickr_cipher_key_copy(recovery_key);
@@ -256,7 +260,7 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_root_keys(const wickr_crypto_engine_t
     
     wickr_root_keys_t *root_keys_copy = wickr_root_keys_copy(root_keys);
     
-    if (!root_keys) {
+    if (!root_keys_copy) {
         wickr_ctx_destroy(&ctx);
         wickr_cipher_key_destroy(&recovery_key);
         return NULL;
@@ -448,6 +452,7 @@ wickr_ctx_t *wickr_ctx_copy(const wickr_ctx_t *ctx)
         wickr_dev_info_destroy(&dev_info_copy);
         wickr_identity_chain_destroy(&id_chain_copy);
         wickr_storage_keys_destroy(&storage_keys_copy);
+        return NULL;
     }
     
     copy->pkt_enc_version = ctx->pkt_enc_version;
-- 
2.43.0


From 652004bb991e97b19ef09f52f215ecae872a9785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 30/63] fix: release the header key and the identity chain when
 a context can not be created

---
 src/wickrcrypto/src/wickr_ctx.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index 14344c5..ddf7b31 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -221,12 +221,17 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_root_keys(const wickr_crypto_engine_t
     
     wickr_identity_chain_t *new_id_chain = wickr_identity_chain_create(root_identity, new_node_identity);
     
-    if (!new_id_chain || !wickr_identity_chain_validate(new_id_chain, &engine)) {
+    if (!new_id_chain) {
         wickr_identity_destroy(&new_node_identity);
         wickr_identity_destroy(&root_identity);
         return NULL;
     }
     
+    if (!wickr_identity_chain_validate(new_id_chain, &engine)) {
+        wickr_identity_chain_destroy(&new_id_chain);
+        return NULL;
+    }
+    
     wickr_storage_keys_t *new_storage_keys = wickr_root_keys_localize(root_keys, &engine, dev_info);
     
     if (!new_storage_keys) {
@@ -401,6 +406,7 @@ wickr_ctx_t *wickr_ctx_create(const wickr_crypto_engine_t engine, wickr_dev_info
     wickr_ctx_t *new_ctx = wickr_alloc_zero(sizeof(wickr_ctx_t));
     
     if (!new_ctx) {
+        wickr_cipher_key_destroy(&packet_header_key);
         return NULL;
     }
     
-- 
2.43.0


From 0f8316808e12d87b532d4f766b936d8834896a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 31/63] fix: release the serialized identity chain when a node
 can not be serialized

---
 src/wickrcrypto/src/node_priv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/node_priv.c b/src/wickrcrypto/src/node_priv.c
index 8a3adaf..3920203 100644
--- a/src/wickrcrypto/src/node_priv.c
+++ b/src/wickrcrypto/src/node_priv.c
@@ -41,6 +41,7 @@ Wickr__Proto__Node *wickr_node_to_proto(const wickr_node_t *node)
     
     if (!proto_node) {
         wickr_ephemeral_keypair_proto_free(ephemeral_keypair);
+        wickr_identity_chain_proto_free(identity_chain);
         return NULL;
     }
     
-- 
2.43.0


From 7bf36150b2567f7d126591aa85f77ed2155577ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 32/63] fix: release the parts of a handshake message that
 could not be built

---
 src/wickrcrypto/src/transport_handshake_priv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake_priv.c b/src/wickrcrypto/src/transport_handshake_priv.c
index 6591cf8..d0dca08 100644
--- a/src/wickrcrypto/src/transport_handshake_priv.c
+++ b/src/wickrcrypto/src/transport_handshake_priv.c
@@ -27,12 +27,12 @@ Wickr__Proto__HandshakeV1__Seed *wickr_proto_handshake_seed_create(const wickr_i
     seed->identity_required = needs_remote_identity;
     
     if (!wickr_buffer_to_protobytes(&seed->ephemeral_pubkey, ephemeral_pub_key)) {
-        wickr_free(seed);
+        wickr_proto_handshake_seed_free(seed);
         return NULL;
     }
     
     if (!seed->id_chain) {
-        wickr_free(seed);
+        wickr_proto_handshake_seed_free(seed);
         return NULL;
     }
     
@@ -132,12 +132,12 @@ Wickr__Proto__HandshakeV1__Response *wickr_proto_handshake_response_create(const
     }
     
     if (!wickr_buffer_to_protobytes(&response->ephemeral_pubkey, ephemeral_pubkey)) {
-        wickr_free(response);
+        wickr_proto_handshake_response_free(response);
         return NULL;
     }
     
     if (!wickr_buffer_to_protobytes(&response->encrypted_response_data, encrypted_response_data)) {
-        wickr_free(response);
+        wickr_proto_handshake_response_free(response);
         return NULL;
     }
     
-- 
2.43.0


From 9c5d4d43339b425c5c52426cccd09bd68a8ed444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 33/63] fix: release the handshake packet and the HKDF info on
 failure

---
 src/wickrcrypto/src/transport_handshake.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index bc9a349..0ff8787 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -235,6 +235,7 @@ static wickr_transport_packet_t *__wickr_transport_handshake_build_signed_packet
     
     /* Sign the handshake packet */
     if (!handshake_pkt || !wickr_transport_packet_sign(handshake_pkt, &handshake->engine, handshake->local_identity)) {
+        wickr_transport_packet_destroy(&handshake_pkt);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return NULL;
     }
@@ -350,7 +351,7 @@ static wickr_kdf_meta_t *__wickr_transport_handshake_kdf_meta_gen(wickr_transpor
     wickr_kdf_meta_t *kdf_meta = wickr_kdf_meta_create(KDF_HKDF_SHA512, NULL, hashed_info);
     
     if (!kdf_meta) {
-        wickr_buffer_destroy(&info_data);
+        wickr_buffer_destroy(&hashed_info);
     }
     
     return kdf_meta;
-- 
2.43.0


From f03f06da902b2320aa8ba6be75717164b022091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 34/63] fix: check which kind of handshake message was received
 before reading it

---
 src/wickrcrypto/src/transport_handshake.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 0ff8787..73acf27 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -388,7 +388,8 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
         return;
     }
     
-    if (!handshake_data->response ||
+    if (handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_RESPONSE ||
+        !handshake_data->response ||
         !handshake_data->response->has_encrypted_response_data ||
         !handshake_data->response->has_ephemeral_pubkey) {
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
@@ -512,7 +513,8 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     
     Wickr__Proto__HandshakeV1 *handshake_data = wickr_proto_handshake_from_packet(packet);
     
-    if (!handshake_data || !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
+    if (!handshake_data || handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED
+        || !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
         || !handshake_data->seed->has_identity_required) {
         wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
-- 
2.43.0


From 351db8b54f078bd40098201e46e84d01e1c00b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 35/63] fix: release the ephemeral keys when no root key can be
 generated

---
 src/wickrcrypto/src/transport_handshake.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 73acf27..154317c 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -562,6 +562,8 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     
     if (!handshake->root_key) {
         wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
+        wickr_ecdh_cipher_ctx_destroy(&cipher_ctx);
+        wickr_ec_key_destroy(&ephemeral_key);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return NULL;
     }
-- 
2.43.0


From a41a1348a5b184c77580de7ba6107e5f6962386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 36/63] fix: wipe the plaintext root key of a handshake
 response

---
 src/wickrcrypto/src/transport_handshake.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 154317c..d88ff32 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -593,7 +593,7 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     wickr_cipher_result_t *result = wickr_ecdh_cipher_ctx_cipher(cipher_ctx, serialized_response_data, ephemeral_key, kdf_meta);
     
     wickr_kdf_meta_destroy(&kdf_meta);
-    wickr_buffer_destroy(&serialized_response_data);
+    wickr_buffer_destroy_zero(&serialized_response_data);
     wickr_ec_key_destroy(&ephemeral_key);
     
     if (!result) {
-- 
2.43.0


From 3ce20d0dd4eb9b3d018712ceaf9bc9cce3371e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 37/63] fix: release the handshake result when the outgoing
 stream can not be created

---
 src/wickrcrypto/src/transport_ctx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 53a1808..6a8e884 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -222,6 +222,7 @@ static bool __wickr_transport_ctx_finalize_handshake(wickr_transport_ctx_t *ctx)
     
     if (!tx_stream) {
         wickr_stream_key_destroy(&tx_key);
+        wickr_transport_handshake_res_destroy(&res);
         return false;
     }
     
-- 
2.43.0


From 5a3fffda3cdd72d417d38c4f3b409c2f34407a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 38/63] fix: release the signature bytes when a signature can
 not be copied

---
 src/wickrcrypto/src/ecdsa.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/ecdsa.c b/src/wickrcrypto/src/ecdsa.c
index 21430c5..9f5baa1 100644
--- a/src/wickrcrypto/src/ecdsa.c
+++ b/src/wickrcrypto/src/ecdsa.c
@@ -95,7 +95,13 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_copy(const wickr_ecdsa_result_t *source
     
     wickr_buffer_t *sig_data_copy = wickr_buffer_copy(source->sig_data);
     
-    return wickr_ecdsa_result_create(source->curve, source->digest_mode, sig_data_copy);
+    wickr_ecdsa_result_t *copy = wickr_ecdsa_result_create(source->curve, source->digest_mode, sig_data_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy(&sig_data_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_ecdsa_result_destroy(wickr_ecdsa_result_t **result)
-- 
2.43.0


From ef6d170741262e5fa2cb43004fe49ab6bf673d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 39/63] fix: report a handshake that can not be finalized and
 release its volley packet

---
 src/wickrcrypto/src/transport_ctx.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 6a8e884..a4bdfc7 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -255,8 +255,11 @@ static void __wickr_transport_validate_identity_complete(const wickr_transport_c
     
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
     
-    if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(_ctx);
+    if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION &&
+        !__wickr_transport_ctx_finalize_handshake(_ctx)) {
+        wickr_transport_packet_destroy(&volley_packet);
+        __wickr_transport_ctx_set_error(_ctx, TRANSPORT_ERROR_HANDSHAKE_FAILED);
+        return;
     }
     
     if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
@@ -386,8 +389,11 @@ static void __wickr_transport_ctx_process_handshake_packet(wickr_transport_ctx_t
     /* Process the packet with the handshake */
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_process(ctx->pending_handshake, packet);
     
-    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(ctx);
+    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION &&
+        !__wickr_transport_ctx_finalize_handshake(ctx)) {
+        wickr_transport_packet_destroy(&volley_packet);
+        __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED);
+        return;
     }
     
     if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
-- 
2.43.0


From 55e0ce344dae4140eed4e07f3397613cedf3bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 40/63] fix: wipe serialized storage keys before releasing them

---
 src/wickrcrypto/src/storage_priv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wickrcrypto/src/storage_priv.c b/src/wickrcrypto/src/storage_priv.c
index c517010..c43cd82 100644
--- a/src/wickrcrypto/src/storage_priv.c
+++ b/src/wickrcrypto/src/storage_priv.c
@@ -11,7 +11,9 @@ void wickr_storage_keys_proto_free(Wickr__Proto__StorageKeys *proto_keys)
         return;
     }
     
+    wickr_zero(proto_keys->local_storage.data, proto_keys->local_storage.len);
     wickr_free(proto_keys->local_storage.data);
+    wickr_zero(proto_keys->remote_storage.data, proto_keys->remote_storage.len);
     wickr_free(proto_keys->remote_storage.data);
     wickr_free(proto_keys);
 }
-- 
2.43.0


From 34997e91ba926dca4fcc553a7a3ed3bb273b402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 41/63] fix: wipe a serialized stream key before releasing it

---
 src/wickrcrypto/src/stream_key_priv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/stream_key_priv.c b/src/wickrcrypto/src/stream_key_priv.c
index 57c0edf..a1f24ac 100644
--- a/src/wickrcrypto/src/stream_key_priv.c
+++ b/src/wickrcrypto/src/stream_key_priv.c
@@ -8,6 +8,7 @@ void wickr_stream_key_proto_free(Wickr__Proto__StreamKey *proto_key)
     if (!proto_key) {
         return;
     }
+    wickr_zero(proto_key->cipher_key.data, proto_key->cipher_key.len);
     wickr_free(proto_key->cipher_key.data);
     wickr_free(proto_key);
 }
-- 
2.43.0


From 3786c02d55b4eccb3fe37f40bd932033a2ae035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 42/63] fix: wipe a serialized transport root key before
 releasing it

---
 src/wickrcrypto/src/transport_root_key_priv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/transport_root_key_priv.c b/src/wickrcrypto/src/transport_root_key_priv.c
index c9ea99b..44e240f 100644
--- a/src/wickrcrypto/src/transport_root_key_priv.c
+++ b/src/wickrcrypto/src/transport_root_key_priv.c
@@ -72,6 +72,7 @@ void wickr_transport_root_key_proto_free(Wickr__Proto__TransportRootKey *root_ke
         return;
     }
     
+    wickr_zero(root_key_proto->secret.data, root_key_proto->secret.len);
     wickr_free(root_key_proto->secret.data);
     wickr_free(root_key_proto);
 }
-- 
2.43.0


From 19f0c34c8027a6abdf063587a4b1e0ec139ad3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 43/63] fix: do not copy a cipher result without its tag when
 the tag can not be copied

---
 src/wickrcrypto/src/cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/cipher.c b/src/wickrcrypto/src/cipher.c
index f7ff823..8f31c88 100644
--- a/src/wickrcrypto/src/cipher.c
+++ b/src/wickrcrypto/src/cipher.c
@@ -62,8 +62,8 @@ wickr_cipher_result_t *wickr_cipher_result_copy(const wickr_cipher_result_t *res
     
     wickr_cipher_result_t *copy = NULL;
     
-    /* A copy that could not take over the cipher text is not a copy */
-    if (!result->cipher_text || cipher_text_copy) {
+    /* A copy that could not take over the cipher text or the tag is not a copy */
+    if ((!result->cipher_text || cipher_text_copy) && (!result->auth_tag || auth_tag_copy)) {
         copy = wickr_cipher_result_create(result->cipher, iv_copy, cipher_text_copy, auth_tag_copy);
     }
     
-- 
2.43.0


From bbc219202787a4a0632ec46c2f65be3843ef79aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 44/63] fix: do not serialize a signature without its padding
 when the padding can not be allocated

---
 src/wickrcrypto/src/ecdsa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/src/ecdsa.c b/src/wickrcrypto/src/ecdsa.c
index 9f5baa1..cd21803 100644
--- a/src/wickrcrypto/src/ecdsa.c
+++ b/src/wickrcrypto/src/ecdsa.c
@@ -78,6 +78,10 @@ wickr_buffer_t *wickr_ecdsa_result_serialize(const wickr_ecdsa_result_t *result)
     pad_count_buffer.length = sizeof(uint8_t);
     
     wickr_buffer_t *pad_buffer = wickr_buffer_create_empty_zero(pad_count);
+    
+    if (pad_count > 0 && !pad_buffer) {
+        return NULL;
+    }
 
     wickr_buffer_t *buffers[] = { &meta_buffer, &pad_count_buffer, pad_buffer, result->sig_data };
     
-- 
2.43.0


From ef658e559f2e1ed4828f58c403d60ebc17d2c277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 45/63] fix: do not copy an identity without its signature when
 the signature can not be copied

---
 src/wickrcrypto/src/identity.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/identity.c b/src/wickrcrypto/src/identity.c
index e215af8..171f9e1 100644
--- a/src/wickrcrypto/src/identity.c
+++ b/src/wickrcrypto/src/identity.c
@@ -91,6 +91,12 @@ wickr_identity_t *wickr_identity_copy(const wickr_identity_t *source)
     
     wickr_ecdsa_result_t *sig_copy = wickr_ecdsa_result_copy(source->signature);
     
+    if (source->signature && !sig_copy) {
+        wickr_buffer_destroy(&identifier_copy);
+        wickr_ec_key_destroy(&sig_key_copy);
+        return NULL;
+    }
+    
     wickr_identity_t *copy = wickr_identity_create(source->type, identifier_copy, sig_key_copy, sig_copy);
     
     if (!copy) {
-- 
2.43.0


From f99dd0b223956a73200bfd164e2bd82a51f90f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 46/63] fix: do not copy a parse result in part when a member
 can not be copied

---
 src/wickrcrypto/src/protocol.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index aab45ee..13b0a3f 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -498,7 +498,12 @@ wickr_parse_result_t *wickr_parse_result_copy(const wickr_parse_result_t *source
     wickr_cipher_result_t *enc_payload_copy = wickr_cipher_result_copy(source->enc_payload);
     wickr_key_exchange_t *key_exchange_copy = wickr_key_exchange_copy(source->key_exchange);
     
-    wickr_parse_result_t *copy = __wickr_parse_result_create(header_copy, key_exchange_copy, enc_payload_copy, source->signature_status, source->err);
+    wickr_parse_result_t *copy = NULL;
+    
+    if ((header_copy || !source->key_exchange_set) && (enc_payload_copy || !source->enc_payload) &&
+        (key_exchange_copy || !source->key_exchange)) {
+        copy = __wickr_parse_result_create(header_copy, key_exchange_copy, enc_payload_copy, source->signature_status, source->err);
+    }
     
     if (!copy) {
         wickr_key_exchange_set_destroy(&header_copy);
-- 
2.43.0


From 000baa4280bb779577ce817ade56192b7e9ff1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 47/63] fix: do not copy a stream context without its IV
 factory when the factory can not be copied

---
 src/wickrcrypto/src/stream_ctx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/stream_ctx.c b/src/wickrcrypto/src/stream_ctx.c
index 4fdfdfe..345485c 100644
--- a/src/wickrcrypto/src/stream_ctx.c
+++ b/src/wickrcrypto/src/stream_ctx.c
@@ -51,7 +51,7 @@ wickr_stream_ctx_t *wickr_stream_ctx_copy(const wickr_stream_ctx_t *ctx)
     
     wickr_stream_iv_t *iv_copy = wickr_stream_iv_copy(ctx->iv_factory);
     
-    if (!iv_copy && ctx->direction == STREAM_DIRECTION_ENCODE) {
+    if (!iv_copy && (ctx->iv_factory || ctx->direction == STREAM_DIRECTION_ENCODE)) {
         wickr_stream_key_destroy(&key_copy);
         return NULL;
     }
-- 
2.43.0


From ab042acd1fca0c1a6c053531e6fe8ddca6a60c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 48/63] fix: report a signature that does not fit its raw form
 instead of returning zeros

---
 src/wickrcrypto/src/openssl_suite.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 5469692..3ae3d6b 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -982,8 +982,9 @@ int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
 int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
     unsigned int out_buffer_len = (unsigned int)out_buffer->length;
     
-    return BN_bn2binpad(ECDSA_SIG_get0_r(sig), out_buffer->bytes, out_buffer_len / 2) &&
-        BN_bn2binpad(ECDSA_SIG_get0_s(sig), out_buffer->bytes + out_buffer_len / 2, out_buffer_len / 2);
+    /* BN_bn2binpad returns -1 when the number does not fit */
+    return BN_bn2binpad(ECDSA_SIG_get0_r(sig), out_buffer->bytes, out_buffer_len / 2) > 0 &&
+        BN_bn2binpad(ECDSA_SIG_get0_s(sig), out_buffer->bytes + out_buffer_len / 2, out_buffer_len / 2) > 0;
 }
 #else
 int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
-- 
2.43.0


From 5fb95776db2b07cb95c86e62bde4f1c0150dc176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 49/63] fix: do not start a handshake without the expected
 remote identity when it can not be copied

---
 src/wickrcrypto/src/transport_ctx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index a4bdfc7..6dbc4c9 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -294,6 +294,11 @@ static wickr_transport_handshake_t *__wickr_transport_ctx_create_handshake(const
     wickr_identity_chain_t *local_copy = wickr_identity_chain_copy(ctx->local_identity);
     wickr_identity_chain_t *remote_copy = wickr_identity_chain_copy(ctx->remote_identity);
     
+    if (ctx->remote_identity && !remote_copy) {
+        wickr_identity_chain_destroy(&local_copy);
+        return NULL;
+    }
+    
     wickr_transport_handshake_t *handshake = wickr_transport_handshake_create(ctx->engine,
                                                                               local_copy,
                                                                               remote_copy,
-- 
2.43.0


From 2c489a1ff6a677f4b51be187a26836ffeeb9b8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:14 +0000
Subject: [PATCH 50/63] fix: refuse to decrypt with a key that is shorter than
 the cipher requires

---
 src/wickrcrypto/src/openssl_suite.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 3ae3d6b..e5d532f 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -542,6 +542,11 @@ wickr_buffer_t *openssl_aes256_decrypt(const wickr_cipher_result_t *cipher_resul
         return NULL;
     }
     
+    /* OpenSSL reads as many bytes of the key as the cipher requires */
+    if (key->key_data->length != cipher_result->cipher.key_len) {
+        return NULL;
+    }
+    
     /* OpenSSL does not allow decryption of buffers greater than INT_MAX in length */
     if (key->cipher.cipher_id != cipher_result->cipher.cipher_id || cipher_result->cipher_text->length > INT_MAX) {
         return NULL;
-- 
2.43.0


From 36a14ac8dc2c6327b774f4ef1c1c8dbd622111e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:02 +0000
Subject: [PATCH 51/63] fix: bind the cached node status to the status of its
 identity chain

---
 src/wickrcrypto/src/node_priv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/node_priv.c b/src/wickrcrypto/src/node_priv.c
index 3920203..8be1d77 100644
--- a/src/wickrcrypto/src/node_priv.c
+++ b/src/wickrcrypto/src/node_priv.c
@@ -123,6 +123,7 @@ wickr_buffer_t *wickr_node_make_status_cache(const wickr_node_t *node,
     wickr_buffer_t *buffers[] = {
         node->ephemeral_keypair->ec_key->pub_data,
         node->ephemeral_keypair->signature->sig_data,
+        node->id_chain->_status_cache,
         &status_buffer
     };
     
-- 
2.43.0


From 084651042959222e4693d8572245d8ba96619920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 52/63] fix: release a handshake response that carries no root
 key

---
 src/wickrcrypto/src/transport_handshake.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index d88ff32..e10dda1 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -488,6 +488,7 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
     wickr_buffer_destroy_zero(&response_buffer);
     
     if (!response_data || !response_data->root_key) {
+        wickr__proto__handshake_v1_response_data__free_unpacked(response_data, NULL);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return;
     }
-- 
2.43.0


From fc211c6b42d51a83c6bb6e78f27d9572a514059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 53/63] fix: a packet that fails to decrypt no longer advances
 its stream

---
 src/wickrcrypto/src/stream_ctx.c | 47 +++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/wickrcrypto/src/stream_ctx.c b/src/wickrcrypto/src/stream_ctx.c
index 345485c..e6946e4 100644
--- a/src/wickrcrypto/src/stream_ctx.c
+++ b/src/wickrcrypto/src/stream_ctx.c
@@ -132,27 +132,28 @@ static wickr_stream_key_t *__wickr_stream_key_create_with_evo_buffer(wickr_strea
     return new_key;
 }
 
-static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder, uint64_t seq_num)
+/* Find the key for seq_num, leaving the context as it is. The result is the key of the context itself when no evolution is due */
+static wickr_stream_key_t *__wickr_stream_ctx_evolove_key_material(const wickr_stream_ctx_t *encoder, uint64_t seq_num)
 {
     if (!encoder) {
-        return false;
+        return NULL;
     }
     
     uint64_t curr_evo = encoder->last_seq / encoder->key->packets_per_evolution;
     uint64_t seq_evo = seq_num / encoder->key->packets_per_evolution;
 
     if (seq_evo < curr_evo) {
-        return false;
+        return NULL;
     }
     
     if (seq_evo == curr_evo) {
-        return true;
+        return encoder->key;
     }
     
     wickr_stream_key_t *curr_key = wickr_stream_key_copy(encoder->key);
     
     if (!curr_key) {
-        return false;
+        return NULL;
     }
     
     while (curr_evo != seq_evo) {
@@ -163,7 +164,7 @@ static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder,
         
         if (!evo_buffer) {
             wickr_stream_key_destroy(&curr_key);
-            return false;
+            return NULL;
         }
         
         wickr_stream_key_t *new_key = __wickr_stream_key_create_with_evo_buffer(curr_key, evo_buffer);
@@ -171,17 +172,27 @@ static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder,
         wickr_buffer_destroy_zero(&evo_buffer);
 
         if (!new_key) {
-            return false;
+            return NULL;
         }
         
         curr_key = new_key;
         curr_evo++;
     }
     
-    wickr_stream_key_destroy(&encoder->key);
-    encoder->key = curr_key;
+    return curr_key;
+}
+
+/* Advance the context to seq_num and the key found for it, if that packet was processed successfully */
+static void __wickr_stream_ctx_finish(wickr_stream_ctx_t *ctx, wickr_stream_key_t *key, uint64_t seq_num, bool success)
+{
+    if (key != ctx->key) {
+        wickr_stream_key_destroy(success ? &ctx->key : &key);
+    }
     
-    return true;
+    if (success) {
+        ctx->key = key;
+        ctx->last_seq = seq_num;
+    }
 }
 
 wickr_cipher_result_t *wickr_stream_ctx_encode(wickr_stream_ctx_t *ctx, const wickr_buffer_t *data, const wickr_buffer_t *aad, uint64_t seq_num)
@@ -196,15 +207,17 @@ wickr_cipher_result_t *wickr_stream_ctx_encode(wickr_stream_ctx_t *ctx, const wi
         return NULL;
     }
     
-    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num)) {
+    wickr_stream_key_t *key = __wickr_stream_ctx_evolove_key_material(ctx, seq_num);
+    
+    if (!key) {
         wickr_buffer_destroy(&iv);
         return NULL;
     }
     
-    wickr_cipher_result_t *encrypt_result = ctx->engine.wickr_crypto_engine_cipher_encrypt(data, aad, ctx->key->cipher_key, iv);
+    wickr_cipher_result_t *encrypt_result = ctx->engine.wickr_crypto_engine_cipher_encrypt(data, aad, key->cipher_key, iv);
     wickr_buffer_destroy(&iv);
     
-    ctx->last_seq = seq_num;
+    __wickr_stream_ctx_finish(ctx, key, seq_num, encrypt_result != NULL);
     
     return encrypt_result;
 }
@@ -215,13 +228,15 @@ wickr_buffer_t *wickr_stream_ctx_decode(wickr_stream_ctx_t *ctx, const wickr_cip
         return NULL;
     }
     
-    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num)) {
+    wickr_stream_key_t *key = __wickr_stream_ctx_evolove_key_material(ctx, seq_num);
+    
+    if (!key) {
         return NULL;
     }
     
-    wickr_buffer_t *decrypt_result = ctx->engine.wickr_crypto_engine_cipher_decrypt(data, aad, ctx->key->cipher_key, true);
+    wickr_buffer_t *decrypt_result = ctx->engine.wickr_crypto_engine_cipher_decrypt(data, aad, key->cipher_key, true);
     
-    ctx->last_seq = seq_num;
+    __wickr_stream_ctx_finish(ctx, key, seq_num, decrypt_result != NULL);
     
     return decrypt_result;
 }
-- 
2.43.0


From ed23bf2da2888fe44c924d4618d3151786fd3749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 54/63] fix: signing a transport packet again gives a signature
 that verifies

---
 src/wickrcrypto/src/transport_packet.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wickrcrypto/src/transport_packet.c b/src/wickrcrypto/src/transport_packet.c
index 516b4a6..d91f2fd 100644
--- a/src/wickrcrypto/src/transport_packet.c
+++ b/src/wickrcrypto/src/transport_packet.c
@@ -292,10 +292,14 @@ bool wickr_transport_packet_sign(wickr_transport_packet_t *pkt, const wickr_cryp
     }
     
     wickr_transport_packet_mac_type old_mac_type = pkt->meta.mac_type;
+    wickr_buffer_t *old_mac = pkt->mac;
     
+    /* The signature covers everything before the mac, so a mac that is already there is not a part of it */
     pkt->meta.mac_type = new_mac_type;
+    pkt->mac = NULL;
     wickr_buffer_t *data_to_sign = wickr_transport_packet_serialize(pkt);
     pkt->meta.mac_type = old_mac_type;
+    pkt->mac = old_mac;
     
     if (!data_to_sign) {
         return false;
@@ -315,6 +319,9 @@ bool wickr_transport_packet_sign(wickr_transport_packet_t *pkt, const wickr_cryp
         return false;
     }
     
+    wickr_buffer_destroy(&pkt->mac);
+    wickr_buffer_destroy(&pkt->network_buffer);
+    
     pkt->mac = signature_buffer;
     pkt->meta.mac_type = new_mac_type;
     
-- 
2.43.0


From 9964add0b458a94104077eb2e30ccb68161b60bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 55/63] fix: accepting an identity does not revive a transport
 that is in the error state

---
 src/wickrcrypto/src/transport_ctx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 6dbc4c9..1789bdb 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -253,6 +253,11 @@ static void __wickr_transport_validate_identity_complete(const wickr_transport_c
     /* Remove const for internal work */
     wickr_transport_ctx_t *_ctx = (wickr_transport_ctx_t *)ctx;
     
+    /* After an error communication is no longer possible, whether or not the identity is valid */
+    if (_ctx->status == TRANSPORT_STATUS_ERROR) {
+        return;
+    }
+    
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
     
     if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION &&
-- 
2.43.0


From 0485a613e08d53a6dece6e15bd48641ae62e07dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 56/63] fix: a handshake packet is not decoded as transport
 data

---
 src/wickrcrypto/src/transport_ctx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 1789bdb..8f330ac 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -154,6 +154,11 @@ static wickr_buffer_t *__wickr_transport_ctx_decode_pkt(const wickr_transport_ct
         return NULL;
     }
     
+    if (pkt->meta.body_type != TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT) { /* Only data packets have a sequence number */
+        wickr_cipher_result_destroy(&cipher_result);
+        return NULL;
+    }
+    
     wickr_buffer_t *aad_buffer = wickr_transport_packet_meta_serialize(&pkt->meta);
     
     if (!aad_buffer) {
-- 
2.43.0


From c1e6d73506eb5443b8049072ac274d0a6c8af283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:01 +0000
Subject: [PATCH 57/63] fix: a handshake that cannot ask about an identity is
 failed

---
 src/wickrcrypto/src/transport_handshake.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index e10dda1..14c8ab7 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -730,6 +730,7 @@ wickr_transport_packet_t *wickr_transport_handshake_process(wickr_transport_hand
         wickr_identity_chain_t *identity_chain_copy = wickr_identity_chain_copy(handshake->remote_identity);
         
         if (handshake->status == TRANSPORT_HANDSHAKE_STATUS_FAILED || identity_chain_copy == NULL) {
+            handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
             return NULL;
         }
         
-- 
2.43.0


From 5658956459e0358f8b8ce00019f9f99244ae6978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 58/63] fix: decoding base64 stays within the buffer and the
 decoding table

---
 src/wickrcrypto/src/util.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/wickrcrypto/src/util.c b/src/wickrcrypto/src/util.c
index a76a634..f8770bb 100644
--- a/src/wickrcrypto/src/util.c
+++ b/src/wickrcrypto/src/util.c
@@ -97,11 +97,12 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
 	const char * objPointer = (const char *)strBase64->bytes;
 	if (objPointer == NULL)  return NULL;
 
-	size_t intLength = strlen(objPointer);
-    if (intLength > strBase64->length)
-        intLength = strBase64->length;
+	// The buffer does not have to be NUL terminated
+	size_t intLength = 0;
+	while (intLength < strBase64->length && objPointer[intLength] != '\0')
+		intLength++;
     
-	int intCurrent;
+	int intCurrent = 0;
 	int i = 0, j = 0, k;
 
     wickr_buffer_t *objResult;
@@ -110,9 +111,10 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
         return NULL;
     
 	// Run through the whole string, converting as we go
-	while ( ((intCurrent = *objPointer++) != '\0') && (intLength-- > 0) ) {
+	while (intLength-- > 0) {
+		intCurrent = (unsigned char)*objPointer++;
 		if (intCurrent == '=') {
-			if (*objPointer != '=' && ((i % 4) == 1)) {// || (intLength > 0)) {
+			if ((intLength == 0 || *objPointer != '=') && ((i % 4) == 1)) {// || (intLength > 0)) {
 				// the padding character is invalid at this point -- so this entire string is invalid
                 wickr_buffer_destroy(&objResult);
 				return NULL;
-- 
2.43.0


From 237660403f0789059413f191e07545928bb0df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 59/63] fix: decoding a hex string stays within the buffer

---
 src/wickrcrypto/src/util.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/util.c b/src/wickrcrypto/src/util.c
index f8770bb..b88d8b6 100644
--- a/src/wickrcrypto/src/util.c
+++ b/src/wickrcrypto/src/util.c
@@ -229,7 +229,15 @@ getDataFromHexString(const wickr_buffer_t *hexString)
         return NULL;
     
     const char * bytes = (const char *)hexString->bytes;
-    size_t length = strlen(bytes);
+    if (!bytes)
+        return NULL;
+
+    /* The buffer does not have to be NUL terminated */
+    size_t length = 0;
+    while (length < hexString->length && bytes[length] != '\0') {
+        length++;
+    }
+
     wickr_buffer_t *result = wickr_buffer_create_empty((length / 2));
     if (!result)
         return NULL;
@@ -239,7 +247,7 @@ getDataFromHexString(const wickr_buffer_t *hexString)
     if (r != NULL) {
         unsigned char * index = r;
         
-        while ((*bytes) && (*(bytes +1))) {
+        for (size_t i = 0; i < length / 2; i++) {
             *index = strToChar(*bytes, *(bytes +1));
             index++;
             bytes+=2;
-- 
2.43.0


From 1887020183bf01d4d460454e73d0c4703da7fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 60/63] fix: refuse an HKDF output size that does not fit
 instead of truncating it

---
 src/wickrcrypto/src/kdf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index c233f66..7374ad0 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -67,6 +67,11 @@ wickr_kdf_meta_t *wickr_kdf_meta_create_hkdf_expand(const wickr_digest_t *digest
         return NULL;
     }
     
+    // The output size is stored as a single byte
+    if (output_size > UINT8_MAX) {
+        return NULL;
+    }
+    
     wickr_kdf_algo_t algo = KDF_HKDF_SHA512_EXPAND;
     algo.output_size = output_size;
     
-- 
2.43.0


From 1469ba0252587edd1a27e4e6b45923c5fce21500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:24 +0000
Subject: [PATCH 61/63] fix: copy a transport context whose remote identity is
 not known yet

---
 src/wickrcrypto/src/transport_ctx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 8f330ac..980d311 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -76,7 +76,7 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
     
     wickr_identity_chain_t *remote_copy = wickr_identity_chain_copy(ctx->remote_identity);
     
-    if (!remote_copy) {
+    if (!remote_copy && ctx->remote_identity) {
         wickr_identity_chain_destroy(&local_copy);
         return NULL;
     }
-- 
2.43.0


From 307cd2ce3aac8f0339d8151575f2fd6026a02d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:24 +0000
Subject: [PATCH 62/63] fix: a copied transport context keeps the error of its
 source

---
 src/wickrcrypto/src/transport_ctx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 980d311..0a2031d 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -117,6 +117,7 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
     copy->callbacks = ctx->callbacks;
     copy->evo_count = ctx->evo_count;
     copy->user = ctx->user;
+    copy->err = ctx->err;
     
     return copy;
 }
-- 
2.43.0


From 2fbe549646fb98708f87b57a945d57eb7849c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:24 +0000
Subject: [PATCH 63/63] fix: a copied transport packet keeps the bytes it was
 received as

---
 src/wickrcrypto/src/transport_packet.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/wickrcrypto/src/transport_packet.c b/src/wickrcrypto/src/transport_packet.c
index d91f2fd..5a9c7d8 100644
--- a/src/wickrcrypto/src/transport_packet.c
+++ b/src/wickrcrypto/src/transport_packet.c
@@ -162,16 +162,26 @@ wickr_transport_packet_t *wickr_transport_packet_copy(const wickr_transport_pack
         return NULL;
     }
     
+    wickr_buffer_t *network_buffer_copy = wickr_buffer_copy(pkt->network_buffer);
+    
+    if (pkt->network_buffer && !network_buffer_copy) {
+        wickr_buffer_destroy(&body_copy);
+        wickr_buffer_destroy(&mac_copy);
+        return NULL;
+    }
+    
     wickr_transport_packet_t *copy =wickr_transport_packet_create(pkt->meta,
                                                                   body_copy);
     
     if (!copy) {
         wickr_buffer_destroy(&body_copy);
         wickr_buffer_destroy(&mac_copy);
+        wickr_buffer_destroy(&network_buffer_copy);
         return NULL;
     }
     
     copy->mac = mac_copy;
+    copy->network_buffer = network_buffer_copy;
     
     return copy;
 }
-- 
2.43.0


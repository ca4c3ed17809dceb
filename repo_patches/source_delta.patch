From c7b9c7a0d8d57b83453ae16461affb62cb06536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:39 +0000
Subject: [PATCH 01/28] fix: random generator fails closed and survives cleanup

bytes() went on generating from an unseeded state when seeding failed, the
lock was used when it could not be taken or created, and cleanup() freed a
lock that a later call would still use. Create the lock when the engine is
bound, refuse to generate without lock or seed, keep the lock on cleanup.
---
 engine/dstu.c |  3 ++-
 engine/rbg.c  | 35 ++++++++++++++++++++++-------------
 engine/rbg.h  |  3 +++
 3 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/engine/dstu.c b/engine/dstu.c
index 767705f..e066b00 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -187,7 +187,8 @@ static int dstu_bind(ENGINE *e, const char *id)
     if (id && strcmp(id, engine_dstu_id))
         return 0;
 
-    if (!ENGINE_set_id(e, engine_dstu_id) ||
+    if (!dstu_rbg_lock_new() ||
+        !ENGINE_set_id(e, engine_dstu_id) ||
         !ENGINE_set_name(e, engine_dstu_name) ||
         !ENGINE_set_init_function(e, dstu_engine_init) ||
         !ENGINE_set_finish_function(e, dstu_engine_finish) ||
diff --git a/engine/rbg.c b/engine/rbg.c
index f7912a0..86b392e 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -18,19 +18,27 @@ static u4 s[2];
 static gost_ctx cryptor;
 static int initialized = 0;
 static CRYPTO_RWLOCK *dstu_rand_lock = NULL;
-static CRYPTO_ONCE rand_lock_init = CRYPTO_ONCE_STATIC_INIT;
 
 /* DSTU RGB needs at least 40 bytes of seed to work properly */
 #define DSTU_RGB_SEED_SIZE 40
 
-static void do_rand_lock_init(void)
+/* The lock lives as long as the engine is bound: the generator may be used again after cleanup */
+int dstu_rbg_lock_new(void)
 {
-    dstu_rand_lock = CRYPTO_THREAD_lock_new();
+    if (dstu_rand_lock == NULL)
+        dstu_rand_lock = CRYPTO_THREAD_lock_new();
+    return dstu_rand_lock != NULL;
+}
+
+void dstu_rbg_lock_free(void)
+{
+    CRYPTO_THREAD_lock_free(dstu_rand_lock);
+    dstu_rand_lock = NULL;
 }
 
 static int dstu_lock()
 {
-    if (!CRYPTO_THREAD_run_once(&rand_lock_init, do_rand_lock_init) || dstu_rand_lock == NULL)
+    if (dstu_rand_lock == NULL)
         return 0;
     return CRYPTO_THREAD_write_lock(dstu_rand_lock);
 }
@@ -112,7 +120,8 @@ static int dstu_rbg_status_nolock(void)
 
 static int dstu_rbg_status(void)
 {
-    dstu_lock();
+    if (!dstu_lock())
+        return 0;
 
     int status = dstu_rbg_status_nolock();
 
@@ -125,14 +134,14 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
 {
     u4 i;
     byte j;
-    int rv = 1;
 
-    dstu_lock();
+    if (!dstu_lock())
+        return 0;
 
-    if (!initialized)
+    if (!initialized && !dstu_rbg_status_nolock())
     {
-        if (!dstu_rbg_status_nolock())
-            rv = 0;
+        dstu_unlock();
+        return 0;
     }
 
     for (i = 0; i < (unsigned)num; i++)
@@ -146,12 +155,13 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
 
     dstu_unlock();
 
-    return rv;
+    return 1;
 }
 
 static void dstu_rbg_cleanup(void)
 {
-    dstu_lock();
+    if (!dstu_lock())
+        return;
 
     OPENSSL_cleanse(I, sizeof(I));
     OPENSSL_cleanse(s, sizeof(s));
@@ -159,7 +169,6 @@ static void dstu_rbg_cleanup(void)
     initialized = 0;
 
     dstu_unlock();
-    CRYPTO_THREAD_lock_free(dstu_rand_lock);
 }
 
 RAND_METHOD dstu_rand_meth =
diff --git a/engine/rbg.h b/engine/rbg.h
index 0c023c8..795ae17 100644
--- a/engine/rbg.h
+++ b/engine/rbg.h
@@ -3,4 +3,7 @@
 #include <openssl/ossl_typ.h>
 #include <openssl/rand.h>
 
+int dstu_rbg_lock_new(void);
+void dstu_rbg_lock_free(void);
+
 extern RAND_METHOD dstu_rand_meth;
-- 
2.43.0


From 9b5925d6fddee9cd542e2714d458ee47820d1610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:15 +0000
Subject: [PATCH 02/28] fix: engine objects live until the engine is destroyed

finish() freed the digest and the cipher without forgetting them, so that a
second init, a surviving context or a lookup by name used freed memory; the
key methods were created on first use by whichever thread came first; a
failed bind left pointers into the unloaded module behind. Create all methods
while binding, free them in a destroy function, undo a failed bind, and do
not add the PRF again when the engine is loaded again.
---
 engine/dstu.c | 62 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 2 deletions(-)

diff --git a/engine/dstu.c b/engine/dstu.c
index e066b00..1750486 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -94,14 +94,69 @@ static int dstu_engine_init(ENGINE *e)
 static int dstu_engine_finish(ENGINE *e)
 {
     (void) e; // Unused
+    return 1;
+}
+
+/* Everything below lives until the engine itself is destroyed: contexts and keys
+   may outlive the last functional reference, and the engine may be initialized again */
+static void dstu_methods_free(void)
+{
+    OBJ_NAME_remove(SN_dstu34311, OBJ_NAME_TYPE_MD_METH);
+    OBJ_NAME_remove(LN_dstu34311, OBJ_NAME_TYPE_MD_METH);
+    OBJ_NAME_remove(SN_dstu28147_cfb, OBJ_NAME_TYPE_CIPHER_METH);
+    OBJ_NAME_remove(LN_dstu28147_cfb, OBJ_NAME_TYPE_CIPHER_METH);
     dstu_cipher_free(dstu_cipher);
+    dstu_cipher = NULL;
     dstu_digest_free(dstu_md);
+    dstu_md = NULL;
+    dstu_rbg_lock_free();
+}
+
+static int dstu_methods_new(void)
+{
+    unsigned long long i = 0;
+    if (dstu_md_get() == NULL || dstu_cipher_get() == NULL || !dstu_rbg_lock_new())
+        return 0;
+    for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
+        if (dstu_pkey_meth_get(dstu_nids[i]) == NULL || dstu_asn1_meth_get(dstu_nids[i]) == NULL)
+            return 0;
+    return 1;
+}
+
+static int dstu_engine_destroy(ENGINE *e)
+{
+    unsigned long long i = 0;
+    (void) e; // Unused
+    dstu_methods_free();
+    /* libcrypto has already freed these */
+    for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
+    {
+        dstu_pkey_methods[i] = NULL;
+        dstu_asn1_methods[i] = NULL;
+    }
 
     ERR_unload_DSTU_strings();
 
     return 1;
 }
 
+static void dstu_bind_undo(ENGINE *e)
+{
+    unsigned long long i = 0;
+    ENGINE_unregister_digests(e);
+    ENGINE_unregister_ciphers(e);
+    ENGINE_unregister_pkey_meths(e);
+    ENGINE_unregister_pkey_asn1_meths(e);
+    dstu_methods_free();
+    for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
+    {
+        EVP_PKEY_meth_free(dstu_pkey_methods[i]);
+        dstu_pkey_methods[i] = NULL;
+        EVP_PKEY_asn1_free(dstu_asn1_methods[i]);
+        dstu_asn1_methods[i] = NULL;
+    }
+}
+
 static int dstu_digests(ENGINE *e, const EVP_MD **digest, const int **nids,
                         int nid)
 {
@@ -187,11 +242,12 @@ static int dstu_bind(ENGINE *e, const char *id)
     if (id && strcmp(id, engine_dstu_id))
         return 0;
 
-    if (!dstu_rbg_lock_new() ||
+    if (!dstu_methods_new() ||
         !ENGINE_set_id(e, engine_dstu_id) ||
         !ENGINE_set_name(e, engine_dstu_name) ||
         !ENGINE_set_init_function(e, dstu_engine_init) ||
         !ENGINE_set_finish_function(e, dstu_engine_finish) ||
+        !ENGINE_set_destroy_function(e, dstu_engine_destroy) ||
         !ENGINE_set_digests(e, dstu_digests) ||
         !ENGINE_set_ciphers(e, dstu_ciphers) ||
         !ENGINE_set_RAND(e, &dstu_rand_meth) ||
@@ -204,9 +260,11 @@ static int dstu_bind(ENGINE *e, const char *id)
         !ENGINE_register_pkey_asn1_meths(e) ||
         !EVP_add_digest(dstu_md_get()) ||
         !EVP_add_cipher(dstu_cipher_get()) ||
-        !EVP_PBE_alg_add_type(EVP_PBE_TYPE_PRF, NID_hmacWithDstu34311, -1, NID_dstu34311, NULL)) /* Adding our algorithms to support PBKDF2 */
+        (!EVP_PBE_find(EVP_PBE_TYPE_PRF, NID_hmacWithDstu34311, NULL, NULL, NULL) &&
+         !EVP_PBE_alg_add_type(EVP_PBE_TYPE_PRF, NID_hmacWithDstu34311, -1, NID_dstu34311, NULL))) /* Adding our algorithms to support PBKDF2 */
     {
         DSTUerr(DSTU_F_BIND_DSTU, ERR_R_EVP_LIB);
+        dstu_bind_undo(e);
         return 0;
     }
 
-- 
2.43.0


From 9bfb86b2d4af5f678e8f78702f1feea2e106bfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:28 +0000
Subject: [PATCH 03/28] fix: cipher keeps its s-box and IV across separate
 initialization calls

Initialization without an IV left a half-used gamma from the previous
stream, and every initialization dropped a custom s-box.
---
 engine/cipher.c | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index 7f145aa..2a7aafe 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -23,26 +23,45 @@
 /* 2 bytes for sequence header, 2 bytes for each octet string header and 8 bytes for iv and 64 bytes for dke. Total 78 < 128 so we are ok with 1 byte length */
 #define DSTU_CIPHER_ASN1_PARAM_SIZE (2 + 2 + DSTU_CIPHER_BLOCK_SIZE + 2 + sizeof(default_sbox))
 
+/* gost_ctx goes first: everything but the initialization uses the data as gost_ctx */
+struct dstu_cipher_ctx
+{
+    gost_ctx gctx;
+    int has_sbox;
+};
+
+/* Starts the stream over from the original IV */
+static void dstu_cipher_restart(EVP_CIPHER_CTX *ctx)
+{
+    gost_ctx *gctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
+
+    memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
+    gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
+    EVP_CIPHER_CTX_set_num(ctx, 0);
+}
+
 static int dstu_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                             const unsigned char *iv, int enc)
 {
     (void) enc; // Unused
     gost_subst_block sbox;
-    gost_ctx *gctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    struct dstu_cipher_ctx *cctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
 
-    unpack_sbox(default_sbox, &sbox);
-    gost_init(gctx, &sbox);
+    /* Key, IV and s-box may come in separate calls, do not drop a custom s-box */
+    if (!cctx->has_sbox)
+    {
+        unpack_sbox(default_sbox, &sbox);
+        gost_init(&cctx->gctx, &sbox);
+        cctx->has_sbox = 1;
+    }
 
     if (key)
-        gost_key(gctx, key);
+        gost_key(&cctx->gctx, key);
 
     if (iv)
-    {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
-        memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
-        gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
-        EVP_CIPHER_CTX_set_num(ctx, 0);
-    }
+
+    dstu_cipher_restart(ctx);
 
     return 1;
 }
@@ -160,8 +179,7 @@ static int dstu_cipher_ctrl(EVP_CIPHER_CTX *ctx, int cmd, int p1, void *p2)
                 return 0;
             unpack_sbox((unsigned char *) p2, &sbox);
             gost_init(gctx, &sbox);
-            memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
-            gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
+            dstu_cipher_restart(ctx);
             return 1;
         case EVP_CTRL_PBE_PRF_NID:
             if (!p2)
@@ -238,7 +256,7 @@ EVP_CIPHER *dstu_cipher_new()
         !EVP_CIPHER_meth_set_init(res, dstu_cipher_init) ||
         !EVP_CIPHER_meth_set_do_cipher(res, dstu_cipher_do_cipher) ||
         !EVP_CIPHER_meth_set_cleanup(res, dstu_cipher_cleanup) ||
-        !EVP_CIPHER_meth_set_impl_ctx_size(res, sizeof(gost_ctx)) ||
+        !EVP_CIPHER_meth_set_impl_ctx_size(res, sizeof(struct dstu_cipher_ctx)) ||
         !EVP_CIPHER_meth_set_set_asn1_params(res, dstu_cipher_set_asn1_parameters) ||
         !EVP_CIPHER_meth_set_get_asn1_params(res, dstu_cipher_get_asn1_parameters) ||
         !EVP_CIPHER_meth_set_ctrl(res, dstu_cipher_ctrl))
-- 
2.43.0


From 5aa23d965e86fa9bbb11080e11cbe6c19a85e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:18 +0000
Subject: [PATCH 04/28] fix: digest that is zero in the field counts as one

The check for zero came before the truncation to the field size, so a digest
with all the low bits zero made signing loop forever and verification reject
valid signatures.
---
 engine/sign.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine/sign.c b/engine/sign.c
index fd20c35..5a695d8 100644
--- a/engine/sign.c
+++ b/engine/sign.c
@@ -42,10 +42,14 @@ static int hash_to_field(const unsigned char *hash, int hash_len, BIGNUM *fe,
     }
 
     OPENSSL_free(h);
+
+    if (!bn_truncate_bits(fe, fieldsize))
+        return 0;
+
     if (BN_is_zero(fe))
-        BN_one(fe);
+        return BN_one(fe);
 
-    return bn_truncate_bits(fe, fieldsize);
+    return 1;
 }
 
 static int field_to_bn(BIGNUM *fe, const BIGNUM *order)
-- 
2.43.0


From 55dd906752458a05161f871695b8e73a74528bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:51 +0000
Subject: [PATCH 05/28] fix: signing checks the buffer size and encoding even
 when memory runs out

---
 engine/pmeth.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/engine/pmeth.c b/engine/pmeth.c
index 0c0592f..d1dc462 100644
--- a/engine/pmeth.c
+++ b/engine/pmeth.c
@@ -232,6 +232,7 @@ static int dstu_pkey_sign(EVP_PKEY_CTX *ctx, unsigned char *sig, size_t *siglen,
     DSTU_KEY* key = NULL;
     const EC_GROUP* group = NULL;
     int field_size, ret = 0;
+    int encoded_size;
     size_t encoded_sig_size = 0;
     ASN1_OCTET_STRING *dstu_sig = NULL;
     unsigned char *sig_data = NULL;
@@ -265,7 +266,7 @@ static int dstu_pkey_sign(EVP_PKEY_CTX *ctx, unsigned char *sig, size_t *siglen,
         goto err;
 
     field_size = BN_num_bytes(n);
-    encoded_sig_size = EVP_PKEY_size(pkey);
+    encoded_sig_size = ASN1_object_size(0, 2 * field_size, V_ASN1_OCTET_STRING);
 
     if (sig && encoded_sig_size > *siglen)
     {
@@ -294,7 +295,11 @@ static int dstu_pkey_sign(EVP_PKEY_CTX *ctx, unsigned char *sig, size_t *siglen,
         ASN1_STRING_set0((ASN1_STRING *) dstu_sig, sig_data, 2 * field_size);
         sig_data = NULL;
 
-        *siglen = i2d_ASN1_OCTET_STRING(dstu_sig, &sig);
+        encoded_size = i2d_ASN1_OCTET_STRING(dstu_sig, &sig);
+        if (encoded_size <= 0)
+            goto err;
+
+        *siglen = encoded_size;
     }
 
     ret = 1;
-- 
2.43.0


From d0aade200a8928dd620daab349036f57e886891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:12 +0000
Subject: [PATCH 06/28] fix: keys with the default s-box given or left out
 compare equal

---
 engine/ameth.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index d4b74cd..93c4345 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -135,20 +135,17 @@ static int dstu_asn1_param_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
 {
     DSTU_KEY *first = EVP_PKEY_get0(a);
     DSTU_KEY *second = EVP_PKEY_get0(b);
+    const unsigned char *first_sbox, *second_sbox;
 
     if (!first || !second)
         return -2;
 
-    if (first->sbox != second->sbox)
-    {
-        if (first->sbox && second->sbox)
-        {
-            if (memcmp(first->sbox, second->sbox, sizeof(default_sbox)))
-                return 0;
-        }
-        else
-            return 0;
-    }
+    /* No sbox means the default one */
+    first_sbox = first->sbox ? first->sbox : default_sbox;
+    second_sbox = second->sbox ? second->sbox : default_sbox;
+
+    if (memcmp(first_sbox, second_sbox, sizeof(default_sbox)))
+        return 0;
 
     if (EC_GROUP_cmp(EC_KEY_get0_group(first->ec),
                      EC_KEY_get0_group(second->ec), NULL))
-- 
2.43.0


From 083a6186abdd0d2e8f44b71c3cc43305e793f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:14 +0000
Subject: [PATCH 07/28] fix: comparing a key with bare parameters does not
 crash

---
 engine/ameth.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index 93c4345..81ecd03 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -629,15 +629,20 @@ static int dstu_asn1_pub_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
 {
     DSTU_KEY *first = EVP_PKEY_get0(a);
     DSTU_KEY *second = EVP_PKEY_get0(b);
+    const EC_POINT *first_point, *second_point;
 
     if (!first || !second)
         return -2;
 
+    first_point = EC_KEY_get0_public_key(first->ec);
+    second_point = EC_KEY_get0_public_key(second->ec);
+
+    if (!first_point || !second_point)
+        return -2;
+
     /* We do not compare sboxes here because it will be done in params_cmp by EVP API */
 
-    if (EC_POINT_cmp(EC_KEY_get0_group(first->ec),
-                     EC_KEY_get0_public_key(first->ec),
-                     EC_KEY_get0_public_key(second->ec), NULL))
+    if (EC_POINT_cmp(EC_KEY_get0_group(first->ec), first_point, second_point, NULL))
         return 0;
 
     return 1;
-- 
2.43.0


From 03104c864619b6c170703afe2ea5d8a509d8675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:25 +0000
Subject: [PATCH 08/28] fix: keys on a curve given with its cofactor are the
 same after export and import

---
 engine/pmeth.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/engine/pmeth.c b/engine/pmeth.c
index d1dc462..3d6be4e 100644
--- a/engine/pmeth.c
+++ b/engine/pmeth.c
@@ -154,6 +154,14 @@ static int dstu_pkey_ctrl(EVP_PKEY_CTX *ctx, int type, int p1, void *p2)
             if (!group)
                 return 0;
 
+            /* The cofactor is not a part of DSTU parameters, all other groups have it set to one */
+            if (!EC_GROUP_set_generator(group, EC_GROUP_get0_generator(group),
+                                        EC_GROUP_get0_order(group), BN_value_one()))
+            {
+                EC_GROUP_free(group);
+                return 0;
+            }
+
             DSTU_KEY_CTX_set(dstu_ctx, group, NULL);
             return 1;
         case EVP_PKEY_CTRL_MD:
-- 
2.43.0


From c8aba005b19f782cc71da2ea860d6fc0483a5fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:15 +0000
Subject: [PATCH 09/28] fix: field exponents too large for an int are rejected,
 not cut

---
 dstulib/key.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/dstulib/key.c b/dstulib/key.c
index aef4155..43b3f04 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -14,6 +14,7 @@
 #include <openssl/obj_mac.h>
 #include <openssl/objects.h>
 
+#include <limits.h>
 #include <string.h>
 
 DSTU_KEY *DSTU_KEY_new(void)
@@ -218,6 +219,17 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
     return ret;
 }
 
+/* Returns 0 if the integer cannot be a positive exponent of a field polynomial */
+static int exponent_from_asn1(const ASN1_INTEGER *value)
+{
+    long exponent = ASN1_INTEGER_get(value);
+
+    if ((exponent <= 0) || (exponent > INT_MAX))
+        return 0;
+
+    return (int) exponent;
+}
+
 EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec* spec, int is_little_endian)
 {
     BIGNUM *p, *a, *b, *N;
@@ -228,13 +240,13 @@ EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec* spec, int is_little_endian
     int poly[6];
     unsigned char *reverse_buffer = NULL;
 
-    poly[0] = ASN1_INTEGER_get(spec->field->m);
+    poly[0] = exponent_from_asn1(spec->field->m);
     if (poly[0] <= 0)
         goto err;
 
     if (DSTU_TRINOMIAL == spec->field->poly->type)
     {
-        poly[1] = ASN1_INTEGER_get(spec->field->poly->poly.k);
+        poly[1] = exponent_from_asn1(spec->field->poly->poly.k);
         if (poly[1] <= 0)
             goto err;
         poly[2] = 0;
@@ -242,15 +254,15 @@ EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec* spec, int is_little_endian
     }
     else
     {
-        poly[1] = ASN1_INTEGER_get(spec->field->poly->poly.pentanomial->l);
+        poly[1] = exponent_from_asn1(spec->field->poly->poly.pentanomial->l);
         if (poly[1] <= 0)
             goto err;
 
-        poly[2] = ASN1_INTEGER_get(spec->field->poly->poly.pentanomial->j);
+        poly[2] = exponent_from_asn1(spec->field->poly->poly.pentanomial->j);
         if (poly[2] <= 0)
             goto err;
 
-        poly[3] = ASN1_INTEGER_get(spec->field->poly->poly.pentanomial->k);
+        poly[3] = exponent_from_asn1(spec->field->poly->poly.pentanomial->k);
         if (poly[3] <= 0)
             goto err;
 
-- 
2.43.0


From 8061c38fa4249f605c66ed4fbc226fa29c2a3592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:08 +0000
Subject: [PATCH 10/28] fix: JKS reader never reads beyond the given data

---
 keylib/jks.c | 83 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 62 insertions(+), 21 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 3d1dd86..addb9f8 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -33,6 +33,12 @@ static void copyAt(const void* base, size_t shift, void* dest, size_t size)
     memcpy(dest, ptrAt(base, shift), size);
 }
 
+static int available(const void* base, const void* end, size_t shift, size_t size)
+{
+    const size_t total = (const unsigned char*)end - (const unsigned char*)base;
+    return shift <= total && size <= total - shift;
+}
+
 static uint16_t read16(const void* base, size_t shift)
 {
     uint16_t res = 0;
@@ -141,13 +147,23 @@ static int whiteHash(const void* d1, size_t ds1, const void* d2, size_t ds2, voi
     return ok;
 }
 
-static const void* parseCert(const void* data, KeyStore* ks, size_t* certPos)
+static const void* parseCert(const void* data, const void* end, KeyStore* ks, size_t* certPos)
 {
-    uint16_t typeLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength));
+    uint16_t typeLength = 0;
+    uint32_t dataLength = 0;
+    const unsigned char* dataPtr = NULL;
     X509* x509 = NULL;
 
+    if (!available(data, end, 0, sizeof(typeLength)))
+        return NULL;
+    typeLength = ntohs(read16(data, 0));
+    if (!available(data, end, sizeof(typeLength) + typeLength, sizeof(dataLength)))
+        return NULL;
+    dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));
+    if (!available(data, end, sizeof(typeLength) + typeLength + sizeof(dataLength), dataLength))
+        return NULL;
+    dataPtr = ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength));
+
     x509 = d2i_X509(NULL, &dataPtr, dataLength);
     if (x509 == NULL)
         return NULL;
@@ -169,7 +185,7 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
 {
     const size_t saltLength = 20;
     const size_t digestLength = 20;
-    const size_t encryptedLength = size - saltLength - digestLength;
+    const size_t encryptedLength = size > saltLength + digestLength ? size - saltLength - digestLength : 0;
     const size_t rounds = encryptedLength % digestLength > 0 ? 1 + encryptedLength / digestLength : encryptedLength / digestLength;
     const unsigned char* encrypted = ptrAt(data, saltLength);
     unsigned char* decrypted = NULL;
@@ -180,6 +196,9 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     size_t pos = 0;
     int r = 0;
 
+    if (encryptedLength == 0)
+        return 0;
+
     copyAt(data, 0, digest, saltLength);
 
     decrypted = OPENSSL_malloc(encryptedLength);
@@ -301,36 +320,52 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     return 1;
 }
 
-static const void* parseKey(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseKey(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint16_t nameLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(nameLength) + nameLength + 8)); // 8 bytes - 64-bit timestamp
-    uint32_t certNum = ntohl(read32(data, sizeof(nameLength) + nameLength + 8 + 4 + dataLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength));
-    const unsigned char* certPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength + sizeof(certNum));
+    uint16_t nameLength = 0;
+    uint32_t dataLength = 0;
+    uint32_t certNum = 0;
+    const unsigned char* dataPtr = NULL;
+    const unsigned char* certPtr = NULL;
     size_t i = 0;
 
+    if (!available(data, end, 0, sizeof(nameLength)))
+        return NULL;
+    nameLength = ntohs(read16(data, 0));
+    if (!available(data, end, sizeof(nameLength) + nameLength + 8, sizeof(dataLength)))
+        return NULL;
+    dataLength = ntohl(read32(data, sizeof(nameLength) + nameLength + 8)); // 8 bytes - 64-bit timestamp
+    if (!available(data, end, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength), dataLength) ||
+        !available(data, end, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength, sizeof(certNum)))
+        return NULL;
+    certNum = ntohl(read32(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength));
+    dataPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength));
+    certPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength + sizeof(certNum));
+
     if (decryptKey(dataPtr, dataLength, keyPass, keyPassSize, ks, keyPos, certPos) == 0)
         return NULL;
 
     for (i = 0; i < certNum; ++i)
     {
-        certPtr = parseCert(certPtr, ks, certPos);
+        certPtr = parseCert(certPtr, end, ks, certPos);
         if (certPtr == NULL)
             return NULL;
     }
     return certPtr;
 }
 
-static const void* parseEntry(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseEntry(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint32_t tag = ntohl(read32(data, 0));
+    uint32_t tag = 0;
+    if (!available(data, end, 0, sizeof(tag)))
+        return NULL;
+    tag = ntohl(read32(data, 0));
     switch (tag)
     {
         case JKS_ENTRY_PRIVATE_KEY:
-            return parseKey(ptrAt(data, sizeof(tag)), keyPass, keyPassSize, ks, keyPos, certPos);
+            return parseKey(ptrAt(data, sizeof(tag)), end, keyPass, keyPassSize, ks, keyPos, certPos);
         case JKS_ENTRY_CERT:
-            return parseCert(ptrAt(data, sizeof(tag)), ks, certPos);
+            return parseCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
     }
     return NULL;
 }
@@ -338,9 +373,9 @@ static const void* parseEntry(const void* data, const char* keyPass, size_t keyP
 int parseJKS(const void* data, size_t size, const char* storagePass, size_t storagePassSize, const char* keyPass, size_t keyPassSize, KeyStore** ks)
 {
     const size_t digestLength = 20;
-    uint32_t magic = read32(data, 0);
-    uint32_t entries = ntohl(read32(data, sizeof(magic) + 4)); // 4 bytes - 32-bit version
-    const unsigned char* entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
+    uint32_t magic = 0;
+    uint32_t entries = 0;
+    const unsigned char* entryPtr = NULL;
     unsigned char digest[digestLength];
     size_t i = 0;
     size_t j = 0;
@@ -349,7 +384,13 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     size_t keyPos = 0;
     size_t certPos = 0;
 
-    (void) size; // Unused
+    // Header and digest
+    if (size < sizeof(magic) + 4 + sizeof(entries) + digestLength)
+        return 0;
+
+    magic = read32(data, 0);
+    entries = ntohl(read32(data, sizeof(magic) + 4)); // 4 bytes - 32-bit version
+    entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
 
     // Check MAGIC
     if (magic != 0xedfeedfe && // JKS
@@ -366,7 +407,7 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
 
     for (i = 0; i < entries; ++i)
     {
-        entryPtr = parseEntry(entryPtr, keyPass, keyPassSize, *ks, &keyPos, &certPos);
+        entryPtr = parseEntry(entryPtr, ptrAt(data, size - digestLength), keyPass, keyPassSize, *ks, &keyPos, &certPos);
         if (entryPtr == NULL)
             break;
     }
-- 
2.43.0


From 0d8ce83fb37482f071e0e4bdf1f96202c77b699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:18 +0000
Subject: [PATCH 11/28] fix: JKS trusted certificate entries have an alias and
 a date too

---
 keylib/jks.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index addb9f8..b81e155 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -354,6 +354,18 @@ static const void* parseKey(const void* data, const void* end, const char* keyPa
     return certPtr;
 }
 
+static const void* parseTrustedCert(const void* data, const void* end, KeyStore* ks, size_t* certPos)
+{
+    uint16_t nameLength = 0;
+
+    if (!available(data, end, 0, sizeof(nameLength)))
+        return NULL;
+    nameLength = ntohs(read16(data, 0));
+    if (!available(data, end, sizeof(nameLength), nameLength + 8)) // 8 bytes - 64-bit timestamp
+        return NULL;
+    return parseCert(ptrAt(data, sizeof(nameLength) + nameLength + 8), end, ks, certPos);
+}
+
 static const void* parseEntry(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
     uint32_t tag = 0;
@@ -365,7 +377,7 @@ static const void* parseEntry(const void* data, const void* end, const char* key
         case JKS_ENTRY_PRIVATE_KEY:
             return parseKey(ptrAt(data, sizeof(tag)), end, keyPass, keyPassSize, ks, keyPos, certPos);
         case JKS_ENTRY_CERT:
-            return parseCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
+            return parseTrustedCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
     }
     return NULL;
 }
-- 
2.43.0


From 64ba673be342a080444358fb0430357a4812ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:18 +0000
Subject: [PATCH 12/28] fix: failed container reads do not hand back a released
 store

---
 keylib/jks.c    | 13 ++++++++-----
 keylib/pkcs12.c |  8 +++++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index b81e155..0a96b2d 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -395,6 +395,7 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     size_t pwd16Length = 0;
     size_t keyPos = 0;
     size_t certPos = 0;
+    KeyStore* res = NULL;
 
     // Header and digest
     if (size < sizeof(magic) + 4 + sizeof(entries) + digestLength)
@@ -415,24 +416,25 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     if (toUTF16BE(storagePass, storagePassSize, &pwd16, &pwd16Length) == 0)
         return 0;
 
-    *ks = KeyStoreNew(0, 0); // Start from zero
+    res = KeyStoreNew(0, 0); // Start from zero
 
     for (i = 0; i < entries; ++i)
     {
-        entryPtr = parseEntry(entryPtr, ptrAt(data, size - digestLength), keyPass, keyPassSize, *ks, &keyPos, &certPos);
+        entryPtr = parseEntry(entryPtr, ptrAt(data, size - digestLength), keyPass, keyPassSize, res, &keyPos, &certPos);
         if (entryPtr == NULL)
             break;
     }
 
     if (entryPtr == NULL)
     {
-        KeyStoreFree(*ks);
+        KeyStoreFree(res);
+        OPENSSL_free(pwd16);
         return 0;
     }
 
     if (whiteHash(pwd16, pwd16Length, data, entryPtr - (const unsigned char*)data, digest) == 0)
     {
-        KeyStoreFree(*ks);
+        KeyStoreFree(res);
         OPENSSL_free(pwd16);
         return 0;
     }
@@ -441,10 +443,11 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     for (j = 0; j < digestLength; ++j)
         if (digest[j] != entryPtr[j])
         {
-            KeyStoreFree(*ks);
+            KeyStoreFree(res);
             return 0;
         }
 
+    *ks = res;
     return 1;
 }
 
diff --git a/keylib/pkcs12.c b/keylib/pkcs12.c
index 48c5e2b..a450b1b 100644
--- a/keylib/pkcs12.c
+++ b/keylib/pkcs12.c
@@ -172,6 +172,7 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
     size_t numCerts = 0;
     size_t keyPos = 0;
     size_t certPos = 0;
+    KeyStore* res = NULL;
 
     if (pkcs12 == NULL)
         return 0;
@@ -198,11 +199,11 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
         return 0;
     }
 
-    *ks = KeyStoreNew(numKeys, numCerts);
+    res = KeyStoreNew(numKeys, numCerts);
 
-    if (fromSafes(safes, password, passSize, *ks, &keyPos, &certPos) == 0)
+    if (fromSafes(safes, password, passSize, res, &keyPos, &certPos) == 0)
     {
-        KeyStoreFree(*ks);
+        KeyStoreFree(res);
         sk_PKCS7_pop_free(safes, PKCS7_free);
         PKCS12_free(pkcs12);
         return 0;
@@ -211,6 +212,7 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
     sk_PKCS7_pop_free(safes, PKCS7_free);
     PKCS12_free(pkcs12);
 
+    *ks = res;
     return 1;
 }
 
-- 
2.43.0


From 455ac639e908fb77d42b5fbad0c3482552947554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:18 +0000
Subject: [PATCH 13/28] fix: JKS keys with an unknown protection are an error,
 not skipped

---
 keylib/jks.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/keylib/jks.c b/keylib/jks.c
index 0a96b2d..322b4fc 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -311,6 +311,15 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
             return 0;
         }
     }
+    else
+    {
+        // Unknown protection
+        ASN1_OBJECT_free(pbes1);
+        ASN1_OBJECT_free(keyProtector);
+        X509_SIG_free(epkInfo);
+        OPENSSL_free(pwd16);
+        return 0;
+    }
 
     ASN1_OBJECT_free(pbes1);
     ASN1_OBJECT_free(keyProtector);
-- 
2.43.0


From 55c934e55252b2af8933345e5b4c3085a30cd6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:32 +0000
Subject: [PATCH 14/28] fix: Key-6 checksum is verified

---
 keylib/key6.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/keylib/key6.c b/keylib/key6.c
index 43d2415..caae9ac 100644
--- a/keylib/key6.c
+++ b/keylib/key6.c
@@ -39,17 +39,24 @@ static void pkdf(const char* password, size_t passSize, unsigned char* key)
         hash(key, 32, key);
 }
 
-static int decryptKey6(const void* data, size_t size, const void* pad, size_t padSize, const char* password, size_t passSize, KeyStore** ks)
+static int decryptKey6(const ASN1_OCTET_STRING* mac, const void* data, size_t size, const void* pad, size_t padSize, const char* password, size_t passSize, KeyStore** ks)
 {
     gost_ctx ctx;
     gost_subst_block sbox;
     unsigned char key[32];
+    unsigned char check[4];
     const size_t sourceSize = size + padSize;
-    const size_t resSize = sourceSize + 8;
-    unsigned char* source = OPENSSL_malloc(sourceSize);
-    unsigned char* res = OPENSSL_malloc(resSize);
+    unsigned char* source = NULL;
+    unsigned char* res = NULL;
     int r = 0;
 
+    // Whole blocks only
+    if (sourceSize == 0 || sourceSize % 8 != 0)
+        return 0;
+
+    source = OPENSSL_malloc(sourceSize);
+    res = OPENSSL_malloc(sourceSize);
+
     unpack_sbox(default_sbox, &sbox);
     gost_init(&ctx, &sbox);
     pkdf(password, passSize, key);
@@ -60,8 +67,12 @@ static int decryptKey6(const void* data, size_t size, const void* pad, size_t pa
     gost_dec(&ctx, source, res, sourceSize / 8);
     OPENSSL_clear_free(source, sourceSize);
 
-    r = keysFromPKCS8(res, resSize, ks);
-    OPENSSL_clear_free(res, resSize);
+    // The checksum covers the data without padding
+    gost_mac(&ctx, 8 * sizeof(check), res, size, check);
+    if (ASN1_STRING_length(mac) == sizeof(check) &&
+        CRYPTO_memcmp(ASN1_STRING_get0_data(mac), check, sizeof(check)) == 0)
+        r = keysFromPKCS8(res, size, ks);
+    OPENSSL_clear_free(res, sourceSize);
     return r;
 }
 
@@ -90,12 +101,14 @@ int parseKey6(const void* data, size_t size, const char* password, size_t passSi
     }
     ASN1_OBJECT_free(correctType);
     if (store->header->params->pad == NULL)
-        res = decryptKey6(ASN1_STRING_get0_data(store->data), ASN1_STRING_length(store->data),
+        res = decryptKey6(store->header->params->mac,
+                          ASN1_STRING_get0_data(store->data), ASN1_STRING_length(store->data),
                           NULL, 0,
                           password, passSize,
                           ks);
     else
-        res = decryptKey6(ASN1_STRING_get0_data(store->data), ASN1_STRING_length(store->data),
+        res = decryptKey6(store->header->params->mac,
+                          ASN1_STRING_get0_data(store->data), ASN1_STRING_length(store->data),
                           ASN1_STRING_get0_data(store->header->params->pad), ASN1_STRING_length(store->header->params->pad),
                           password, passSize,
                           ks);
-- 
2.43.0


From ec595172c8c2f89e5dcb4831816768a484477f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:49 +0000
Subject: [PATCH 15/28] fix: a container whose attribute key cannot be used is
 not read without it

---
 keylib/utils.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/keylib/utils.c b/keylib/utils.c
index 3af2aae..cc0ec64 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -225,7 +225,8 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     return res;
 }
 
-static EVP_PKEY* pkeyFromAttributes(const PKCS8_PRIV_KEY_INFO* pkcs8)
+// Returns 0 only if the attributes contain a key that can't be used
+static int pkeyFromAttributes(const PKCS8_PRIV_KEY_INFO* pkcs8, EVP_PKEY** pkey)
 {
     const STACK_OF(X509_ATTRIBUTE)* attributes = PKCS8_pkey_get0_attrs(pkcs8);
     X509_ATTRIBUTE* curveAttr = NULL;
@@ -234,7 +235,6 @@ static EVP_PKEY* pkeyFromAttributes(const PKCS8_PRIV_KEY_INFO* pkcs8)
     ASN1_OBJECT* dstu4145Curve = OBJ_txt2obj(dstu4145CurveOID, 1);
     ASN1_OBJECT* dstu4145Key = OBJ_txt2obj(dstu4145KeyOID, 1);
     ASN1_OBJECT* attrObject = NULL;
-    EVP_PKEY* res = NULL;
     int nattr = sk_X509_ATTRIBUTE_num(attributes);
     int i = 0;
 
@@ -255,11 +255,12 @@ static EVP_PKEY* pkeyFromAttributes(const PKCS8_PRIV_KEY_INFO* pkcs8)
     ASN1_OBJECT_free(dstu4145Key);
     ASN1_OBJECT_free(dstu4145Curve);
 
+    *pkey = NULL;
     if (curveAttr == NULL || keyAttr == NULL)
-        return NULL;
+        return 1;
 
-    res = makePKey(curveAttr, keyAttr);
-    return res;
+    *pkey = makePKey(curveAttr, keyAttr);
+    return *pkey != NULL;
 }
 
 int keysFromPKCS8(const void* data, size_t size, KeyStore** ks)
@@ -278,7 +279,12 @@ int keysFromPKCS8(const void* data, size_t size, KeyStore** ks)
         PKCS8_PRIV_KEY_INFO_free(pkcs8);
         return 0;
     }
-    pkey2 = pkeyFromAttributes(pkcs8);
+    if (pkeyFromAttributes(pkcs8, &pkey2) == 0)
+    {
+        EVP_PKEY_free(pkey1);
+        PKCS8_PRIV_KEY_INFO_free(pkcs8);
+        return 0;
+    }
     PKCS8_PRIV_KEY_INFO_free(pkcs8);
 
     if (pkey2 == NULL)
-- 
2.43.0


From 8216597eab3f2ef120809bbe07fb2ec0d0db1713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:29 +0000
Subject: [PATCH 16/28] fix: key stores survive allocation failures

---
 keylib/jks.c               | 20 ++++++++++++++++++--
 keylib/keystore.c          | 34 ++++++++++++++++++++++++++++------
 keylib/keystore_internal.h |  2 +-
 keylib/pkcs12.c            |  2 +-
 keylib/utils.c             | 17 ++++++++++-------
 5 files changed, 58 insertions(+), 17 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 322b4fc..951203e 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -169,9 +169,18 @@ static const void* parseCert(const void* data, const void* end, KeyStore* ks, si
         return NULL;
 
     KeyStore* tks = KeyStoreNew(0, 1);
+    if (tks == NULL)
+    {
+        X509_free(x509);
+        return NULL;
+    }
 
     KeyStoreSetCert(tks, 0, x509);
-    KeyStoreAppend(ks, tks);
+    if (KeyStoreAppend(ks, tks) == 0)
+    {
+        KeyStoreFree(tks);
+        return NULL;
+    }
 
     KeyStoreFree(tks);
 
@@ -235,9 +244,11 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
 
     r = keysFromPKCS8(decrypted, encryptedLength, &tks);
 
+    if (r != 0)
+        r = KeyStoreAppend(ks, tks);
+
     if (r != 0)
     {
-        KeyStoreAppend(ks, tks);
         if (keyPos != NULL)
             *keyPos += KeyStoreKeyNum(tks);
         if (certPos != NULL)
@@ -426,6 +437,11 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
         return 0;
 
     res = KeyStoreNew(0, 0); // Start from zero
+    if (res == NULL)
+    {
+        OPENSSL_free(pwd16);
+        return 0;
+    }
 
     for (i = 0; i < entries; ++i)
     {
diff --git a/keylib/keystore.c b/keylib/keystore.c
index 2bfbc69..8fc3abb 100644
--- a/keylib/keystore.c
+++ b/keylib/keystore.c
@@ -16,11 +16,18 @@ struct KeyStore_st
 KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
 {
     size_t i = 0;
-    KeyStore* res = OPENSSL_malloc(sizeof(KeyStore));
+    KeyStore* res = OPENSSL_zalloc(sizeof(KeyStore));
+    if (res == NULL)
+        return NULL;
     if (keyNum > 0)
     {
-        res->keyNum = keyNum;
         res->keys = OPENSSL_malloc(keyNum * sizeof(EVP_PKEY*));
+        if (res->keys == NULL)
+        {
+            KeyStoreFree(res);
+            return NULL;
+        }
+        res->keyNum = keyNum;
         for (i = 0; i < keyNum; ++i)
             res->keys[i] = NULL;
     }
@@ -31,8 +38,13 @@ KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
     }
     if (certNum > 0)
     {
-        res->certNum = certNum;
         res->certs = OPENSSL_malloc(certNum * sizeof(X509*));
+        if (res->certs == NULL)
+        {
+            KeyStoreFree(res);
+            return NULL;
+        }
+        res->certNum = certNum;
         for (i = 0; i < certNum; ++i)
             res->certs[i] = NULL;
     }
@@ -44,12 +56,16 @@ KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
     return res;
 }
 
-void KeyStoreAppend(KeyStore* to, KeyStore* from)
+int KeyStoreAppend(KeyStore* to, KeyStore* from)
 {
     size_t i = 0;
+    void* ptr = NULL;
     if (from->keyNum > 0)
     {
-        to->keys = OPENSSL_clear_realloc(to->keys, to->keyNum * sizeof(EVP_PKEY*), (to->keyNum + from->keyNum) * sizeof(EVP_PKEY*));
+        ptr = OPENSSL_clear_realloc(to->keys, to->keyNum * sizeof(EVP_PKEY*), (to->keyNum + from->keyNum) * sizeof(EVP_PKEY*));
+        if (ptr == NULL)
+            return 0;
+        to->keys = ptr;
         for (i = 0; i < from->keyNum; ++i)
         {
             to->keys[to->keyNum + i] = from->keys[i];
@@ -59,7 +75,10 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
     }
     if (from->certNum > 0)
     {
-        to->certs = OPENSSL_clear_realloc(to->certs, to->certNum * sizeof(X509*), (to->certNum + from->certNum) * sizeof(X509*));
+        ptr = OPENSSL_clear_realloc(to->certs, to->certNum * sizeof(X509*), (to->certNum + from->certNum) * sizeof(X509*));
+        if (ptr == NULL)
+            return 0;
+        to->certs = ptr;
         for (i = 0; i < from->certNum; ++i)
         {
             to->certs[to->certNum + i] = from->certs[i];
@@ -67,11 +86,14 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
         }
         to->certNum += from->certNum;
     }
+    return 1;
 }
 
 void KeyStoreFree(KeyStore* ks)
 {
     size_t i = 0;
+    if (ks == NULL)
+        return;
     if (ks->keys != NULL)
     {
         for (i = 0; i < ks->keyNum; ++i)
diff --git a/keylib/keystore_internal.h b/keylib/keystore_internal.h
index 7c20726..146edfa 100644
--- a/keylib/keystore_internal.h
+++ b/keylib/keystore_internal.h
@@ -8,7 +8,7 @@ extern "C" {
 
 KeyStore* KeyStoreNew(size_t keyNum, size_t certNum);
 
-void KeyStoreAppend(KeyStore* to, KeyStore* from);
+int KeyStoreAppend(KeyStore* to, KeyStore* from);
 
 void KeyStoreSetKey(KeyStore* ks, size_t pos, EVP_PKEY* key);
 void KeyStoreSetCert(KeyStore* ks, size_t pos, X509* cert);
diff --git a/keylib/pkcs12.c b/keylib/pkcs12.c
index a450b1b..15b8572 100644
--- a/keylib/pkcs12.c
+++ b/keylib/pkcs12.c
@@ -201,7 +201,7 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
 
     res = KeyStoreNew(numKeys, numCerts);
 
-    if (fromSafes(safes, password, passSize, res, &keyPos, &certPos) == 0)
+    if (res == NULL || fromSafes(safes, password, passSize, res, &keyPos, &certPos) == 0)
     {
         KeyStoreFree(res);
         sk_PKCS7_pop_free(safes, PKCS7_free);
diff --git a/keylib/utils.c b/keylib/utils.c
index cc0ec64..5f990f5 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -269,6 +269,7 @@ int keysFromPKCS8(const void* data, size_t size, KeyStore** ks)
     PKCS8_PRIV_KEY_INFO* pkcs8 = d2i_PKCS8_PRIV_KEY_INFO(NULL, &ptr, size);
     EVP_PKEY* pkey1 = NULL;
     EVP_PKEY* pkey2 = NULL;
+    KeyStore* res = NULL;
 
     if (pkcs8 == NULL)
         return 0;
@@ -287,16 +288,18 @@ int keysFromPKCS8(const void* data, size_t size, KeyStore** ks)
     }
     PKCS8_PRIV_KEY_INFO_free(pkcs8);
 
-    if (pkey2 == NULL)
+    res = KeyStoreNew(pkey2 == NULL ? 1 : 2, 0);
+    if (res == NULL)
     {
-        *ks = KeyStoreNew(1, 0);
-        KeyStoreSetKey(*ks, 0, pkey1);
-        return 1;
+        EVP_PKEY_free(pkey1);
+        EVP_PKEY_free(pkey2);
+        return 0;
     }
 
-    *ks = KeyStoreNew(2, 0);
-    KeyStoreSetKey(*ks, 0, pkey1);
-    KeyStoreSetKey(*ks, 1, pkey2);
+    KeyStoreSetKey(res, 0, pkey1);
+    if (pkey2 != NULL)
+        KeyStoreSetKey(res, 1, pkey2);
 
+    *ks = res;
     return 1;
 }
-- 
2.43.0


From 0d65ef4349c29a4709d4f7e4412dab0056d78019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:29 +0000
Subject: [PATCH 17/28] fix: container readers survive allocation failures

---
 keylib/jks.c    | 84 ++++++++++++++++++++++++++++---------------------
 keylib/key6.c   | 10 +++++-
 keylib/pkcs12.c |  2 ++
 3 files changed, 59 insertions(+), 37 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 951203e..8bae018 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -55,78 +55,77 @@ static uint32_t read32(const void* base, size_t shift)
 
 static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize)
 {
-    size_t resSize = size * 2;
-    size_t bufSize = size;
-    size_t ds = resSize;
+    size_t bufSize = size > 0 ? size : 1;
+    size_t ds = 0;
     size_t ss = size;
-    BIO *res = BIO_new(BIO_s_mem());
-    char* buf = OPENSSL_malloc(resSize);
-    char* d = buf;
+    BIO *res = NULL;
+    char* buf = NULL;
+    char* d = NULL;
     const char* s = source;
     iconv_t cd = iconv_open("utf-16be", "utf-8");
     size_t r = 0;
+    int ok = 0;
     if (cd == (iconv_t)-1)
-    {
-        OPENSSL_free(res);
         return 0;
-    }
+    res = BIO_new(BIO_s_mem());
+    buf = OPENSSL_malloc(bufSize);
+    if (res == NULL || buf == NULL)
+        goto end;
     while (ss > 0)
     {
         d = buf;
         ds = bufSize;
         r = iconv(cd, (char**)&s, &ss, &d, &ds);
-        if (d != buf)
-            BIO_write(res, buf, d - buf);
+        if (d != buf && BIO_write(res, buf, d - buf) != d - buf)
+            goto end;
         if (r != (size_t)-1)
             break;
         if (errno != E2BIG)
-        {
-            iconv_close(cd);
-            OPENSSL_free(buf);
-            BIO_free(res);
-            return 0;
-        }
+            goto end;
         bufSize *= 2;
-        buf = OPENSSL_realloc(buf, bufSize);
+        d = OPENSSL_realloc(buf, bufSize);
+        if (d == NULL)
+            goto end;
+        buf = d;
     }
     for (;;)
     {
         d = buf;
         ds = bufSize;
         r = iconv(cd, NULL, NULL, &d, &ds);
-        if (d != buf)
-            BIO_write(res, buf, d - buf);
+        if (d != buf && BIO_write(res, buf, d - buf) != d - buf)
+            goto end;
         if (r != (size_t)-1)
             break;
         if (errno != E2BIG)
-        {
-            iconv_close(cd);
-            OPENSSL_free(buf);
-            BIO_free(res);
-            return 0;
-        }
+            goto end;
         bufSize *= 2;
-        buf = OPENSSL_realloc(buf, bufSize);
+        d = OPENSSL_realloc(buf, bufSize);
+        if (d == NULL)
+            goto end;
+        buf = d;
     }
-    OPENSSL_free(buf);
-    iconv_close(cd);
     *dsize = BIO_get_mem_data(res, &d);
     if (d == NULL || *dsize == 0)
-    {
-        BIO_free(res);
-        return 0;
-    }
+        goto end;
     *dest = OPENSSL_malloc(*dsize);
+    if (*dest == NULL)
+        goto end;
     memcpy(*dest, d, *dsize);
+    ok = 1;
+end:
+    OPENSSL_free(buf);
+    iconv_close(cd);
     BIO_free(res);
-    return 1;
+    return ok;
 }
 
 static int twoHash(const void* d1, size_t ds1, const void* d2, size_t ds2, void* digest)
 {
     unsigned int ds = 0;
     EVP_MD_CTX* ctx = EVP_MD_CTX_new();
-    int ok = EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
+    int ok = ctx != NULL &&
+             EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
              EVP_DigestUpdate(ctx, d1, ds1) != 0 &&
              EVP_DigestUpdate(ctx, d2, ds2) != 0 &&
              EVP_DigestFinal_ex(ctx, digest, &ds) != 0;
@@ -138,7 +137,8 @@ static int whiteHash(const void* d1, size_t ds1, const void* d2, size_t ds2, voi
 {
     unsigned int ds = 0;
     EVP_MD_CTX* ctx = EVP_MD_CTX_new();
-    int ok = EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
+    int ok = ctx != NULL &&
+             EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
              EVP_DigestUpdate(ctx, d1, ds1) != 0 &&
              EVP_DigestUpdate(ctx, "Mighty Aphrodite", 16) != 0 &&
              EVP_DigestUpdate(ctx, d2, ds2) != 0 &&
@@ -211,6 +211,8 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     copyAt(data, 0, digest, saltLength);
 
     decrypted = OPENSSL_malloc(encryptedLength);
+    if (decrypted == NULL)
+        return 0;
     for (i = 0; i < rounds; ++i)
     {
         if (!twoHash(pwd16, pwd16Length, digest, digestLength, digest))
@@ -299,6 +301,14 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     X509_ALGOR_get0(&aobj, NULL, NULL, algo);
     keyProtector = OBJ_txt2obj(keyProtectorOID, 1);
     pbes1 = OBJ_txt2obj(pbes1OID, 1);
+    if (keyProtector == NULL || pbes1 == NULL)
+    {
+        ASN1_OBJECT_free(pbes1);
+        ASN1_OBJECT_free(keyProtector);
+        X509_SIG_free(epkInfo);
+        OPENSSL_free(pwd16);
+        return 0;
+    }
 
     if (OBJ_cmp(aobj, keyProtector) == 0)
     {
@@ -496,6 +506,8 @@ int readJKS_bio(BIO* bio, const char* storagePass, size_t storagePassSize, const
     size_t written = 0;
     char* ptr = NULL;
     int res = 0;
+    if (mem == NULL)
+        return 0;
     for (;;)
     {
         if (!BIO_read_ex(bio, buf, sizeof(buf), &bytes))
diff --git a/keylib/key6.c b/keylib/key6.c
index caae9ac..c5a1bc5 100644
--- a/keylib/key6.c
+++ b/keylib/key6.c
@@ -56,6 +56,12 @@ static int decryptKey6(const ASN1_OCTET_STRING* mac, const void* data, size_t si
 
     source = OPENSSL_malloc(sourceSize);
     res = OPENSSL_malloc(sourceSize);
+    if (source == NULL || res == NULL)
+    {
+        OPENSSL_free(source);
+        OPENSSL_free(res);
+        return 0;
+    }
 
     unpack_sbox(default_sbox, &sbox);
     gost_init(&ctx, &sbox);
@@ -93,7 +99,7 @@ int parseKey6(const void* data, size_t size, const char* password, size_t passSi
     }
     // Type check
     correctType = OBJ_txt2obj(iitStoreOID, 1);
-    if (OBJ_cmp(store->header->type, correctType) != 0)
+    if (correctType == NULL || OBJ_cmp(store->header->type, correctType) != 0)
     {
         ASN1_OBJECT_free(correctType);
         IITStore_free(store);
@@ -136,6 +142,8 @@ int readKey6_bio(BIO* bio, const char* password, size_t passSize, KeyStore** ks)
     size_t written = 0;
     char* ptr = NULL;
     int res = 0;
+    if (mem == NULL)
+        return 0;
     for (;;)
     {
         if (!BIO_read_ex(bio, buf, sizeof(buf), &bytes))
diff --git a/keylib/pkcs12.c b/keylib/pkcs12.c
index 15b8572..3e3ad93 100644
--- a/keylib/pkcs12.c
+++ b/keylib/pkcs12.c
@@ -236,6 +236,8 @@ int readPKCS12_bio(BIO* bio, const char* password, size_t passSize, KeyStore** k
     size_t written = 0;
     char* ptr = NULL;
     int res = 0;
+    if (mem == NULL)
+        return 0;
     for (;;)
     {
         if (!BIO_read_ex(bio, buf, sizeof(buf), &bytes))
-- 
2.43.0


From dbdc72416553575599c4c45964f69184bcab6e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:20 +0000
Subject: [PATCH 18/28] fix: a failed trace computation fails the point
 conversion

---
 dstulib/compress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dstulib/compress.c b/dstulib/compress.c
index 440648e..711fc34 100644
--- a/dstulib/compress.c
+++ b/dstulib/compress.c
@@ -20,7 +20,7 @@ static int bn_trace(const BIGNUM *bn, const BIGNUM *p, BN_CTX *ctx)
 
     r = BN_CTX_get(ctx);
 
-    if (!BN_copy(r, bn))
+    if (!r || !BN_copy(r, bn))
         goto err;
     for (i = 1; i <= (BN_num_bits(p) - 2); i++)
     {
@@ -195,6 +195,8 @@ int dstu_point_expand(const unsigned char *compressed, int compressed_length,
         goto err;
 
     trace = bn_trace(y, p, ctx);
+    if (-1 == trace)
+        goto err;
 
     if ((k && !trace) || (!k && trace))
     {
-- 
2.43.0


From 2f82598a3183d4dff20c408063107806f6390c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:22 +0000
Subject: [PATCH 19/28] fix: attribute keys survive allocation failures

---
 keylib/utils.c | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/keylib/utils.c b/keylib/utils.c
index 5f990f5..9717210 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -51,6 +51,12 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
     length = ASN1_STRING_length(str);
     data = ASN1_STRING_get0_data(str);
     buf = OPENSSL_malloc(length);
+    res = BN_CTX_get(ctx);
+    if (buf == NULL || res == NULL)
+    {
+        OPENSSL_free(buf);
+        return NULL;
+    }
     for (i = 0; i < length; ++i)
     {
         // Swap bits
@@ -62,7 +68,7 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
         buf[length - i - 1] = b;
     }
 
-    res = BN_bin2bn(buf,length, BN_CTX_get(ctx));
+    res = BN_bin2bn(buf, length, res);
 
     OPENSSL_clear_free(buf, length);
 
@@ -90,7 +96,7 @@ static BIGNUM* makePoly(BN_CTX* ctx, const DSTU_BinaryField* field)
         poly[4] = 0;
         poly[5] = -1;
     }
-    if (BN_GF2m_arr2poly(poly, res) == 0)
+    if (res == NULL || BN_GF2m_arr2poly(poly, res) == 0)
         return NULL;
     return res;
 }
@@ -99,6 +105,8 @@ static EC_POINT* makePoint(BN_CTX* ctx, const EC_GROUP* group, const ASN1_OCTET_
 {
     (void) ctx;
     EC_POINT* res = EC_POINT_new(group);
+    if (res == NULL)
+        return NULL;
     if (dstu_point_expand(ASN1_STRING_get0_data(p), ASN1_STRING_length(p), group, res) == 0)
     {
         EC_POINT_free(res);
@@ -111,12 +119,15 @@ static EC_GROUP* makeECGROUPFromSpec(BN_CTX* ctx, const DSTU_CustomCurveSpec* sp
 {
     BIGNUM* poly = makePoly(ctx, spec->field);
     BIGNUM* a = BN_CTX_get(ctx);
-    BIGNUM* b = BN_bin2bn(ASN1_STRING_get0_data(spec->b), ASN1_STRING_length(spec->b), BN_CTX_get(ctx));
+    BIGNUM* b = BN_CTX_get(ctx);
     BIGNUM* n = BN_CTX_get(ctx);
     EC_POINT* point = NULL;
     EC_GROUP* res = NULL;
 
-    ASN1_INTEGER_to_BN(spec->a, a);
+    if (poly == NULL || n == NULL ||
+        ASN1_INTEGER_to_BN(spec->a, a) == NULL ||
+        BN_bin2bn(ASN1_STRING_get0_data(spec->b), ASN1_STRING_length(spec->b), b) == NULL)
+        return NULL;
 
     res = EC_GROUP_new_curve_GF2m(poly, a, b, ctx);
 
@@ -135,8 +146,8 @@ static EC_GROUP* makeECGROUPFromSpec(BN_CTX* ctx, const DSTU_CustomCurveSpec* sp
         EC_GROUP_free(res);
         return NULL;
     }
-    ASN1_INTEGER_to_BN(spec->n, n);
-    if (EC_GROUP_set_generator(res, point, n, BN_value_one()) == 0)
+    if (ASN1_INTEGER_to_BN(spec->n, n) == NULL ||
+        EC_GROUP_set_generator(res, point, n, BN_value_one()) == 0)
     {
         EC_GROUP_free(res);
         res = NULL;
@@ -178,12 +189,16 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     DSTU_KEY* key = NULL;
     EVP_PKEY* res = NULL;
 
+    if (ctx == NULL)
+        return NULL;
+
     BN_CTX_start(ctx);
 
     pkNum = getPrivateKeyNum(ctx, keyAttr);
     group = makeECGROUP(ctx, curveAttr);
     if (pkNum == NULL || group == NULL)
     {
+        EC_GROUP_free(group);
         BN_CTX_end(ctx);
         BN_CTX_free(ctx);
         return NULL;
@@ -204,6 +219,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
         EC_KEY_set_private_key(key->ec, pkNum) == 0 ||
         dstu_add_public_key(key->ec) == 0)
     {
+        EVP_PKEY_free(res);
         DSTU_KEY_free(key);
         EC_GROUP_free(group);
         BN_CTX_end(ctx);
@@ -238,6 +254,13 @@ static int pkeyFromAttributes(const PKCS8_PRIV_KEY_INFO* pkcs8, EVP_PKEY** pkey)
     int nattr = sk_X509_ATTRIBUTE_num(attributes);
     int i = 0;
 
+    if (dstu4145Curve == NULL || dstu4145Key == NULL)
+    {
+        ASN1_OBJECT_free(dstu4145Key);
+        ASN1_OBJECT_free(dstu4145Curve);
+        return 0;
+    }
+
     for (i = 0; i < nattr; ++i)
     {
         attr = sk_X509_ATTRIBUTE_value(attributes, i);
-- 
2.43.0


From 9433a32640a87e3c05de9c6a48d9e7a9c0b252b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:51 +0000
Subject: [PATCH 20/28] fix: exporting key parameters survives allocation
 failures

---
 dstulib/key.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dstulib/key.c b/dstulib/key.c
index 43b3f04..86bf17e 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -79,6 +79,8 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
         return NULL;
 
     params = DSTU_AlgorithmParameters_new();
+    if (!params)
+        return NULL;
 
     if (key->sbox)
     {
@@ -108,6 +110,9 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
             goto err;
 
         ctx = BN_CTX_new();
+        if (!ctx)
+            goto err;
+
         BN_CTX_start(ctx);
 
         p = BN_CTX_get(ctx);
-- 
2.43.0


From d2574b11a882ef25bc30770a9d49197e28a7937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:51 +0000
Subject: [PATCH 21/28] fix: a named curve is not exported as a custom one when
 memory runs out

---
 dstulib/key.c    |  3 +++
 dstulib/params.c | 60 ++++++++++++++++++++++++++++++++++++++++++++----
 dstulib/params.h |  1 +
 3 files changed, 59 insertions(+), 5 deletions(-)

diff --git a/dstulib/key.c b/dstulib/key.c
index 86bf17e..eb0d4c9 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -97,6 +97,9 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
 
     /* Checking if group represents a standard curve. If we get NID_undef, that means the curve is custom */
     curve_nid = curve_nid_from_group(group);
+    if (curve_nid < 0)
+        goto err;
+
     if (NID_undef == curve_nid)
     {
         /* Custom curve */
diff --git a/dstulib/params.c b/dstulib/params.c
index f82780b..5dac19e 100644
--- a/dstulib/params.c
+++ b/dstulib/params.c
@@ -281,11 +281,61 @@ DSTU_NAMED_CURVE dstu_curves[] =
     {NID_uacurve9, {431, 5, 3, 1, 0, -1}, data431}
 };
 
+/* Returns 0 if the groups are equal, 1 if they differ and -1 if that could not be found out.
+ * EC_GROUP_cmp does not tell the last two apart.
+ */
+int group_cmp(const EC_GROUP *first, const EC_GROUP *second)
+{
+    const EC_POINT *first_g = EC_GROUP_get0_generator(first);
+    const EC_POINT *second_g = EC_GROUP_get0_generator(second);
+    BIGNUM *p1, *a1, *b1, *p2, *a2, *b2;
+    BN_CTX *ctx = NULL;
+    int ret = -1;
+
+    if (!first_g || !second_g)
+        return -1;
+
+    ctx = BN_CTX_new();
+    if (!ctx)
+        return -1;
+
+    BN_CTX_start(ctx);
+
+    p1 = BN_CTX_get(ctx);
+    a1 = BN_CTX_get(ctx);
+    b1 = BN_CTX_get(ctx);
+    p2 = BN_CTX_get(ctx);
+    a2 = BN_CTX_get(ctx);
+    b2 = BN_CTX_get(ctx);
+
+    if (!b2)
+        goto err;
+
+    if (!EC_GROUP_get_curve_GF2m(first, p1, a1, b1, ctx))
+        goto err;
+
+    if (!EC_GROUP_get_curve_GF2m(second, p2, a2, b2, ctx))
+        goto err;
+
+    if (BN_cmp(p1, p2) || BN_cmp(a1, a2) || BN_cmp(b1, b2) ||
+        BN_cmp(EC_GROUP_get0_order(first), EC_GROUP_get0_order(second)))
+        ret = 1;
+    else
+        ret = EC_POINT_cmp(first, first_g, second_g, ctx);
+
+    err:
+
+    BN_CTX_end(ctx);
+    BN_CTX_free(ctx);
+
+    return ret;
+}
+
 int curve_nid_from_group(const EC_GROUP *group)
 {
     unsigned long long i = 0;
     int m = EC_GROUP_get_degree(group);
-    int nid = NID_undef;
+    int nid = NID_undef, cmp;
     EC_GROUP* std_group = NULL;
 
     for (i = 0; i < (sizeof(dstu_curves) / sizeof(DSTU_NAMED_CURVE)); i++)
@@ -297,12 +347,12 @@ int curve_nid_from_group(const EC_GROUP *group)
     if (i < (sizeof(dstu_curves) / sizeof(DSTU_NAMED_CURVE)))
     {
         std_group = group_from_named_curve(i);
+        cmp = std_group ? group_cmp(group, std_group) : -1;
 
-        if (std_group)
-        {
-            if (!EC_GROUP_cmp(group, std_group, NULL))
+        if (!cmp)
             nid = dstu_curves[i].nid;
-        }
+        else if (cmp < 0)
+            nid = -1; /* Not known: must not be taken for a custom curve */
     }
 
     if (std_group)
diff --git a/dstulib/params.h b/dstulib/params.h
index 1d9c3ce..1c70cf1 100644
--- a/dstulib/params.h
+++ b/dstulib/params.h
@@ -41,6 +41,7 @@ void reverse_bytes_copy(void *dst, const void *src, int size);
 
 int bn_encode(const BIGNUM *bn, unsigned char* buffer, int length);
 
+int group_cmp(const EC_GROUP *first, const EC_GROUP *second);
 int curve_nid_from_group(const EC_GROUP *group);
 
 #endif /* DSTU_PARAMS_H_ */
-- 
2.43.0


From e917d96f3ccff754c395876c8445d637b7703b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:56 +0000
Subject: [PATCH 22/28] fix: keys do not compare as different when memory runs
 out

---
 engine/ameth.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index 81ecd03..e4f6954 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -136,6 +136,7 @@ static int dstu_asn1_param_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
     DSTU_KEY *first = EVP_PKEY_get0(a);
     DSTU_KEY *second = EVP_PKEY_get0(b);
     const unsigned char *first_sbox, *second_sbox;
+    int res;
 
     if (!first || !second)
         return -2;
@@ -147,11 +148,12 @@ static int dstu_asn1_param_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
     if (memcmp(first_sbox, second_sbox, sizeof(default_sbox)))
         return 0;
 
-    if (EC_GROUP_cmp(EC_KEY_get0_group(first->ec),
-                     EC_KEY_get0_group(second->ec), NULL))
-        return 0;
+    res = group_cmp(EC_KEY_get0_group(first->ec),
+                    EC_KEY_get0_group(second->ec));
+    if (res < 0)
+        return -2;
 
-    return 1;
+    return !res;
 }
 
 static int dstu_asn1_param_print(BIO *out, const EVP_PKEY *pkey, int indent,
@@ -630,6 +632,7 @@ static int dstu_asn1_pub_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
     DSTU_KEY *first = EVP_PKEY_get0(a);
     DSTU_KEY *second = EVP_PKEY_get0(b);
     const EC_POINT *first_point, *second_point;
+    int res;
 
     if (!first || !second)
         return -2;
@@ -642,10 +645,11 @@ static int dstu_asn1_pub_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
 
     /* We do not compare sboxes here because it will be done in params_cmp by EVP API */
 
-    if (EC_POINT_cmp(EC_KEY_get0_group(first->ec), first_point, second_point, NULL))
-        return 0;
+    res = EC_POINT_cmp(EC_KEY_get0_group(first->ec), first_point, second_point, NULL);
+    if (res < 0)
+        return -2;
 
-    return 1;
+    return !res;
 }
 
 static int dstu_asn1_pkey_ctrl(EVP_PKEY *pkey, int op, long arg1, void *arg2)
-- 
2.43.0


From 971b3b31f0d1315ab18b2f4ec418591f885e0f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:56 +0000
Subject: [PATCH 23/28] fix: failed export of a private key does not leak its
 parameters

---
 engine/ameth.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index e4f6954..77c053b 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -296,7 +296,7 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     }
 
     encoded_params_bytes = dstu_asn1_param_encode(pk, &encoded_params);
-    if (!encoded_params_bytes)
+    if (encoded_params_bytes <= 0)
         goto err;
 
     key = EVP_PKEY_get0(pk);
@@ -330,6 +330,7 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     reverse_bytes(prk_encoded, prk_encoded_bytes);
 
     ASN1_STRING_set0(params, encoded_params, encoded_params_bytes);
+    encoded_params = NULL;
 
     if (PKCS8_pkey_set0(p8, OBJ_nid2obj(algnid), 0, V_ASN1_SEQUENCE, params,
                         prk_encoded, prk_encoded_bytes))
@@ -348,6 +349,9 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     if (prk_encoded)
         OPENSSL_free(prk_encoded);
 
+    if (encoded_params)
+        OPENSSL_free(encoded_params);
+
     if (params)
         ASN1_STRING_free(params);
 
-- 
2.43.0


From b1653fd2c016e33a4ec75a0f262a1d34e8b8bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:21 +0000
Subject: [PATCH 24/28] fix: an all-zero s-box can be given as a string too

---
 engine/pmeth.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/engine/pmeth.c b/engine/pmeth.c
index 3d6be4e..966ffe2 100644
--- a/engine/pmeth.c
+++ b/engine/pmeth.c
@@ -218,14 +218,16 @@ static int dstu_pkey_ctrl_str(EVP_PKEY_CTX *ctx, const char *type,
             return 0;
         }
 
-        if (BN_is_negative(tmp))
+        if ('-' == value[0])
         {
             BN_free(tmp);
             return 0;
         }
 
-        if (bn_encode(tmp, sbox, sizeof(sbox)))
-            res = dstu_pkey_ctrl(ctx, DSTU_SET_CUSTOM_SBOX, sizeof(sbox), sbox);
+        /* 128 digits always fit, but leading (or all) digits may be zero */
+        memset(sbox, 0, sizeof(sbox));
+        BN_bn2bin(tmp, sbox + sizeof(sbox) - BN_num_bytes(tmp));
+        res = dstu_pkey_ctrl(ctx, DSTU_SET_CUSTOM_SBOX, sizeof(sbox), sbox);
         BN_free(tmp);
         return res;
     }
-- 
2.43.0


From 951f06c8dd95281c7358f2e88e2b4affb178aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:20 +0000
Subject: [PATCH 25/28] fix: check the key format method allocated while the
 engine is loaded

EVP_PKEY_asn1_new may fail; its result was used all the same and loading
the engine without enough memory crashed.
---
 engine/ameth.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index 77c053b..3e19ba8 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -745,6 +745,9 @@ EVP_PKEY_ASN1_METHOD *dstu_asn1_meth_new(int nid)
     else
         return NULL;
 
+    if (!res)
+        return NULL;
+
     EVP_PKEY_asn1_set_param(res, dstu_asn1_param_decode,
                             dstu_asn1_param_encode, /*dstu_asn1_param_missing*/NULL,
                             dstu_asn1_param_copy, dstu_asn1_param_cmp, dstu_asn1_param_print);
-- 
2.43.0


From f40f2d255511c09115c20f6b4be6ea6e361b8b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:19 +0000
Subject: [PATCH 26/28] fix: absent cipher parameters are refused instead of
 read

The parameters of an AlgorithmIdentifier are optional, so a container or
an encrypted key may come without them; reading one crashed.
---
 engine/cipher.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index 2a7aafe..1860119 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -226,7 +226,8 @@ static int dstu_cipher_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *asn1_
 
 static int dstu_cipher_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *asn1_type)
 {
-    if (V_ASN1_SEQUENCE != asn1_type->type)
+    /* The parameters may be absent altogether */
+    if (!asn1_type || V_ASN1_SEQUENCE != asn1_type->type)
         return -1;
 
     if (DSTU_CIPHER_ASN1_PARAM_SIZE != asn1_type->value.sequence->length)
-- 
2.43.0


From 0c92c4c2ff52ca358ea2461d3ae4677f71a1f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:24 +0000
Subject: [PATCH 27/28] fix: asking for algorithm number 0 is a refusal, not an
 unset result

---
 engine/dstu.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/dstu.c b/engine/dstu.c
index 1750486..e69d0d1 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -174,7 +174,7 @@ static int dstu_digests(ENGINE *e, const EVP_MD **digest, const int **nids,
     else
     {
         if (!nids)
-            return -1;
+            return 0;
         *nids = digest_nids;
         return 1;
     }
@@ -197,7 +197,7 @@ static int dstu_ciphers(ENGINE *e, const EVP_CIPHER **cipher, const int **nids,
     else
     {
         if (!nids)
-            return -1;
+            return 0;
         *nids = cipher_nids;
         return 1;
     }
-- 
2.43.0


From 1590885d2c90a16b7a47fb35e4aaac637ca0b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:22 +0000
Subject: [PATCH 28/28] fix: printing a key object that has only a type crashed

---
 engine/ameth.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index 3e19ba8..416f534 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -165,6 +165,10 @@ static int dstu_asn1_param_print(BIO *out, const EVP_PKEY *pkey, int indent,
 
     (void) pctx; // Unused
 
+    /* A key object that was given a type only has nothing to print */
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
     {
@@ -706,6 +710,10 @@ static int dstu_asn1_priv_print(BIO *out, const EVP_PKEY *pkey, int indent,
     EVP_PKEY *pk;
     int ret;
 
+    /* A key object that was given a type only has nothing to print */
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
         return 0;
@@ -724,6 +732,10 @@ static int dstu_asn1_pub_print(BIO *out, const EVP_PKEY *pkey, int indent,
     EVP_PKEY *pk;
     int ret;
 
+    /* A key object that was given a type only has nothing to print */
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
         return 0;
-- 
2.43.0


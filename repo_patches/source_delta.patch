From c78e931bce8436da44720ced9ae051b202892b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 01/16] fix: bind the identity chain and node verdict caches to
 every input of the verdict

---
 src/wickrcrypto/src/identity_priv.c | 5 +++--
 src/wickrcrypto/src/node_priv.c     | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/identity_priv.c b/src/wickrcrypto/src/identity_priv.c
index c439ec3..521ba61 100644
--- a/src/wickrcrypto/src/identity_priv.c
+++ b/src/wickrcrypto/src/identity_priv.c
@@ -257,8 +257,9 @@ wickr_buffer_t *wickr_identity_chain_make_status_cache(const wickr_identity_chai
         return NULL;
     }
     
-    uint8_t status_int = (uint8_t)chain->status;
-    wickr_buffer_t status_buffer =  { .length = sizeof(uint8_t), .bytes = &status_int };
+    /* The verdict also depends on the digest the signature was made with */
+    uint8_t status_bytes[] = { (uint8_t)chain->status, (uint8_t)chain->node->signature->digest_mode.digest_id };
+    wickr_buffer_t status_buffer =  { .length = sizeof(status_bytes), .bytes = status_bytes };
     
     wickr_buffer_t *buffers[] = {
         chain->root->sig_key->pub_data,
diff --git a/src/wickrcrypto/src/node_priv.c b/src/wickrcrypto/src/node_priv.c
index 8a3adaf..3145bd9 100644
--- a/src/wickrcrypto/src/node_priv.c
+++ b/src/wickrcrypto/src/node_priv.c
@@ -116,10 +116,12 @@ wickr_buffer_t *wickr_node_make_status_cache(const wickr_node_t *node,
         return NULL;
     }
     
-    uint8_t status_int = (uint8_t)node->status;
-    wickr_buffer_t status_buffer =  { .length = sizeof(uint8_t), .bytes = &status_int };
+    /* The verdict also depends on the identity chain it was computed against, and on the digest of the key signature */
+    uint8_t status_bytes[] = { (uint8_t)node->status, (uint8_t)node->ephemeral_keypair->signature->digest_mode.digest_id };
+    wickr_buffer_t status_buffer =  { .length = sizeof(status_bytes), .bytes = status_bytes };
     
     wickr_buffer_t *buffers[] = {
+        node->id_chain->_status_cache,
         node->ephemeral_keypair->ec_key->pub_data,
         node->ephemeral_keypair->signature->sig_data,
         &status_buffer
-- 
2.43.0


From 99ed8af45601b63568ef43064851e0ec768c82d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 02/16] fix: base64 decoding reads past unterminated input and
 indexes its table with negative values

---
 src/wickrcrypto/src/util.c | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/wickrcrypto/src/util.c b/src/wickrcrypto/src/util.c
index a76a634..e4e0ce7 100644
--- a/src/wickrcrypto/src/util.c
+++ b/src/wickrcrypto/src/util.c
@@ -94,15 +94,17 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
         return NULL;
     }
     
-	const char * objPointer = (const char *)strBase64->bytes;
+	const unsigned char * objPointer = strBase64->bytes;
 	if (objPointer == NULL)  return NULL;
 
-	size_t intLength = strlen(objPointer);
-    if (intLength > strBase64->length)
-        intLength = strBase64->length;
+	/* The string ends at its null terminator, or at the end of the buffer if it has none */
+	size_t intLength = 0;
+	while (intLength < strBase64->length && objPointer[intLength] != '\0') {
+		intLength++;
+	}
     
 	int intCurrent;
-	int i = 0, j = 0, k;
+	int i = 0, j = 0;
 
     wickr_buffer_t *objResult;
 	objResult = wickr_buffer_create_empty_zero(intLength);
@@ -110,9 +112,11 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
         return NULL;
     
 	// Run through the whole string, converting as we go
-	while ( ((intCurrent = *objPointer++) != '\0') && (intLength-- > 0) ) {
+	while (intLength > 0) {
+		intCurrent = *objPointer++;
+		intLength--;
 		if (intCurrent == '=') {
-			if (*objPointer != '=' && ((i % 4) == 1)) {// || (intLength > 0)) {
+			if ((intLength == 0 || *objPointer != '=') && ((i % 4) == 1)) {// || (intLength > 0)) {
 				// the padding character is invalid at this point -- so this entire string is invalid
                 wickr_buffer_destroy(&objResult);
 				return NULL;
@@ -152,23 +156,6 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
 		i++;
 	}
 
-	// mop things up if we ended on a boundary
-	k = j;
-	if (intCurrent == '=') {
-		switch (i % 4) {
-			case 1:
-				// Invalid state
-                wickr_buffer_destroy(&objResult);
-				return NULL;
-
-			case 2:
-				k++;
-				// flow through
-			case 3:
-				objResult->bytes[k] = 0;
-		}
-	}
-
     objResult->length = j;
 	return objResult;
 }
-- 
2.43.0


From 282c10ae87a75cb0b8945d9c218f7269d688f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 03/16] fix: hex decoding reads past input that is not null
 terminated

---
 src/wickrcrypto/src/util.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/util.c b/src/wickrcrypto/src/util.c
index e4e0ce7..c300529 100644
--- a/src/wickrcrypto/src/util.c
+++ b/src/wickrcrypto/src/util.c
@@ -214,7 +214,17 @@ getDataFromHexString(const wickr_buffer_t *hexString)
         return NULL;
     
     const char * bytes = (const char *)hexString->bytes;
-    size_t length = strlen(bytes);
+    
+    if (!bytes) {
+        return NULL;
+    }
+    
+    /* The string ends at its null terminator, or at the end of the buffer if it has none */
+    size_t length = 0;
+    while (length < hexString->length && bytes[length] != '\0') {
+        length++;
+    }
+    
     wickr_buffer_t *result = wickr_buffer_create_empty((length / 2));
     if (!result)
         return NULL;
@@ -224,10 +234,11 @@ getDataFromHexString(const wickr_buffer_t *hexString)
     if (r != NULL) {
         unsigned char * index = r;
         
-        while ((*bytes) && (*(bytes +1))) {
+        while (length > 1) {
             *index = strToChar(*bytes, *(bytes +1));
             index++;
             bytes+=2;
+            length-=2;
         }
         
         return result;
-- 
2.43.0


From 5f3b67a11542c29fe100335c2004048afd6d4a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 04/16] fix: base32 text is not null terminated as documented

---
 src/wickrcrypto/src/b32.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/b32.c b/src/wickrcrypto/src/b32.c
index 4664ce5..30e1a65 100644
--- a/src/wickrcrypto/src/b32.c
+++ b/src/wickrcrypto/src/b32.c
@@ -226,12 +226,21 @@ wickr_buffer_t *base32_encode(const wickr_buffer_t *buffer)
         return NULL;
     }
     
-    wickr_buffer_t *return_buffer = wickr_buffer_create_empty_zero(__base32_encode_length(buffer->length));
+    size_t encode_length = __base32_encode_length(buffer->length);
+    
+    if (encode_length == 0) {
+        return NULL;
+    }
+    
+    wickr_buffer_t *return_buffer = wickr_buffer_create_empty_zero(encode_length + 1);
     
     if (!return_buffer) {
         return NULL;
     }
     
+    /* The length should only be the length of the string, not including the null byte */
+    return_buffer->length--;
+    
     if (!__base32_encode_base32(buffer->bytes, buffer->length, return_buffer->bytes)) {
         wickr_buffer_destroy(&return_buffer);
         return NULL;
-- 
2.43.0


From 96f87444254d732ec89453b81feca1a0ce519039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 05/16] fix: fixed length public key form dereferences an
 absent key before checking it

---
 src/wickrcrypto/src/eckey.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/eckey.c b/src/wickrcrypto/src/eckey.c
index 015cbac..90d6e8c 100644
--- a/src/wickrcrypto/src/eckey.c
+++ b/src/wickrcrypto/src/eckey.c
@@ -45,13 +45,17 @@ wickr_ec_key_t *wickr_ec_key_copy(const wickr_ec_key_t *source)
 
 wickr_buffer_t *wickr_ec_key_get_pubdata_fixed_len(const wickr_ec_key_t *key)
 {
+    if (!key || !key->pub_data) {
+        return NULL;
+    }
+    
     /* If no adjustments are necessary, just return a new copy of the pub key data as is */
     if (key->pub_data->length == key->curve.max_pub_size) {
         return wickr_buffer_copy(key->pub_data);
     }
     
     /* Verify that we don't have a corrupt key with a length greater than the maximum */
-    if (!key || key->pub_data->length > key->curve.max_pub_size) {
+    if (key->pub_data->length > key->curve.max_pub_size) {
         return NULL;
     }
     
-- 
2.43.0


From 9a99ba712bb6ca17cff417bd488788916490be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 06/16] fix: user data of a refused serialized stream key is
 leaked

---
 src/wickrcrypto/src/stream_key_priv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/stream_key_priv.c b/src/wickrcrypto/src/stream_key_priv.c
index b8ac43f..3ee86d0 100644
--- a/src/wickrcrypto/src/stream_key_priv.c
+++ b/src/wickrcrypto/src/stream_key_priv.c
@@ -100,6 +100,7 @@ wickr_stream_key_t *wickr_stream_key_create_from_proto(const Wickr__Proto__Strea
     if (!stream_key) {
         wickr_cipher_key_destroy(&cipher_key);
         wickr_buffer_destroy_zero(&evo_key);
+        wickr_buffer_destroy(&user_data);
         return NULL;
     }
     
-- 
2.43.0


From d53adcc5aa7340278eb32d066aad1361cd8edad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 07/16] fix: re-signing a transport packet signed the old
 signature too and leaked it

---
 src/wickrcrypto/src/transport_packet.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wickrcrypto/src/transport_packet.c b/src/wickrcrypto/src/transport_packet.c
index 516b4a6..e06cf18 100644
--- a/src/wickrcrypto/src/transport_packet.c
+++ b/src/wickrcrypto/src/transport_packet.c
@@ -292,10 +292,14 @@ bool wickr_transport_packet_sign(wickr_transport_packet_t *pkt, const wickr_cryp
     }
     
     wickr_transport_packet_mac_type old_mac_type = pkt->meta.mac_type;
+    wickr_buffer_t *old_mac = pkt->mac;
     
+    /* A signature never covers the signature it replaces */
     pkt->meta.mac_type = new_mac_type;
+    pkt->mac = NULL;
     wickr_buffer_t *data_to_sign = wickr_transport_packet_serialize(pkt);
     pkt->meta.mac_type = old_mac_type;
+    pkt->mac = old_mac;
     
     if (!data_to_sign) {
         return false;
@@ -315,6 +319,9 @@ bool wickr_transport_packet_sign(wickr_transport_packet_t *pkt, const wickr_cryp
         return false;
     }
     
+    wickr_buffer_destroy(&pkt->mac);
+    wickr_buffer_destroy(&pkt->network_buffer);
+    
     pkt->mac = signature_buffer;
     pkt->meta.mac_type = new_mac_type;
     
-- 
2.43.0


From 1392d584294df6e89ab4898f65d6bb789bd0c4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 08/16] fix: handshake messages carrying the wrong payload kind
 were read as the expected one

---
 src/wickrcrypto/src/transport_handshake.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index bc9a349..075fa94 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -387,7 +387,8 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
         return;
     }
     
-    if (!handshake_data->response ||
+    if (handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_RESPONSE ||
+        !handshake_data->response ||
         !handshake_data->response->has_encrypted_response_data ||
         !handshake_data->response->has_ephemeral_pubkey) {
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
@@ -511,7 +512,8 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     
     Wickr__Proto__HandshakeV1 *handshake_data = wickr_proto_handshake_from_packet(packet);
     
-    if (!handshake_data || !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
+    if (!handshake_data || handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED
+        || !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
         || !handshake_data->seed->has_identity_required) {
         wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
-- 
2.43.0


From 945dcd957b79db88aafc4753fb5a184da78131bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:38 +0000
Subject: [PATCH 09/16] fix: failed transport handshakes leaked packets, keys
 and derived key material

---
 src/wickrcrypto/src/transport_handshake.c | 6 +++++-
 src/wickrcrypto/src/transport_root_key.c  | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 075fa94..c5ddd89 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -235,6 +235,7 @@ static wickr_transport_packet_t *__wickr_transport_handshake_build_signed_packet
     
     /* Sign the handshake packet */
     if (!handshake_pkt || !wickr_transport_packet_sign(handshake_pkt, &handshake->engine, handshake->local_identity)) {
+        wickr_transport_packet_destroy(&handshake_pkt);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return NULL;
     }
@@ -350,7 +351,7 @@ static wickr_kdf_meta_t *__wickr_transport_handshake_kdf_meta_gen(wickr_transpor
     wickr_kdf_meta_t *kdf_meta = wickr_kdf_meta_create(KDF_HKDF_SHA512, NULL, hashed_info);
     
     if (!kdf_meta) {
-        wickr_buffer_destroy(&info_data);
+        wickr_buffer_destroy(&hashed_info);
     }
     
     return kdf_meta;
@@ -487,6 +488,7 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
     wickr_buffer_destroy_zero(&response_buffer);
     
     if (!response_data || !response_data->root_key) {
+        wickr__proto__handshake_v1_response_data__free_unpacked(response_data, NULL);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return;
     }
@@ -561,6 +563,8 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     
     if (!handshake->root_key) {
         wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
+        wickr_ecdh_cipher_ctx_destroy(&cipher_ctx);
+        wickr_ec_key_destroy(&ephemeral_key);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return NULL;
     }
diff --git a/src/wickrcrypto/src/transport_root_key.c b/src/wickrcrypto/src/transport_root_key.c
index cb7df79..bf2b1e3 100644
--- a/src/wickrcrypto/src/transport_root_key.c
+++ b/src/wickrcrypto/src/transport_root_key.c
@@ -98,6 +98,7 @@ wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport
     wickr_kdf_result_t *raw_key_material = engine->wickr_crypto_kdf_meta(&kdf_meta, root_key->secret);
     
     if (!raw_key_material || raw_key_material->hash->length != root_key->cipher.key_len * 2) {
+        wickr_kdf_result_destroy(&raw_key_material);
         return NULL;
     }
     
@@ -106,6 +107,7 @@ wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport
     
     if (!cipher_key) {
         wickr_buffer_destroy_zero(&cipher_key_data);
+        wickr_kdf_result_destroy(&raw_key_material);
         return NULL;
     }
     
-- 
2.43.0


From f38e2bdaf9de77b20988160a6e1de5eb1ff4be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:01 +0000
Subject: [PATCH 10/16] fix: a late identity verdict moved a failed transport
 back to the active state

---
 src/wickrcrypto/src/transport_ctx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 53a1808..a85fa66 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -252,6 +252,11 @@ static void __wickr_transport_validate_identity_complete(const wickr_transport_c
     /* Remove const for internal work */
     wickr_transport_ctx_t *_ctx = (wickr_transport_ctx_t *)ctx;
     
+    /* The verdict may arrive after the transport has failed, an error is final */
+    if (!_ctx || _ctx->status == TRANSPORT_STATUS_ERROR) {
+        return;
+    }
+    
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
     
     if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-- 
2.43.0


From b3d5033cc85889a1a669495c4c72b3016fa842f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:14 +0000
Subject: [PATCH 11/16] fix: a transport whose streams could not be created
 answered its peer and reported no error

---
 src/wickrcrypto/src/transport_ctx.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index a85fa66..cd64bc0 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -222,6 +222,7 @@ static bool __wickr_transport_ctx_finalize_handshake(wickr_transport_ctx_t *ctx)
     
     if (!tx_stream) {
         wickr_stream_key_destroy(&tx_key);
+        wickr_transport_handshake_res_destroy(&res);
         return false;
     }
     
@@ -259,8 +260,11 @@ static void __wickr_transport_validate_identity_complete(const wickr_transport_c
     
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
     
-    if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(_ctx);
+    if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION &&
+        !__wickr_transport_ctx_finalize_handshake(_ctx)) {
+        wickr_transport_packet_destroy(&volley_packet);
+        __wickr_transport_ctx_set_error(_ctx, TRANSPORT_ERROR_HANDSHAKE_FAILED);
+        return;
     }
     
     if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
@@ -390,8 +394,11 @@ static void __wickr_transport_ctx_process_handshake_packet(wickr_transport_ctx_t
     /* Process the packet with the handshake */
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_process(ctx->pending_handshake, packet);
     
-    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(ctx);
+    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION &&
+        !__wickr_transport_ctx_finalize_handshake(ctx)) {
+        wickr_transport_packet_destroy(&volley_packet);
+        __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED);
+        return;
     }
     
     if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
-- 
2.43.0


From 831392d8af4a63c72591e688129a5256665f6f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:27 +0000
Subject: [PATCH 12/16] fix: starting a transport that is answering a handshake
 leaked and replaced that handshake

---
 src/wickrcrypto/src/transport_ctx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index cd64bc0..c6e25b0 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -316,7 +316,7 @@ static wickr_transport_handshake_t *__wickr_transport_ctx_create_handshake(const
 
 void wickr_transport_ctx_start(wickr_transport_ctx_t *ctx)
 {
-    if (!ctx || ctx->status != TRANSPORT_STATUS_NONE) {
+    if (!ctx || ctx->status != TRANSPORT_STATUS_NONE || ctx->pending_handshake) {
         __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_BAD_START_STATUS);
         return;
     }
-- 
2.43.0


From 7632c2fe35181a1da8c4cfb8562ad9eb50117273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:41 +0000
Subject: [PATCH 13/16] fix: transports without a known remote identity could
 not be copied

---
 src/wickrcrypto/src/transport_ctx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index c6e25b0..84744f6 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -76,7 +76,7 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
     
     wickr_identity_chain_t *remote_copy = wickr_identity_chain_copy(ctx->remote_identity);
     
-    if (!remote_copy) {
+    if (!remote_copy && ctx->remote_identity) {
         wickr_identity_chain_destroy(&local_copy);
         return NULL;
     }
@@ -117,6 +117,7 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
     copy->callbacks = ctx->callbacks;
     copy->evo_count = ctx->evo_count;
     copy->user = ctx->user;
+    copy->err = ctx->err;
     
     return copy;
 }
-- 
2.43.0


From 4110714be0df1972c8f243489b8b994a01726cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:35 +0000
Subject: [PATCH 14/16] fix: release the signature of a refused packet, check
 payload serialization

---
 src/wickrcrypto/src/protocol.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index 3813daf..2164a1f 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -271,6 +271,11 @@ wickr_packet_t *wickr_packet_create_with_components(const wickr_crypto_engine_t
     
     wickr_buffer_t *enc_payload_bytes = wickr_cipher_result_serialize(enc_payload);
     
+    if (!enc_payload_bytes) {
+        wickr_buffer_destroy(&enc_header_bytes);
+        return NULL;
+    }
+    
     proto_packet.enc_header.data = enc_header_bytes->bytes;
     proto_packet.enc_header.len = enc_header_bytes->length;
     proto_packet.enc_payload.data = enc_payload_bytes->bytes;
@@ -358,6 +363,7 @@ wickr_packet_t *wickr_packet_create_from_buffer(const wickr_buffer_t *buffer)
     if (!signature ||
         signature->digest_mode.digest_id != digest.digest_id ||
         signature->curve.identifier != curve->identifier) {
+        wickr_ecdsa_result_destroy(&signature);
         return NULL;
     }
     
@@ -395,6 +401,7 @@ wickr_buffer_t *wickr_packet_serialize(const wickr_packet_t *packet)
     wickr_buffer_t *sig_data = wickr_ecdsa_result_serialize(packet->signature);
     
     if (!sig_data || sig_data->length != packet->signature->curve.signature_size) {
+        wickr_buffer_destroy(&sig_data);
         return NULL;
     }
     
@@ -554,6 +561,7 @@ wickr_decode_result_t *wickr_decode_result_copy(const wickr_decode_result_t *res
     
     if (!copy) {
         wickr_payload_destroy(&payload_copy);
+        wickr_cipher_key_destroy(&cipher_key_copy);
     }
     
     return copy;
-- 
2.43.0


From 6e70e793b49919e38e2851793cc3f4b7af612e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:56 +0000
Subject: [PATCH 15/16] fix: release the derived key when an export has no
 parsable ciphertext

---
 src/wickrcrypto/src/crypto_engine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/crypto_engine.c b/src/wickrcrypto/src/crypto_engine.c
index 7178dea..a2f5671 100644
--- a/src/wickrcrypto/src/crypto_engine.c
+++ b/src/wickrcrypto/src/crypto_engine.c
@@ -153,6 +153,7 @@ wickr_buffer_t *wickr_crypto_engine_kdf_decipher(const wickr_crypto_engine_t *en
     wickr_cipher_result_t *cipher_result = wickr_cipher_result_from_buffer(&cipher_text);
     
     if (!cipher_result) {
+        wickr_kdf_result_destroy(&kdf_result);
         return NULL;
     }
     
-- 
2.43.0


From c0221e537e1a83db19dd159c1990d042a5a47f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:52 +0000
Subject: [PATCH 16/16] fix: context creation and copy fail cleanly when an
 engine call fails

---
 src/wickrcrypto/src/wickr_ctx.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index acf6bcb..ddf7b31 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -164,6 +164,10 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_recovery(const wickr_crypto_engine_t
     wickr_ctx_gen_result_t *gen_result = wickr_ctx_gen_with_root_keys(engine, dev_info, root_keys, identifier);
     wickr_root_keys_destroy(&root_keys);
     
+    if (!gen_result) {
+        return NULL;
+    }
+    
     /* Swap out the randomly assigned recovery key with the one that was specified */
     wickr_cipher_key_destroy(&gen_result->recovery_key);
     gen_result->recovery_key = wickr_cipher_key_copy(recovery_key);
@@ -217,12 +221,17 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_root_keys(const wickr_crypto_engine_t
     
     wickr_identity_chain_t *new_id_chain = wickr_identity_chain_create(root_identity, new_node_identity);
     
-    if (!new_id_chain || !wickr_identity_chain_validate(new_id_chain, &engine)) {
+    if (!new_id_chain) {
         wickr_identity_destroy(&new_node_identity);
         wickr_identity_destroy(&root_identity);
         return NULL;
     }
     
+    if (!wickr_identity_chain_validate(new_id_chain, &engine)) {
+        wickr_identity_chain_destroy(&new_id_chain);
+        return NULL;
+    }
+    
     wickr_storage_keys_t *new_storage_keys = wickr_root_keys_localize(root_keys, &engine, dev_info);
     
     if (!new_storage_keys) {
@@ -256,7 +265,7 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_root_keys(const wickr_crypto_engine_t
     
     wickr_root_keys_t *root_keys_copy = wickr_root_keys_copy(root_keys);
     
-    if (!root_keys) {
+    if (!root_keys_copy) {
         wickr_ctx_destroy(&ctx);
         wickr_cipher_key_destroy(&recovery_key);
         return NULL;
@@ -397,6 +406,7 @@ wickr_ctx_t *wickr_ctx_create(const wickr_crypto_engine_t engine, wickr_dev_info
     wickr_ctx_t *new_ctx = wickr_alloc_zero(sizeof(wickr_ctx_t));
     
     if (!new_ctx) {
+        wickr_cipher_key_destroy(&packet_header_key);
         return NULL;
     }
     
@@ -448,6 +458,7 @@ wickr_ctx_t *wickr_ctx_copy(const wickr_ctx_t *ctx)
         wickr_dev_info_destroy(&dev_info_copy);
         wickr_identity_chain_destroy(&id_chain_copy);
         wickr_storage_keys_destroy(&storage_keys_copy);
+        return NULL;
     }
     
     copy->pkt_enc_version = ctx->pkt_enc_version;
-- 
2.43.0


From 9c5ec0785466b043835859b951bae55dd6b449d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:41 +0000
Subject: [PATCH 01/29] fix: one-shot Prg::derive of zero bytes into a string
 threw instead of returning an empty string

---
 src/prg.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/prg.cpp b/src/prg.cpp
index b1ff2b4..4ee2318 100644
--- a/src/prg.cpp
+++ b/src/prg.cpp
@@ -46,14 +46,14 @@ static void prg_derivation(const unsigned char* key,
                            const size_t         len,
                            unsigned char*       out)
 {
-    if (out == nullptr) {
-        throw std::invalid_argument("out is NULL");
-    }
-
     if (len == 0) {
         return; /* LCOV_EXCL_LINE */
     }
 
+    if (out == nullptr) {
+        throw std::invalid_argument("out is NULL");
+    }
+
     const size_t mod_offset      = (offset % CHACHA20_BLOCK_SIZE);
     const size_t block_offset    = offset / CHACHA20_BLOCK_SIZE;
     const size_t max_block_index = (len + offset - 1) / CHACHA20_BLOCK_SIZE + 1;
-- 
2.43.0


From c36506ebe84dd7598299d3b747fa187b525d22e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:41 +0000
Subject: [PATCH 02/29] fix: Prg::derive left the key memory readable after
 rejecting a null output buffer

---
 src/prg.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/prg.cpp b/src/prg.cpp
index 4ee2318..da0a33e 100644
--- a/src/prg.cpp
+++ b/src/prg.cpp
@@ -134,6 +134,11 @@ void Prg::derive(const size_t   offset,
         return;
     }
 
+    if (out == nullptr) {
+        // check before unlocking: an exception must not leave the key readable
+        throw std::invalid_argument("out is NULL");
+    }
+
     prg_derivation(key_.unlock_get(), offset, len, out);
     key_.lock();
 }
-- 
2.43.0


From 12945f5e53ff53b3e3b2fde5e48d80c1f4a35bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:43 +0000
Subject: [PATCH 03/29] fix: RCPrf::eval and eval_range accepted leaves beyond
 the tree and rejected all but leaf 0 at height 64

---
 src/include/sse/crypto/rcprf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 0ccbcab..759138e 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1938,8 +1938,8 @@ private:
 template<uint16_t NBYTES>
 std::array<uint8_t, NBYTES> RCPrf<NBYTES>::eval(uint64_t leaf) const
 {
-    if (leaf >> this->tree_height() != 0) {
-        throw std::out_of_range("Invalid node index: leaf > 2^height -1.");
+    if (leaf > RCPrfParams::max_leaf_index(this->tree_height())) {
+        throw std::out_of_range("Invalid node index: leaf > 2^(height-1) -1.");
     }
 
     return static_cast<const RCPrf<NBYTES>*>(this)
@@ -1951,8 +1951,8 @@ void RCPrf<NBYTES>::eval_range(uint64_t             min,
                                uint64_t             max,
                                const callback_type& callback) const
 {
-    if (max >> this->tree_height() != 0) {
-        throw std::out_of_range("Invalid max index: max > 2^height -1.");
+    if (max > RCPrfParams::max_leaf_index(this->tree_height())) {
+        throw std::out_of_range("Invalid max index: max > 2^(height-1) -1.");
     }
     if (max < min) {
         throw std::invalid_argument(
-- 
2.43.0


From 91e2c52b3ddcd1d1d15c54fcd6144092cb0801de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:43 +0000
Subject: [PATCH 04/29] fix: constraining a constrained RC-PRF to an inverted
 range aborted or returned an empty key instead of throwing

---
 src/include/sse/crypto/rcprf.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 759138e..4c0053a 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1437,6 +1437,12 @@ void ConstrainedRCPrf<NBYTES>::generate_constrained_subkeys(
     std::vector<std::unique_ptr<ConstrainedRCPrfElement<NBYTES>>>&
         constrained_elements) const
 {
+    if (min > max) {
+        throw std::invalid_argument(
+            "ConstrainedRCPrf::generate_constrained_subkeys: Invalid range: "
+            "min is larger than max: max="
+            + std::to_string(max) + ", min=" + std::to_string(min));
+    }
     if (min < this->min_leaf() || max > this->max_leaf()) {
         throw std::out_of_range(
             "ConstrainedRCPrf::generate_constrained_subkeys: the input range ("
-- 
2.43.0


From baec014e94faa26041b9c3acd85347a031228e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:57 +0000
Subject: [PATCH 05/29] fix: RCPrf and ConstrainedRCPrf shared the same
 wrapping type byte

---
 src/include/sse/crypto/wrapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/wrapper.hpp b/src/include/sse/crypto/wrapper.hpp
index 576920b..5455024 100644
--- a/src/include/sse/crypto/wrapper.hpp
+++ b/src/include/sse/crypto/wrapper.hpp
@@ -363,7 +363,7 @@ class RCPrf;
 template<uint16_t NBYTES>
 struct Wrapper::TypeByte<RCPrf<NBYTES>>
 {
-    static constexpr uint8_t value = 0x06;
+    static constexpr uint8_t value = 0x05;
 };
 
 template<uint16_t NBYTES>
-- 
2.43.0


From d1dad7eab5137302b6f3531b476c553719b6fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:31 +0000
Subject: [PATCH 06/29] fix: Wrapper leaked its guarded buffer when unwrapping
 or wrapping failed

---
 src/include/sse/crypto/wrapper.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/include/sse/crypto/wrapper.hpp b/src/include/sse/crypto/wrapper.hpp
index 5455024..6a6f54a 100644
--- a/src/include/sse/crypto/wrapper.hpp
+++ b/src/include/sse/crypto/wrapper.hpp
@@ -27,6 +27,8 @@
 #include <algorithm>
 #include <array>
 #include <exception>
+#include <memory>
+#include <new>
 #include <vector>
 
 #include <sodium/crypto_stream_chacha20.h>
@@ -189,6 +191,19 @@ private:
 
     static constexpr uint16_t kEncryptionKeySize = 32U;
 
+    /// @brief  Guarded buffer, released (and erased) on every exit path
+    using GuardedBuffer = std::unique_ptr<uint8_t, void (*)(void*)>;
+
+    static GuardedBuffer allocate_buffer(size_t size)
+    {
+        GuardedBuffer buffer(static_cast<uint8_t*>(sodium_malloc(size)),
+                             sodium_free);
+        if (!buffer) {
+            throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+        }
+        return buffer;
+    }
+
     Prf<kTagSize>           tag_generator_;
     Key<kEncryptionKeySize> encryption_key_;
 };
@@ -200,7 +215,8 @@ std::vector<uint8_t> Wrapper::wrap(const CryptoClass& c) const
     const size_t buffer_size     = kRandomIVSize + serialized_size
                                + CryptoClass::kPublicContextSize
                                + 1; // the +1 is for the mandatory type byte
-    uint8_t* buffer = static_cast<uint8_t*>(sodium_malloc(buffer_size));
+    const GuardedBuffer buffer_owner = allocate_buffer(buffer_size);
+    uint8_t* const      buffer       = buffer_owner.get();
     // std::array<uint8_t, buffer_size> buffer;
 
     // put the random IV at the beggining
@@ -240,8 +256,6 @@ std::vector<uint8_t> Wrapper::wrap(const CryptoClass& c) const
                                     encryption_key_.unlock_get());
     encryption_key_.lock();
 
-    sodium_free(buffer);
-
     return out;
 }
 
@@ -257,7 +271,8 @@ CryptoClass Wrapper::unwrap(std::vector<uint8_t>& c_rep) const
     const size_t buffer_size = kRandomIVSize + data_size
                                + CryptoClass::kPublicContextSize
                                + 1; // the +1 is for the mandatory type byte
-    uint8_t* buffer = static_cast<uint8_t*>(sodium_malloc(buffer_size));
+    const GuardedBuffer buffer_owner = allocate_buffer(buffer_size);
+    uint8_t* const      buffer       = buffer_owner.get();
     // std::array<uint8_t, buffer_size> buffer;
 
     // copy the IV at the beggining of the buffer
@@ -319,8 +334,7 @@ CryptoClass Wrapper::unwrap(std::vector<uint8_t>& c_rep) const
         /* LCOV_EXCL_STOP */
     }
 
-    // free the buffer and zero the entry
-    sodium_free(buffer);
+    // zero the entry
     sodium_memzero(c_rep.data(), c_rep.size());
 
     return c;
-- 
2.43.0


From 47ee55acbe9047ae536bed98f8e551150a1c493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:14 +0000
Subject: [PATCH 07/29] fix: ConstrainedRCPrf::deserialize allocated memory for
 an unchecked number of elements

---
 src/include/sse/crypto/rcprf.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 4c0053a..4016273 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1566,6 +1566,17 @@ ConstrainedRCPrf<NBYTES> ConstrainedRCPrf<NBYTES>::deserialize(
     remaining_bytes -= sizeof(n_elts);
     n_bytes_read += sizeof(n_elts);
 
+    // every element takes at least kSerializedElementInfoSize bytes: do not
+    // allocate anything for elements that cannot be in the buffer
+    if (n_elts
+        > remaining_bytes
+              / ConstrainedRCPrfElement<NBYTES>::kSerializedElementInfoSize) {
+        /* LCOV_EXCL_START */
+        throw std::invalid_argument(
+            "ConstrainedRCPrf::deserialize: not enough bytes remaining to "
+            "deserialize the tree elements");
+        /* LCOV_EXCL_STOP */
+    }
 
     std::vector<std::unique_ptr<ConstrainedRCPrfElement<NBYTES>>>
         constrained_elements(n_elts);
-- 
2.43.0


From d36b802e6d6d6a648f1166ead6337e1ccff5d843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:17 +0000
Subject: [PATCH 08/29] fix: ConstrainedRCPrfElement accepted ranges outside
 the tree or not matching any of its subtrees

---
 src/include/sse/crypto/rcprf.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 4016273..fc60739 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -518,6 +518,8 @@ public:
     /// @exception std::invalid_argument       The maximum leaf index is
     ///                                        strictly smaller than the
     ///                                        minimum leaf index.
+    /// @exception std::invalid_argument       The range is not the one of a
+    ///                                        subtree of the tree.
     ///
     ConstrainedRCPrfElement(RCPrfParams::depth_type height,
                             RCPrfParams::depth_type st_height,
@@ -552,6 +554,14 @@ public:
                 + std::to_string(
                     RCPrfParams::max_leaf_index(this->subtree_height()) + 1));
         }
+        if (height >= RCPrfParams::kMaxHeight
+            || max > RCPrfParams::max_leaf_index(height)
+            || (min & (max - min)) != 0) {
+            throw std::invalid_argument(
+                "Invalid range: the range is not the one of a subtree: max="
+                + std::to_string(max) + ", min=" + std::to_string(min)
+                + ", tree height=" + std::to_string(height));
+        }
     }
 
     /// @brief Copy constructor
-- 
2.43.0


From b1f3e6537734e5393f35272ae6433a969c0e3860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:41 +0000
Subject: [PATCH 09/29] fix: Prp::encrypt left the key memory readable

---
 src/prp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/prp.cpp b/src/prp.cpp
index 4bd0fb2..b1ce4ae 100644
--- a/src/prp.cpp
+++ b/src/prp.cpp
@@ -196,6 +196,8 @@ void Prp::encrypt(const uint8_t* in, const unsigned int len, uint8_t* out)
                 reinterpret_cast<const char*>(in),
                 len,
                 reinterpret_cast<char*>(out));
+
+    aez_ctx_.lock();
 }
 
 void Prp::encrypt(const std::string& in, std::string& out)
-- 
2.43.0


From 5d64f3c99a1a4c156f6f533f2cf73215581bf103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:41 +0000
Subject: [PATCH 10/29] fix: Key() filled the key with random bytes only when
 memory locking is enabled

---
 src/include/sse/crypto/key.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index f284f91..e89f8ed 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -111,9 +111,9 @@ public:
         if (content_ == nullptr) {
             throw std::bad_alloc(); /* LCOV_EXCL_LINE */
         }
-#ifdef ENABLE_MEMORY_LOCK
-
         random_bytes(N, content_);
+
+#ifdef ENABLE_MEMORY_LOCK
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
-- 
2.43.0


From cc593ca6800b8d5c37f46da04bb8b72ac9280b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:41 +0000
Subject: [PATCH 11/29] fix: Key::data() returned a null pointer for an absent
 key when memory locking is disabled

---
 src/include/sse/crypto/key.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index e89f8ed..47fb6a4 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -356,6 +356,9 @@ private:
     ///
     const uint8_t* data() const
     {
+        if (content_ == nullptr) {
+            throw std::runtime_error("Memory is absent");
+        }
         if (is_locked()) {
             throw std::runtime_error("Memory is locked");
         }
-- 
2.43.0


From 21de4a06c0912bd4ecb87d8eef0e7b9589aa538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:41 +0000
Subject: [PATCH 12/29] fix: Key leaked its protected memory when the
 initialization callback threw

---
 src/include/sse/crypto/key.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index 47fb6a4..e795dd1 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -260,7 +260,12 @@ private:
             throw std::bad_alloc(); /* LCOV_EXCL_LINE */
         }
 
-        init_callback(content_); // use the callback to fill the key
+        try {
+            init_callback(content_); // use the callback to fill the key
+        } catch (...) {
+            sodium_free(content_);
+            throw;
+        }
 
 #ifdef ENABLE_MEMORY_LOCK
         int err = sodium_mprotect_noaccess(content_);
-- 
2.43.0


From 1785810187ab6e41d6e287e13f449045b1e298a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:56 +0000
Subject: [PATCH 13/29] fix: Prg::derive_keys leaked its guarded buffer when
 the derivation threw

---
 src/include/sse/crypto/prg.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/include/sse/crypto/prg.hpp b/src/include/sse/crypto/prg.hpp
index 2afa5ca..10f395a 100644
--- a/src/include/sse/crypto/prg.hpp
+++ b/src/include/sse/crypto/prg.hpp
@@ -460,8 +460,13 @@ std::vector<Key<K>> Prg::derive_keys(const uint16_t n_keys,
         return std::vector<Key<K>>(); // return empty vector
     }
 
-    uint8_t* key_buffer
-        = reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K));
+    // released and erased on every exit path
+    const std::unique_ptr<uint8_t, void (*)(void*)> buffer_owner(
+        reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K)), sodium_free);
+    uint8_t* key_buffer = buffer_owner.get();
+    if (key_buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
 
     this->derive(key_offset * K, n_keys * K, key_buffer);
 
@@ -471,8 +476,6 @@ std::vector<Key<K>> Prg::derive_keys(const uint16_t n_keys,
         derived_keys.push_back(Key<K>(key_buffer + i * K));
     }
 
-    sodium_free(key_buffer);
-
     return derived_keys;
 }
 
@@ -504,8 +507,13 @@ std::vector<Key<K>> Prg::derive_keys(Key<kKeySize>&& k,
     }
 
 
-    uint8_t* key_buffer
-        = reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K));
+    // released and erased on every exit path
+    const std::unique_ptr<uint8_t, void (*)(void*)> buffer_owner(
+        reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K)), sodium_free);
+    uint8_t* key_buffer = buffer_owner.get();
+    if (key_buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
 
     derive(std::move(k), key_offset * K, n_keys * K, key_buffer);
 
@@ -515,8 +523,6 @@ std::vector<Key<K>> Prg::derive_keys(Key<kKeySize>&& k,
         derived_keys.push_back(Key<K>(key_buffer + i * K));
     }
 
-    sodium_free(key_buffer);
-
     return derived_keys;
 }
 
-- 
2.43.0


From 5ed9eb9fc51800856f0219879048eefcab03f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:06 +0000
Subject: [PATCH 14/29] fix: RCPrf accepted height 1, for which every
 evaluation aborted

---
 src/include/sse/crypto/rcprf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index fc60739..1f77737 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1805,9 +1805,9 @@ public:
     RCPrf(Key<RCPrfParams::kKeySize>&& key, RCPrfParams::depth_type height)
         : RCPrfBase<NBYTES>(height), root_prg_(std::move(key))
     {
-        if (height == 0) {
+        if (height <= 1) {
             throw std::invalid_argument(
-                "Invalid height: height must be non-zero");
+                "Invalid height: height must be larger than 1");
         }
         if (height > 64) {
             throw std::invalid_argument(
@@ -1931,9 +1931,9 @@ private:
         // deserialize function, so the next checks should always fail. Yet, for
         // the sake of security, let's keep them here. However, they cannot be
         // tested properly, so remove them from the code coverage.
-        if (height == 0) {
+        if (height <= 1) {
             throw std::invalid_argument(
-                "Invalid height: height must be non-zero");
+                "Invalid height: height must be larger than 1");
         }
         if (height > 64) {
             throw std::invalid_argument(
-- 
2.43.0


From 4a1a605c650c7ece89380080353830d5fd383a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:45 +0000
Subject: [PATCH 15/29] fix: TdpMultPool of size 1 wrote past its key array

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index bfca8af..fb6faee 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -723,21 +723,14 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
 
     keys_ = new mbedtls_rsa_context[keys_count_];
 
-    mbedtls_rsa_init(keys_, 0, 0);
-    mbedtls_rsa_copy(keys_, &rsa_key_);
-
-    mbedtls_mpi_mul_int(&keys_[0].E, &keys_[0].E, RSA_PK);
-
-    if (mbedtls_rsa_check_pubkey(&keys_[0]) != 0) {
-        throw std::runtime_error("Invalid public key generated during the TDP "
-                                 "pool initialization"); /* LCOV_EXCL_LINE */
-    }
+    for (uint8_t i = 0; i < keys_count_; i++) {
+        const mbedtls_rsa_context* previous
+            = (i == 0) ? &rsa_key_ : &keys_[i - 1];
 
-    for (uint8_t i = 1; i < keys_count_; i++) {
         mbedtls_rsa_init(&keys_[i], 0, 0);
-        mbedtls_rsa_copy(&keys_[i], &keys_[i - 1]);
+        mbedtls_rsa_copy(&keys_[i], previous);
 
-        mbedtls_mpi_mul_int(&keys_[i].E, &keys_[i - 1].E, RSA_PK);
+        mbedtls_mpi_mul_int(&keys_[i].E, &previous->E, RSA_PK);
 
         if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
             throw std::runtime_error(
-- 
2.43.0


From 26c27f15ca114bf3e1889f536487ca5dd851525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:45 +0000
Subject: [PATCH 16/29] fix: TdpMultPool used the default exponent instead of
 the key's for orders above 1

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index fb6faee..1abb7c7 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -730,7 +730,7 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
         mbedtls_rsa_init(&keys_[i], 0, 0);
         mbedtls_rsa_copy(&keys_[i], previous);
 
-        mbedtls_mpi_mul_int(&keys_[i].E, &previous->E, RSA_PK);
+        mbedtls_mpi_mul_mpi(&keys_[i].E, &previous->E, &rsa_key_.E);
 
         if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
             throw std::runtime_error(
-- 
2.43.0


From 9cb096e71cffe6e51c96fe70af8902e0e52a747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:45 +0000
Subject: [PATCH 17/29] fix: TdpMultPool accepted order 0 and read outside its
 key array

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 1abb7c7..768f623 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -811,7 +811,7 @@ TdpMultPoolImpl_mbedTLS::eval_pool(
         // regular eval
         key = &rsa_key_;
 
-    } else if (order <= maximum_order()) {
+    } else if (order > 1 && order <= maximum_order()) {
         // get the right RSA context, i.e. the one in keys_[order-1]
         key = &keys_[order - 2];
     } else {
-- 
2.43.0


From 099ac50ab6ca3681705e411951035a4cd4ab8559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:45 +0000
Subject: [PATCH 18/29] fix: TdpInverse::invert_mult did not check the size of
 a string message

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 768f623..fab84a5 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -700,6 +700,11 @@ void TdpInverseImpl_mbedTLS::invert_mult(const std::string& in,
                                          std::string&       out,
                                          uint32_t           order) const
 {
+    if (in.size() != kMessageSpaceSize) {
+        throw std::invalid_argument("Invalid TDP input size. Input size should "
+                                    "be kMessageSpaceSize bytes long.");
+    }
+
     std::array<uint8_t, kMessageSpaceSize> in_array;
 
     memcpy(in_array.data(), in.data(), kMessageSpaceSize);
-- 
2.43.0


From 05fe90cf1546044f9350d6ba5d15ef05fd7b83b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:58 +0000
Subject: [PATCH 19/29] fix: Tdp and TdpInverse accepted RSA keys of any size
 and overflowed their message buffers

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index fab84a5..21664bb 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -87,6 +87,13 @@ TdpImpl_mbedTLS::TdpImpl_mbedTLS(const std::string& pk)
                                  "initialization");
         /* LCOV_EXCL_STOP */
     }
+
+    if (rsa_size() != kMessageSpaceSize) {
+        /* LCOV_EXCL_START */
+        throw std::runtime_error("Invalid RSA public key: the modulus should "
+                                 "be kMessageSpaceSize bytes long");
+        /* LCOV_EXCL_STOP */
+    }
 }
 
 TdpImpl_mbedTLS::TdpImpl_mbedTLS(const TdpImpl_mbedTLS& tdp)
@@ -422,6 +429,12 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS(const std::string& sk)
             "initialization from existing secret key"); /* LCOV_EXCL_LINE */
     }
 
+    if (rsa_size() != kMessageSpaceSize) {
+        throw std::runtime_error(
+            "Invalid RSA private key: the modulus should be "
+            "kMessageSpaceSize bytes long"); /* LCOV_EXCL_LINE */
+    }
+
     if (mbedtls_mpi_sub_int(&p_1_, &rsa_key_.P, 1) != 0) {
         throw std::runtime_error(
             "Failed MPI substraction"); /* LCOV_EXCL_LINE */
-- 
2.43.0


From 59341647a3f70b43cce34da6d6626d4eaebb28a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:58 +0000
Subject: [PATCH 20/29] fix: Tdp leaked the parsed key when its constructor
 rejected it

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 21664bb..e67dfac 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -83,6 +83,7 @@ TdpImpl_mbedTLS::TdpImpl_mbedTLS(const std::string& pk)
 
     if (mbedtls_rsa_check_pubkey(&rsa_key_) != 0) {
         /* LCOV_EXCL_START */
+        mbedtls_rsa_free(&rsa_key_);
         throw std::runtime_error("Invalid public key generated during the TDP "
                                  "initialization");
         /* LCOV_EXCL_STOP */
@@ -90,6 +91,7 @@ TdpImpl_mbedTLS::TdpImpl_mbedTLS(const std::string& pk)
 
     if (rsa_size() != kMessageSpaceSize) {
         /* LCOV_EXCL_START */
+        mbedtls_rsa_free(&rsa_key_);
         throw std::runtime_error("Invalid RSA public key: the modulus should "
                                  "be kMessageSpaceSize bytes long");
         /* LCOV_EXCL_STOP */
-- 
2.43.0


From 1537288121157bd0be9c61e8db11fda0e582fa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 21/29] fix: mbedtls_mpi_exp_mod dereferenced a null pointer
 for an unset modulus

---
 src/mbedtls/bignum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 0c0f549..b3d6429 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1554,7 +1554,7 @@ int mbedtls_mpi_exp_mod( mbedtls_mpi *X, const mbedtls_mpi *A, const mbedtls_mpi
     mbedtls_mpi RR, T, W[ 2 << MBEDTLS_MPI_WINDOW_SIZE ], Apos;
     int neg;
 
-    if( mbedtls_mpi_cmp_int( N, 0 ) < 0 || ( N->p[0] & 1 ) == 0 )
+    if( mbedtls_mpi_cmp_int( N, 0 ) <= 0 || ( N->p[0] & 1 ) == 0 )
         return( MBEDTLS_ERR_MPI_BAD_INPUT_DATA );
 
     if( mbedtls_mpi_cmp_int( E, 0 ) < 0 )
-- 
2.43.0


From 3f17ff85183e921d6375d14fa03e8e0c18c90323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 22/29] fix: mbedtls_mpi_mod_int dereferenced a null pointer
 for an unset number modulo 2

---
 src/mbedtls/bignum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index b3d6429..c3c23f8 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1435,7 +1435,7 @@ int mbedtls_mpi_mod_int( mbedtls_mpi_uint *r, const mbedtls_mpi *A, mbedtls_mpi_
 
     if( b == 2 )
     {
-        *r = A->p[0] & 1;
+        *r = mbedtls_mpi_get_bit( A, 0 );
         return( 0 );
     }
 
-- 
2.43.0


From d3a4e6cb5956ce0adfe63a3c4d7037eb9d568513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 23/29] fix: mbedtls_mpi_mod_int was wrong for moduli of more
 than half a limb

---
 src/mbedtls/bignum.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index c3c23f8..00b18f8 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1416,7 +1416,7 @@ cleanup:
 int mbedtls_mpi_mod_int( mbedtls_mpi_uint *r, const mbedtls_mpi *A, mbedtls_mpi_sint b )
 {
     size_t i;
-    mbedtls_mpi_uint x, y, z;
+    mbedtls_mpi_uint y;
 
     if( b == 0 )
         return( MBEDTLS_ERR_MPI_DIVISION_BY_ZERO );
@@ -1444,15 +1444,7 @@ int mbedtls_mpi_mod_int( mbedtls_mpi_uint *r, const mbedtls_mpi *A, mbedtls_mpi_
      */
     for( i = A->n, y = 0; i > 0; i-- )
     {
-        x  = A->p[i - 1];
-        y  = ( y << biH ) | ( x >> biH );
-        z  = y / b;
-        y -= z * b;
-
-        x <<= biH;
-        y  = ( y << biH ) | ( x >> biH );
-        z  = y / b;
-        y -= z * b;
+        (void) mbedtls_int_div_int( y, A->p[i - 1], b, &y );
     }
 
     /*
-- 
2.43.0


From b78cb008054c446bc1824368a5af777ea2bd562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 24/29] fix: mbedtls_mpi_div_mpi was wrong when the quotient
 aliased an operand

---
 src/mbedtls/bignum.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 00b18f8..514ca2a 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1263,6 +1263,8 @@ int mbedtls_mpi_div_mpi( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, c
 {
     int ret;
     size_t i, n, t, k;
+    /* Q and R may alias A and B */
+    const int sa = A->s, sb = B->s;
     mbedtls_mpi X, Y, Z, T1, T2;
 
     if( mbedtls_mpi_cmp_int( B, 0 ) == 0 )
@@ -1273,8 +1275,8 @@ int mbedtls_mpi_div_mpi( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, c
 
     if( mbedtls_mpi_cmp_abs( A, B ) < 0 )
     {
-        if( Q != NULL ) MBEDTLS_MPI_CHK( mbedtls_mpi_lset( Q, 0 ) );
         if( R != NULL ) MBEDTLS_MPI_CHK( mbedtls_mpi_copy( R, A ) );
+        if( Q != NULL ) MBEDTLS_MPI_CHK( mbedtls_mpi_lset( Q, 0 ) );
         return( 0 );
     }
 
@@ -1350,13 +1352,13 @@ int mbedtls_mpi_div_mpi( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, c
     if( Q != NULL )
     {
         MBEDTLS_MPI_CHK( mbedtls_mpi_copy( Q, &Z ) );
-        Q->s = A->s * B->s;
+        Q->s = sa * sb;
     }
 
     if( R != NULL )
     {
         MBEDTLS_MPI_CHK( mbedtls_mpi_shift_r( &X, k ) );
-        X.s = A->s;
+        X.s = sa;
         MBEDTLS_MPI_CHK( mbedtls_mpi_copy( R, &X ) );
 
         if( mbedtls_mpi_cmp_int( R, 0 ) == 0 )
-- 
2.43.0


From 8bdba2974b5ce43046d9b19d5dcdf42ad1920ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 25/29] fix: mbedtls_mpi_mod_mpi never returned when the result
 aliased the modulus

---
 src/mbedtls/bignum.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 514ca2a..e2ce872 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1395,10 +1395,15 @@ int mbedtls_mpi_div_int( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, m
 int mbedtls_mpi_mod_mpi( mbedtls_mpi *R, const mbedtls_mpi *A, const mbedtls_mpi *B )
 {
     int ret;
+    mbedtls_mpi TB;
 
     if( mbedtls_mpi_cmp_int( B, 0 ) < 0 )
         return( MBEDTLS_ERR_MPI_NEGATIVE_VALUE );
 
+    mbedtls_mpi_init( &TB );
+
+    if( R == B ) { MBEDTLS_MPI_CHK( mbedtls_mpi_copy( &TB, B ) ); B = &TB; }
+
     MBEDTLS_MPI_CHK( mbedtls_mpi_div_mpi( NULL, R, A, B ) );
 
     while( mbedtls_mpi_cmp_int( R, 0 ) < 0 )
@@ -1409,6 +1414,8 @@ int mbedtls_mpi_mod_mpi( mbedtls_mpi *R, const mbedtls_mpi *A, const mbedtls_mpi
 
 cleanup:
 
+    mbedtls_mpi_free( &TB );
+
     return( ret );
 }
 
-- 
2.43.0


From c0033c470788c0a173f278b23179e617732b48d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 26/29] fix: mbedtls_mpi_exp_mod returned the modulus instead
 of zero for negative multiples of it

---
 src/mbedtls/bignum.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index e2ce872..9b91caa 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1731,7 +1731,8 @@ int mbedtls_mpi_exp_mod( mbedtls_mpi *X, const mbedtls_mpi *A, const mbedtls_mpi
      */
     MBEDTLS_MPI_CHK( mpi_montred( X, N, mm, &T ) );
 
-    if( neg && E->n != 0 && ( E->p[0] & 1 ) != 0 )
+    if( neg && E->n != 0 && ( E->p[0] & 1 ) != 0 &&
+        mbedtls_mpi_cmp_int( X, 0 ) != 0 )
     {
         X->s = -1;
         MBEDTLS_MPI_CHK( mbedtls_mpi_add_mpi( X, N, X ) );
-- 
2.43.0


From 9f61567fee8b2163a42f9627d68bb7ed675cd6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 27/29] fix: mbedtls_mpi_gcd(A, 0) was 0 instead of A

---
 src/mbedtls/bignum.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 9b91caa..a729ecb 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1776,6 +1776,13 @@ int mbedtls_mpi_gcd( mbedtls_mpi *G, const mbedtls_mpi *A, const mbedtls_mpi *B
 
     TA.s = TB.s = 1;
 
+    /* The loop below is only correct for B != 0 */
+    if( mbedtls_mpi_cmp_int( &TB, 0 ) == 0 )
+    {
+        ret = mbedtls_mpi_copy( G, &TA );
+        goto cleanup;
+    }
+
     while( mbedtls_mpi_cmp_int( &TA, 0 ) != 0 )
     {
         MBEDTLS_MPI_CHK( mbedtls_mpi_shift_r( &TA, mbedtls_mpi_lsb( &TA ) ) );
-- 
2.43.0


From 9f529a2bc21a4cd3d013e8cb484d9fb0062f72cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:20 +0000
Subject: [PATCH 28/29] fix: mbedtls_mpi_exp_mod dereferenced a null pointer
 when the base was never set

---
 src/mbedtls/bignum.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index a729ecb..84d0463 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1616,6 +1616,9 @@ int mbedtls_mpi_exp_mod( mbedtls_mpi *X, const mbedtls_mpi *A, const mbedtls_mpi
     else
         MBEDTLS_MPI_CHK( mbedtls_mpi_copy( &W[1], A ) );
 
+    /* copying a base that was never set (zero) drops the limbs of W[1] */
+    MBEDTLS_MPI_CHK( mbedtls_mpi_grow( &W[1], N->n + 1 ) );
+
     MBEDTLS_MPI_CHK( mpi_montmul( &W[1], &RR, N, mm, &T ) );
 
     /*
-- 
2.43.0


From 709b6092bf8358b9a2aed94ba5ac8208880e153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:56 +0000
Subject: [PATCH 29/29] fix: mbedtls_asn1_write_mpi encoded zero as an empty
 INTEGER and read past the end of the buffer

---
 src/mbedtls/asn1write.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mbedtls/asn1write.c b/src/mbedtls/asn1write.c
index f3f75df..1557096 100644
--- a/src/mbedtls/asn1write.c
+++ b/src/mbedtls/asn1write.c
@@ -138,6 +138,11 @@ int mbedtls_asn1_write_mpi( unsigned char **p, unsigned char *start, const mbedt
     //
     len = mbedtls_mpi_size( X );
 
+    // DER represents 0 with one (zero) byte, not as an empty string
+    //
+    if( len == 0 )
+        len = 1;
+
     if( *p < start || (size_t)( *p - start ) < len )
         return( MBEDTLS_ERR_ASN1_BUF_TOO_SMALL );
 
-- 
2.43.0


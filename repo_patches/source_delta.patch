From 3eb0112e03919e17504217aea4d57369b18e03b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 01/24] fix: AES::init() restores the default all-zero
 initialisation vector

The literal was a C string of NULs (an empty std::string), and the member
shadowed the default, so init() kept whatever vector was set before.
---
 includes/aes.hpp      | 2 +-
 src/utilities/aes.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/includes/aes.hpp b/includes/aes.hpp
index c9ee756..f5cd806 100644
--- a/includes/aes.hpp
+++ b/includes/aes.hpp
@@ -16,7 +16,7 @@ namespace aes
 #define CRYPTO_NOOVERLAP 1 
 
 using std::string;
-static const string iv = "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
+static const string iv(16, '\0');
 
 
 typedef mpz_class ctxt_t;
diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 570933a..03b77a9 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -11,7 +11,7 @@
 
 namespace aes
 {
-string AES::iv;
+string AES::iv(16, '\0');
 
 void handleErrors(void)
 {
@@ -34,7 +34,7 @@ void AES::init(const string iv)
 
 void AES::init()
 {
-    AES::iv = iv;
+    AES::iv = aes::iv;
 }
 
 ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
-- 
2.43.0


From ffe091117648194a3d4259a804f8560521e6211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 02/24] fix: AES: size the output buffer by the input and
 release the raw copies

Messages and ciphertexts longer than 128 bytes overflowed a stack buffer, and
every call leaked the exported key and text.
---
 src/utilities/aes.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 03b77a9..0884288 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -3,6 +3,8 @@
 #include <openssl/aes.h>
 #include <openssl/err.h>
 #include <iostream>   
+#include <stdlib.h>
+#include <vector>
 
 #include "aes.hpp"
 #include "utilities.hpp"
@@ -41,12 +43,12 @@ ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
-    unsigned char ciphertext[128];
     uint8_t *ptarr;
     uint8_t *keyarr;
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
     utils::getRawMpz(&keyarr, key);
+    std::vector<unsigned char> ciphertext(pt_len + EVP_MAX_BLOCK_LENGTH);
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
@@ -65,7 +67,7 @@ ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
     /* Provide the message to be encrypted, and obtain the encrypted output.
      * EVP_EncryptUpdate can be called multiple times if necessary
      */
-    if(1 != EVP_EncryptUpdate(ctx, ciphertext, &len, (unsigned char*)ptarr, pt_len))
+    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data(), &len, (unsigned char*)ptarr, pt_len))
         handleErrors();
 
     ciphertext_len = len;
@@ -73,7 +75,7 @@ ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
     /* Finalise the encryption. Normally ciphertext bytes may be written at
      * this stage, but this does not occur in GCM mode
      */
-    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext + len, &len)) handleErrors();
+    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + len, &len)) handleErrors();
     ciphertext_len += len;
 
     // /* Get the tag */
@@ -82,24 +84,24 @@ ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
 
     /* Clean up */
     EVP_CIPHER_CTX_free(ctx);
+    free(ptarr);
+    free(keyarr);
 
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
-    return utils::setRawMpz(ciphertext,ciphertext_len);
+    return utils::setRawMpz(ciphertext.data(),ciphertext_len);
 }
 
 msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
-    // unsigned char plaintext[128];
-    unsigned char plaintext[128];
     uint8_t *ctxtarr;
     uint8_t *keyarr;
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
     utils::getRawMpz(&keyarr, key);
-
+    std::vector<unsigned char> plaintext(ctxt_len + EVP_MAX_BLOCK_LENGTH);
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
@@ -120,7 +122,7 @@ msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
     /* Provide the message to be decrypted, and obtain the plaintext output.
      * EVP_DecryptUpdate can be called multiple times if necessary
      */
-    if(!EVP_DecryptUpdate(ctx, plaintext, &len, (unsigned char*)ctxtarr, ctxt_len))
+    if(!EVP_DecryptUpdate(ctx, plaintext.data(), &len, (unsigned char*)ctxtarr, ctxt_len))
         handleErrors();
 
     plaintext_len = len;
@@ -132,14 +134,16 @@ msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
     /* Finalise the decryption. A positive return value indicates success,
      * anything else is a failure - the plaintext is not trustworthy.
      */
-    EVP_DecryptFinal_ex(ctx, plaintext + len, &len);
+    EVP_DecryptFinal_ex(ctx, plaintext.data() + len, &len);
     plaintext_len += len;
 
     /* Clean up */
     EVP_CIPHER_CTX_free(ctx);
+    free(ctxtarr);
+    free(keyarr);
     // plaintext[plaintext_len] = '\0';
 
-    return utils::setRawMpz(plaintext, plaintext_len);
+    return utils::setRawMpz(plaintext.data(), plaintext_len);
 }    
 
 ctxt_t AES::encryptCRC(const mpz_class key, const msg_t plaintext) const
-- 
2.43.0


From 86a70df04301605bef6a3434902c8e1cc3dbb7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 03/24] fix: AES: keep leading zero bytes of keys and
 ciphertexts

Keys and ciphertexts travel as integers, which drop leading zero bytes: about
one ciphertext in 256 could not be decrypted again, and a short key made the
cipher read past its buffer. Keys are padded to 16 bytes and ciphertexts start
with a marker byte.
---
 src/utilities/aes.cpp | 44 ++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 0884288..cc64d8f 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -3,6 +3,7 @@
 #include <openssl/aes.h>
 #include <openssl/err.h>
 #include <iostream>   
+#include <algorithm>
 #include <stdlib.h>
 #include <vector>
 
@@ -39,22 +40,37 @@ void AES::init()
     AES::iv = aes::iv;
 }
 
+/* The cipher reads exactly CRYPTO_KEYBYTES bytes: a key with leading zero bytes is padded to that length */
+static std::vector<unsigned char> getRawKey(const mpz_class& key)
+{
+    uint8_t *arr;
+    size_t len = utils::getRawMpz(&arr, key);
+    std::vector<unsigned char> raw(CRYPTO_KEYBYTES, 0);
+    size_t used = std::min(len, raw.size());
+    std::copy(arr, arr + used, raw.end() - used);
+    free(arr);
+    return raw;
+}
+
+/* First byte of every ciphertext: an integer does not keep leading zero bytes, and they are part of the ciphertext */
+static const unsigned char CTXT_MARKER = 1;
+
 ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
     uint8_t *ptarr;
-    uint8_t *keyarr;
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
-    utils::getRawMpz(&keyarr, key);
-    std::vector<unsigned char> ciphertext(pt_len + EVP_MAX_BLOCK_LENGTH);
+    std::vector<unsigned char> rawkey = getRawKey(key);
+    std::vector<unsigned char> ciphertext(1 + pt_len + EVP_MAX_BLOCK_LENGTH);
+    ciphertext[0] = CTXT_MARKER;
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
 
     /* Initialise the encryption operation. */
-    if(1 != EVP_EncryptInit_ex(ctx, EVP_aes_128_ctr(), NULL,(unsigned char*)keyarr, (unsigned char*)AES::iv.c_str()))
+    if(1 != EVP_EncryptInit_ex(ctx, EVP_aes_128_ctr(), NULL,rawkey.data(), (unsigned char*)AES::iv.c_str()))
         handleErrors();
 
     // /* Set IV length if default 12 bytes (96 bits) is not appropriate */
@@ -67,7 +83,7 @@ ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
     /* Provide the message to be encrypted, and obtain the encrypted output.
      * EVP_EncryptUpdate can be called multiple times if necessary
      */
-    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data(), &len, (unsigned char*)ptarr, pt_len))
+    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data() + 1, &len, (unsigned char*)ptarr, pt_len))
         handleErrors();
 
     ciphertext_len = len;
@@ -75,7 +91,7 @@ ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
     /* Finalise the encryption. Normally ciphertext bytes may be written at
      * this stage, but this does not occur in GCM mode
      */
-    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + len, &len)) handleErrors();
+    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + 1 + len, &len)) handleErrors();
     ciphertext_len += len;
 
     // /* Get the tag */
@@ -85,11 +101,10 @@ ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
     /* Clean up */
     EVP_CIPHER_CTX_free(ctx);
     free(ptarr);
-    free(keyarr);
 
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
-    return utils::setRawMpz(ciphertext.data(),ciphertext_len);
+    return utils::setRawMpz(ciphertext.data(),1 + ciphertext_len);
 }
 
 msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
@@ -97,17 +112,21 @@ msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
     uint8_t *ctxtarr;
-    uint8_t *keyarr;
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
-    utils::getRawMpz(&keyarr, key);
+    if(ctxt_len == 0 || ctxtarr[0] != CTXT_MARKER)
+    {
+        free(ctxtarr);
+        return msg_t(0);
+    }
+    std::vector<unsigned char> rawkey = getRawKey(key);
     std::vector<unsigned char> plaintext(ctxt_len + EVP_MAX_BLOCK_LENGTH);
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
 
     /* Initialise the decryption operation. */
-    if(!EVP_DecryptInit_ex(ctx, EVP_aes_128_ctr(), NULL, (unsigned char*)keyarr, (unsigned char*)AES::iv.c_str()))
+    if(!EVP_DecryptInit_ex(ctx, EVP_aes_128_ctr(), NULL, rawkey.data(), (unsigned char*)AES::iv.c_str()))
         handleErrors();
 
     // /* Set IV length. Not necessary if this is 12 bytes (96 bits) */
@@ -122,7 +141,7 @@ msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
     /* Provide the message to be decrypted, and obtain the plaintext output.
      * EVP_DecryptUpdate can be called multiple times if necessary
      */
-    if(!EVP_DecryptUpdate(ctx, plaintext.data(), &len, (unsigned char*)ctxtarr, ctxt_len))
+    if(!EVP_DecryptUpdate(ctx, plaintext.data(), &len, (unsigned char*)ctxtarr + 1, ctxt_len - 1))
         handleErrors();
 
     plaintext_len = len;
@@ -140,7 +159,6 @@ msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
     /* Clean up */
     EVP_CIPHER_CTX_free(ctx);
     free(ctxtarr);
-    free(keyarr);
     // plaintext[plaintext_len] = '\0';
 
     return utils::setRawMpz(plaintext.data(), plaintext_len);
-- 
2.43.0


From ac378c977715e1798fffcadc7ac99550350de6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 04/24] fix: CRC: allocate room for the checksum and refuse
 values shorter than one

appendCRC wrote four bytes past the exported integer; validateCRC and removeCRC
read before the buffer when the value was shorter than a checksum; all three
leaked it.
---
 includes/crc.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/includes/crc.hpp b/includes/crc.hpp
index 68c257a..5d518ef 100644
--- a/includes/crc.hpp
+++ b/includes/crc.hpp
@@ -49,6 +49,7 @@
 
 #include <sys/param.h>
 #include <stdint.h>
+#include <stdlib.h>
 #include <gmpxx.h>
 #include <iostream>
 #include "utilities.hpp"
@@ -770,9 +771,11 @@ const mpz_class appendCRC(mpz_class n)
 
     uint32_t crc32c =  0; 
     crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len);
+    res = (uint8_t*) realloc(res, len+4);
     memcpy(res+len, &crc32c, 4);
 
     mpz_class r = utils::setRawMpz(res, len+4);    
+    free(res);
     return r;
 
 }
@@ -781,6 +784,11 @@ const bool validateCRC(mpz_class n)
 {
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
+    if (len < 4)
+    {
+        free(res);
+        return false;
+    }
 
     uint32_t value = 0;    
     value |= *(res + len -4) ;
@@ -790,6 +798,7 @@ const bool validateCRC(mpz_class n)
     
     uint32_t crc32c =  0; 
     crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len-4);
+    free(res);
     
     return (crc32c == value);
 }
@@ -798,8 +807,14 @@ const mpz_class removeCRC(mpz_class n)
 {
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
+    if (len < 4)
+    {
+        free(res);
+        return mpz_class(0);
+    }
     
     mpz_class r = utils::setRawMpz(res, len-4);    
+    free(res);
     return r;
 
 }
-- 
2.43.0


From 88caaa46046d59ffab0b94226742d9bb032ebd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 05/24] fix: ECC: a point stays on its curve after decoding a
 value that is no coordinate

setEncodedX replaced the curve pointer by null for a non-residue, so the next
decoding into the same point crashed.
---
 includes/ecc_template.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 4eb6e95..456101f 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -284,11 +284,13 @@ Field_XXX_n
     mpz_class res,bit;
     bit = mpz_tstbit(ex.get_mpz_t(),0);
     mpz_div_2exp(res.get_mpz_t(),ex.get_mpz_t(),1);
+    Curve_XXX* c = curve;
 
     if (bit)
-        *this = curve->evaluateP(res);
+        *this = c->evaluateP(res);
     else
-        *this = curve->evaluatePneg(res);
+        *this = c->evaluatePneg(res);
+    curve = c;
 }
 
 
-- 
2.43.0


From 2ff1b4bdf5bc586c1dcff008163fc63396973f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 06/24] fix: ECC: subtraction and doubling with the identity

P - O used the identity's coordinates as a point, O - P and 2O read a null
curve.
---
 includes/ecc_template.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 456101f..f2b0b78 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -355,9 +355,12 @@ Field_XXX_p,
 Field_XXX_n
 >::operator- (const Point_XXX& P) const
 {
-    assert(*this->curve == *P.curve);
+    if(P.is_inf)
+        return *static_cast<const Point_XXX*>(this);
+
+    assert(is_inf || *this->curve == *P.curve);
 
-    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, curve);
+    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, P.curve);
 
     
     return *this + Q;
@@ -555,6 +558,9 @@ Field_XXX_p,
 Field_XXX_n
 >::pointDouble() const
 {
+    if(is_inf)
+        return *static_cast<const Point_XXX*>(this);
+
     Field_XXX_p T1;
     Field_XXX_p T2;
     Field_XXX_p S;
-- 
2.43.0


From 82c40ccfc3fc76ecfbce72ae29655514fe16208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 07/24] fix: ECC: comparing the identity with a point never
 reads its null curve

---
 includes/ecc_template.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index f2b0b78..a6abfa2 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -500,8 +500,8 @@ Field_XXX_p,
 Field_XXX_n
 >::operator== (const Point_XXX& P) const
 {
-    if(is_inf == true && P.is_inf == true)
-        return true;
+    if(is_inf || P.is_inf)
+        return is_inf == P.is_inf;
     
     return x == P.x && y == P.y && *curve == *P.curve && is_inf == P.is_inf;
 }
-- 
2.43.0


From 0bc2f3a456fc0409c5877a86c2612da8c5afddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 08/24] fix: DME: ciphertext equality compares with the other
 ciphertext

---
 src/dme/dme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dme/dme.cpp b/src/dme/dme.cpp
index f3d8038..257edac 100644
--- a/src/dme/dme.cpp
+++ b/src/dme/dme.cpp
@@ -131,7 +131,7 @@ CTXT& CTXT::operator=(const CTXT& ctxt)
 
 bool CTXT::operator==(const CTXT& ctxt) const
 {
-    return this->u == u && this->mv == mv;
+    return this->u == ctxt.u && this->mv == ctxt.mv;
 }
 
 
-- 
2.43.0


From f539bbfeae5cf5ffd92bba94d44b47c1874fb563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 09/24] fix: PUDA: the sum 65535 is found too

---
 src/puda/puda.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/puda/puda.cpp b/src/puda/puda.cpp
index 2239a25..03a0f44 100644
--- a/src/puda/puda.cpp
+++ b/src/puda/puda.cpp
@@ -19,7 +19,7 @@ Puda::~Puda()
 
 msg_t Puda::compute_dlog(POINT1 c)
 {
-    for(uint16_t i=0; i!=USHRT_MAX; i++)
+    for(uint32_t i=0; i<=USHRT_MAX; i++)
     {
         if (pp.g1 * mpz_class(i) == c)
             return i;
-- 
2.43.0


From a070aff3c7a657c8d3612e36a55da39bdeb738d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 10/24] fix: Shamir: sharing coefficients are uniform field
 elements

They were libc rand() modulo 100, so a single share of a dealing with
threshold two left at most 100 candidates for the secret.
---
 src/shamirss/shamirss.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shamirss/shamirss.cpp b/src/shamirss/shamirss.cpp
index b878c17..1d87a7f 100644
--- a/src/shamirss/shamirss.cpp
+++ b/src/shamirss/shamirss.cpp
@@ -3,6 +3,8 @@
 
 namespace sss
 {
+static gmp_randclass rand(gmp_randinit_default);
+
 ShamirSS::ShamirSS()
 {
 
@@ -29,7 +31,7 @@ share_v_t ShamirSS::getShares(size_t t, size_t n, FIELD secret)
     share_v_t shares;
     for (size_t i = 0; i < t-1; i++)
     {
-        coefs.push_back(FIELD((rand()+1) %100));
+        coefs.push_back(FIELD(rand.get_z_range(secret.getField())));
     }
 
     for (size_t i = 1; i <= n; i++)
-- 
2.43.0


From ffc5a7706387c02b2008f4a48d464816d3f6fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 11/24] fix: Shamir: a repeated share does not disturb
 reconstruction

Its Lagrange denominator was zero, which has no inverse.
---
 src/shamirss/shamirss.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/shamirss/shamirss.cpp b/src/shamirss/shamirss.cpp
index 1d87a7f..e5899d0 100644
--- a/src/shamirss/shamirss.cpp
+++ b/src/shamirss/shamirss.cpp
@@ -49,6 +49,12 @@ FIELD ShamirSS::reconSecret(share_v_t shares)
 {
     FIELD res;
 
+    // a share that was delivered twice counts once
+    for (size_t i = 0; i < shares.size(); i++)
+        for (size_t j = shares.size() - 1; j > i; j--)
+            if (shares[j].idx == shares[i].idx)
+                shares.erase(shares.begin() + j);
+
     for (size_t i = 0; i < shares.size(); i++)
     {
         FIELD numerator = FIELD(1);
-- 
2.43.0


From 48a6a32e09f8cc631cead7b027499f74cd9587b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 12/24] fix: OT: an answer without the selected ciphertext is
 refused

An OPPRF answer of the first round has empty key slots; replayed in a later
round it was read out of bounds.
---
 src/ot/ot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ot/ot.cpp b/src/ot/ot.cpp
index 00e6de5..25f8032 100644
--- a/src/ot/ot.cpp
+++ b/src/ot/ot.cpp
@@ -17,12 +17,12 @@ dme::pkey_t OTrecv::selectMsg(dme::branch_t b)
 
 dme::msg_t OTrecv::decryptMsg(ctxt_v_t c) const
 {
-    return dme.Dec(sk, c[b]);
+    return dme.Dec(sk, c.at(b));
 }
 
 mpz_class OTrecv::decryptMsgDecode(ctxt_v_t c) const
 {
-    return dme.DecDecode(sk, c[b]);
+    return dme.DecDecode(sk, c.at(b));
 }
 
 ctxt_v_t OTsndr::encMsgs(dme::pkey_t pk, dme::msg_t s0, dme::msg_t s1)
-- 
2.43.0


From 920221bda7d5e29a074f0548f3d1d9d599de34bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 13/24] fix: DME: copies of a party share its curve instead of
 deleting it twice

---
 includes/dme.hpp | 5 +++--
 src/dme/dme.cpp  | 4 +---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/includes/dme.hpp b/includes/dme.hpp
index 5bb7b75..c59f5c1 100644
--- a/includes/dme.hpp
+++ b/includes/dme.hpp
@@ -2,6 +2,7 @@
 #define __DME__
 
 #include <gmpxx.h>
+#include <memory>
 #include <tuple>
 
 #include "ecc_secp256r1.hpp"
@@ -100,7 +101,7 @@ class DME_DDH
 private:
     static const size_t secparam = 256; //bits
     
-    CURVE* curve =  new CURVE;
+    std::shared_ptr<CURVE> curve = std::make_shared<CURVE>(); // shared by copies: their points refer to it
 
     mode_t mode;  
     td_messy_ddh_t td_m;
@@ -118,7 +119,7 @@ public:
     DME_DDH(crs_ddh_t crs);
     ~DME_DDH();
     
-    CURVE* getCurve(void) {return curve;}
+    CURVE* getCurve(void) {return curve.get();}
 
     keypair_t KeyGen(branch_t branch) const;
     ctxt_t Enc(const pkey_t& pk, branch_t b, const msg_t& m) const;
diff --git a/src/dme/dme.cpp b/src/dme/dme.cpp
index 257edac..3c326d8 100644
--- a/src/dme/dme.cpp
+++ b/src/dme/dme.cpp
@@ -180,14 +180,12 @@ DME_DDH::DME_DDH()
 DME_DDH::DME_DDH(crs_ddh_t crs)
 {
     this->crs = crs;
-    this->crs.updateCurve(curve);
+    this->crs.updateCurve(curve.get());
 }
 
 
 DME_DDH::~DME_DDH()
 {
-    if (curve)
-        delete curve;
 }
 
 
-- 
2.43.0


From cd069e986e9b82161feaac1d12e80b9b975d778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 14/24] fix: PUDA: copies share their curves instead of
 deleting them twice

---
 includes/puda.hpp | 5 +++--
 src/puda/puda.cpp | 6 ++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/includes/puda.hpp b/includes/puda.hpp
index 361cec4..2283c39 100644
--- a/includes/puda.hpp
+++ b/includes/puda.hpp
@@ -1,6 +1,7 @@
 #ifndef __PUDA__
 #define __PUDA__
 
+#include <memory>
 #include <tuple>
 #include <vector>
 
@@ -21,8 +22,8 @@ typedef ecc::Curve_secp256r1 CURVE2;
 
 typedef struct PudaPublicParam
 {
-    CURVE1* curve1;
-    CURVE2* curve2;
+    std::shared_ptr<CURVE1> curve1;
+    std::shared_ptr<CURVE2> curve2;
     POINT1 g1;
     POINT2 g2;
     POINT1 hash;  
diff --git a/src/puda/puda.cpp b/src/puda/puda.cpp
index 03a0f44..edafc29 100644
--- a/src/puda/puda.cpp
+++ b/src/puda/puda.cpp
@@ -7,14 +7,12 @@ namespace puda
 
 Puda::Puda()
 {
-    pp.curve1 = new CURVE1;
-    pp.curve2 = new CURVE2;
+    pp.curve1 = std::make_shared<CURVE1>();
+    pp.curve2 = std::make_shared<CURVE2>();
 }
 
 Puda::~Puda()
 {
-    delete pp.curve1;
-    delete pp.curve2;
 }
 
 msg_t Puda::compute_dlog(POINT1 c)
-- 
2.43.0


From dad08ae5579bd40ae1ecafea0f84170d510ae70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 15/24] fix: random generators start from system entropy

They all started from the same fixed state: every process drew the same keys
and exponents, and the symmetric keys shared their stream with the scalars.
---
 includes/ecc_template.hpp   |  6 +++---
 includes/utilities.hpp      | 15 +++++++++++++++
 src/shamirss/shamirss.cpp   |  3 ++-
 src/utilities/utilities.cpp |  2 +-
 4 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index a6abfa2..b849c90 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -77,7 +77,7 @@ template<typename Curve_XXX, typename Point_XXX, typename Field_XXX_p, typename
 class Curve
 {
     protected: 
-        static gmp_randclass rand;
+        static utils::RandomState rand;
         mpz_class prime;
         mpz_class a;
         mpz_class b;
@@ -752,12 +752,12 @@ template<
         typename Field_XXX_p, 
         typename Field_XXX_n
         >
-gmp_randclass Curve<
+utils::RandomState Curve<
 Curve_XXX, 
 Point_XXX, 
 Field_XXX_p, 
 Field_XXX_n
->::rand(gmp_randinit_default);
+>::rand;
 
 } // namespace ecc
 
diff --git a/includes/utilities.hpp b/includes/utilities.hpp
index 2e4b141..0921e93 100644
--- a/includes/utilities.hpp
+++ b/includes/utilities.hpp
@@ -2,9 +2,24 @@
 #define __UTILS__
 
 #include <gmpxx.h>
+#include <random>
 
 namespace utils
 {
+// A generator that starts from system entropy: no two generators or processes draw the same values
+class RandomState : public gmp_randclass
+{
+public:
+    RandomState() : gmp_randclass(gmp_randinit_default)
+    {
+        std::random_device device;
+        mpz_class s;
+        for (int i = 0; i < 8; i++)
+            s = (s << 32) + device();
+        seed(s);
+    }
+};
+
 mpz_class getRandom(size_t bits);
 
 mpz_class setRawMpz(uint8_t* arr, size_t len);
diff --git a/src/shamirss/shamirss.cpp b/src/shamirss/shamirss.cpp
index e5899d0..4b06e7e 100644
--- a/src/shamirss/shamirss.cpp
+++ b/src/shamirss/shamirss.cpp
@@ -1,9 +1,10 @@
 #include "shamirss.hpp"
+#include "utilities.hpp"
 
 
 namespace sss
 {
-static gmp_randclass rand(gmp_randinit_default);
+static utils::RandomState rand;
 
 ShamirSS::ShamirSS()
 {
diff --git a/src/utilities/utilities.cpp b/src/utilities/utilities.cpp
index ba7d821..a22d2e4 100644
--- a/src/utilities/utilities.cpp
+++ b/src/utilities/utilities.cpp
@@ -5,7 +5,7 @@
 
 namespace utils
 {
-static gmp_randclass rand = gmp_randclass(gmp_randinit_default);
+static RandomState rand;
 
 mpz_class getRandom(size_t bits)
 {
-- 
2.43.0


From 232d34dd3bd78d40dfd1ee70994806b8e98f6f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 16/24] fix: AES: a failing final step of decryption is not
 ignored

The length of the previous step was counted twice and another message returned.
---
 src/utilities/aes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index cc64d8f..41653d9 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -153,7 +153,7 @@ msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
     /* Finalise the decryption. A positive return value indicates success,
      * anything else is a failure - the plaintext is not trustworthy.
      */
-    EVP_DecryptFinal_ex(ctx, plaintext.data() + len, &len);
+    if(1 != EVP_DecryptFinal_ex(ctx, plaintext.data() + len, &len)) handleErrors();
     plaintext_len += len;
 
     /* Clean up */
-- 
2.43.0


From f3f8d960c2b0fc0eae677de8e686b25345d2ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 17/24] fix: a session prepared without clean() used the keys
 of the previous session again

---
 src/opprf/opprf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/opprf/opprf.cpp b/src/opprf/opprf.cpp
index 9fcf203..0b56a2e 100644
--- a/src/opprf/opprf.cpp
+++ b/src/opprf/opprf.cpp
@@ -32,6 +32,12 @@ void OPPRFserver::setSecret(G_t& ga)
 
 void OPPRFserver::prepareKeysAndInputs()
 {
+    // the keys of an earlier session that was not cleaned are not used again
+    k_lt.clear();
+    k_eq.clear();
+    k_gt.clear();
+    ok.clear();
+
     kopprf = curve->getRandomPoint();
     r = curve->getRandomPoint();
     for (size_t j = 0; j < MSG_BITS; j++)
-- 
2.43.0


From e11f7a3b4959b1fe5088aa23da10a03efb20513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 18/24] fix: the order of the OPPRF ciphertexts was
 predictable: it came from libc rand(), which every process starts alike

---
 src/opprf/opprf.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/opprf/opprf.cpp b/src/opprf/opprf.cpp
index 0b56a2e..1b8af8b 100644
--- a/src/opprf/opprf.cpp
+++ b/src/opprf/opprf.cpp
@@ -1,4 +1,6 @@
+#include <algorithm>
 #include <bitset>
+#include <random>
 
 #include "opprf.hpp"
 #include "utilities.hpp"
@@ -112,7 +114,8 @@ ot_ctxts_t OPPRFserver::runOTRound(short round, dme::pkey_t pk)
         c.ctxt[0] = ots.encMsgs(pk, Si0[round].k_lt, Si1[round].k_lt);
         c.ctxt[1] = ots.encMsgs(pk, Si0[round].k_eq, Si1[round].k_eq);
         c.ctxt[2] = ots.encMsgs(pk, Si0[round].k_gt, Si1[round].k_gt);
-        std::random_shuffle(c.ctxt.begin(), c.ctxt.end());
+        std::random_device device;
+        std::shuffle(c.ctxt.begin(), c.ctxt.end(), device);
 
         c.cprf = ots.encMsgs(pk, Si0[round].prf, Si1[round].prf);
     }
@@ -135,7 +138,8 @@ symctxt_t OPPRFserver::sendEncryptedMasks()
     c[0] = aes.encryptCRC(k_lt[0], mask.getEncodedX());
     c[1] = aes.encryptCRC(k_eq[0], mask.getEncodedX());
     c[2] = aes.encryptCRC(k_gt[0], curve->getRandomPoint().getEncodedX());
-    std::random_shuffle(c.begin(), c.end());
+    std::random_device device;
+    std::shuffle(c.begin(), c.end(), device);
  
     return c;
 }
-- 
2.43.0


From 2274c241a8ea1903ec60047a30c37a5dea5a31ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 19/24] fix: a request for a session that is not prepared, or
 for a round that does not exist, crashed the OPPRF server

---
 src/opprf/opprf.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/opprf/opprf.cpp b/src/opprf/opprf.cpp
index 1b8af8b..20aad8d 100644
--- a/src/opprf/opprf.cpp
+++ b/src/opprf/opprf.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <bitset>
 #include <random>
+#include <stdexcept>
 
 #include "opprf.hpp"
 #include "utilities.hpp"
@@ -103,6 +104,9 @@ void OPPRFserver::prepareKeysAndInputs()
 
 ot_ctxts_t OPPRFserver::runOTRound(short round, dme::pkey_t pk)
 {
+    if (ok.size() < MSG_BITS || round < 1 || round > MSG_BITS)
+        throw std::invalid_argument("no such round: the session is not prepared or the round does not exist");
+
     ot_ctxts_t c;
     if (round == MSG_BITS)
     {
@@ -124,6 +128,9 @@ ot_ctxts_t OPPRFserver::runOTRound(short round, dme::pkey_t pk)
 
 symctxt_t OPPRFserver::sendEncryptedMasks()
 {
+    if (ok.size() < MSG_BITS)
+        throw std::invalid_argument("the session is not prepared");
+
     ok_t ok_sum = ok[0];
 
     for (int i=1; i < MSG_BITS; i++)
-- 
2.43.0


From 81b86f4ecc424f6c320a632d3f287283a7bbdc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 20/24] fix: a proxy that got no answer, or an answer without
 both branches, read out of bounds

---
 src/ot/dot.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ot/dot.cpp b/src/ot/dot.cpp
index d9ca8bd..93d8c4d 100644
--- a/src/ot/dot.cpp
+++ b/src/ot/dot.cpp
@@ -6,13 +6,13 @@ namespace ot
 ctxt_v_t DOTprxy::aggregate(std::vector<ctxt_v_t> c_v)
 {
     c.clear();
-    c.push_back(c_v[0][0]);
-    c.push_back(c_v[0][1]);
+    c.push_back(c_v.at(0).at(0));
+    c.push_back(c_v.at(0).at(1));
 
     for(ctxt_it it = c_v.begin()+1; it != c_v.end(); ++it)
     {
-        c[0] = dmhe.Eval(c[0],(*it)[0]);
-        c[1] = dmhe.Eval(c[1],(*it)[1]);
+        c[0] = dmhe.Eval(c[0],it->at(0));
+        c[1] = dmhe.Eval(c[1],it->at(1));
     }
     return c;
 }
-- 
2.43.0


From 085eaf2a7ba23f20c16a46589d04fc9ab6a53106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 21/24] fix: a failed allocation in appendCRC was written
 through

---
 includes/crc.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/includes/crc.hpp b/includes/crc.hpp
index 5d518ef..2b2436b 100644
--- a/includes/crc.hpp
+++ b/includes/crc.hpp
@@ -50,6 +50,7 @@
 #include <sys/param.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <new>
 #include <gmpxx.h>
 #include <iostream>
 #include "utilities.hpp"
@@ -771,7 +772,13 @@ const mpz_class appendCRC(mpz_class n)
 
     uint32_t crc32c =  0; 
     crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len);
-    res = (uint8_t*) realloc(res, len+4);
+    uint8_t* longer = (uint8_t*) realloc(res, len+4);
+    if (!longer)
+    {
+        free(res);
+        throw std::bad_alloc();
+    }
+    res = longer;
     memcpy(res+len, &crc32c, 4);
 
     mpz_class r = utils::setRawMpz(res, len+4);    
-- 
2.43.0


From 5d46d6523fa29c86fdc9ed89945589750a1d8b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 22/24] fix: parties on different threads drew the same
 secrets: each thread gets its own generators

---
 includes/ecc_template.hpp   | 4 ++--
 src/shamirss/shamirss.cpp   | 2 +-
 src/utilities/utilities.cpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index b849c90..17bc627 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -77,7 +77,7 @@ template<typename Curve_XXX, typename Point_XXX, typename Field_XXX_p, typename
 class Curve
 {
     protected: 
-        static utils::RandomState rand;
+        static thread_local utils::RandomState rand;
         mpz_class prime;
         mpz_class a;
         mpz_class b;
@@ -752,7 +752,7 @@ template<
         typename Field_XXX_p, 
         typename Field_XXX_n
         >
-utils::RandomState Curve<
+thread_local utils::RandomState Curve<
 Curve_XXX, 
 Point_XXX, 
 Field_XXX_p, 
diff --git a/src/shamirss/shamirss.cpp b/src/shamirss/shamirss.cpp
index 4b06e7e..baad84d 100644
--- a/src/shamirss/shamirss.cpp
+++ b/src/shamirss/shamirss.cpp
@@ -4,7 +4,7 @@
 
 namespace sss
 {
-static utils::RandomState rand;
+static thread_local utils::RandomState rand;
 
 ShamirSS::ShamirSS()
 {
diff --git a/src/utilities/utilities.cpp b/src/utilities/utilities.cpp
index a22d2e4..95bb4f3 100644
--- a/src/utilities/utilities.cpp
+++ b/src/utilities/utilities.cpp
@@ -5,7 +5,7 @@
 
 namespace utils
 {
-static RandomState rand;
+static thread_local RandomState rand;
 
 mpz_class getRandom(size_t bits)
 {
-- 
2.43.0


From b2057ecd302ab65f4fec3ca3cd5da22e9ab32e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 23/24] fix: forked processes drew their parent's secrets, and
 a generator whose seeding failed drew fixed ones: seed on use and again after
 a fork

---
 includes/utilities.hpp | 47 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/includes/utilities.hpp b/includes/utilities.hpp
index 0921e93..f468831 100644
--- a/includes/utilities.hpp
+++ b/includes/utilities.hpp
@@ -2,21 +2,58 @@
 #define __UTILS__
 
 #include <gmpxx.h>
+#include <pthread.h>
+#include <new>
 #include <random>
 
 namespace utils
 {
-// A generator that starts from system entropy: no two generators or processes draw the same values
-class RandomState : public gmp_randclass
+// The number of forks between the first process of the program and this one
+inline unsigned long& forks()
 {
-public:
-    RandomState() : gmp_randclass(gmp_randinit_default)
+    static unsigned long n = 0;
+    static bool counted = [] {
+        if (pthread_atfork(NULL, NULL, [] { n++; }))
+            throw std::bad_alloc();
+        return true;
+    }();
+    (void)counted;
+    return n;
+}
+
+// A generator that starts from system entropy, and starts again in a forked process:
+// no two generators or processes draw the same values
+class RandomState : private gmp_randclass
+{
+private:
+    bool seeded;
+    unsigned long process;
+
+    void start()
     {
+        if (seeded && process == forks())
+            return;
+        unsigned long current = forks();
         std::random_device device;
         mpz_class s;
         for (int i = 0; i < 8; i++)
             s = (s << 32) + device();
         seed(s);
+        process = current;
+        seeded = true;
+    }
+public:
+    RandomState() : gmp_randclass(gmp_randinit_default), seeded(false), process(0) {}
+
+    mpz_class get_z_bits(mp_bitcnt_t bits)
+    {
+        start();
+        return gmp_randclass::get_z_bits(bits);
+    }
+    mpz_class get_z_range(const mpz_class& n)
+    {
+        start();
+        return gmp_randclass::get_z_range(n);
     }
 };
 
@@ -34,4 +71,4 @@ size_t getRawMpz(uint8_t** arr, mpz_class n);
 
 
 
-#endif
\ No newline at end of file
+#endif
-- 
2.43.0


From 4bc6f7d8150bea3eb4216b9fd45545fd04f856dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:59 +0000
Subject: [PATCH 24/24] fix: a PUDA setup that failed on the way spoiled the
 setup in use

---
 src/puda/puda.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/puda/puda.cpp b/src/puda/puda.cpp
index edafc29..06c2f6e 100644
--- a/src/puda/puda.cpp
+++ b/src/puda/puda.cpp
@@ -30,7 +30,7 @@ Puda::Setup(size_t n)
 {
     pp.g1 = pp.curve1->getDefaultGen();
     pp.g2 = pp.curve2->getDefaultGen();
-    pp.hash = pp.curve1->getRandomPoint();
+    POINT1 hash = pp.curve1->getRandomPoint();
 
     ek_v_t ekv;
     sk_v_t skv;
@@ -56,7 +56,11 @@ Puda::Setup(size_t n)
     vk.vk_1 = pp.g2 * tks;
     vk.vk_2 = pp.g2 * a;
 
-    return std::make_tuple(ekv, skv, ak, vk);
+    auto keys = std::make_tuple(ekv, skv, ak, vk);
+
+    // a setup that failed on the way leaves the one in use as it is
+    pp.hash = hash;
+    return keys;
 }
 
 
-- 
2.43.0


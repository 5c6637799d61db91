From dff273d939a5af954e17bc2afe9109b8de8b0ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 01/26] fix: Point subtraction with a point at infinity on
 either side

---
 includes/ecc_template.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 4eb6e95..739ea36 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -353,9 +353,12 @@ Field_XXX_p,
 Field_XXX_n
 >::operator- (const Point_XXX& P) const
 {
-    assert(*this->curve == *P.curve);
+    if(P.is_inf)
+        return *static_cast<const Point_XXX*>(this);
+
+    assert(is_inf || *this->curve == *P.curve);
 
-    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, curve);
+    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, P.curve);
 
     
     return *this + Q;
-- 
2.43.0


From c977bcb5318ed20555cecb3938eec59dbfefd3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 02/26] fix: doubling of infinity and of points with y=0 is
 infinity

---
 includes/ecc_template.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 739ea36..921ba5e 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -556,6 +556,10 @@ Field_XXX_p,
 Field_XXX_n
 >::pointDouble() const
 {
+    // the tangent is vertical (or there is no tangent at all)
+    if(is_inf || this->y == Field_XXX_p(0))
+        return Point_XXX();
+
     Field_XXX_p T1;
     Field_XXX_p T2;
     Field_XXX_p S;
-- 
2.43.0


From 5385e080639e033cc29a6987ac9c4477179b77c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 03/26] fix: comparing a finite point with infinity
 dereferenced a null curve

---
 includes/ecc_template.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 921ba5e..245aea7 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -498,8 +498,8 @@ Field_XXX_p,
 Field_XXX_n
 >::operator== (const Point_XXX& P) const
 {
-    if(is_inf == true && P.is_inf == true)
-        return true;
+    if(is_inf || P.is_inf)
+        return is_inf && P.is_inf;
     
     return x == P.x && y == P.y && *curve == *P.curve && is_inf == P.is_inf;
 }
-- 
2.43.0


From a2deca034d92cc63069d45ef3982c075054da98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 04/26] fix: define Point::operator*=(const mpz_class&), which
 was only declared

---
 includes/ecc_template.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 245aea7..a379ffb 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -464,6 +464,23 @@ Field_XXX_n
     return *static_cast<Point_XXX*>(this);;
 }
 
+template<
+        typename Curve_XXX,
+        typename Point_XXX, 
+        typename Field_XXX_p, 
+        typename Field_XXX_n
+        >
+Point_XXX& Point<
+Curve_XXX, 
+Point_XXX, 
+Field_XXX_p, 
+Field_XXX_n
+>::operator*= (const mpz_class& a)
+{
+    *this = *this * a;
+    return *static_cast<Point_XXX*>(this);
+}
+
 template<
         typename Curve_XXX,
         typename Point_XXX, 
-- 
2.43.0


From bd42d03f4297ef9dbae8da771b1b28caccd9a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 05/26] fix: Curve::generateKeyPair did not compile and
 ElGamal::keyGen returned nothing

---
 includes/ecc_bn254.hpp     | 8 ++++----
 includes/ecc_secp256r1.hpp | 8 ++++----
 includes/ecc_template.hpp  | 4 ++--
 includes/elgamal.hpp       | 9 ++++++++-
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/includes/ecc_bn254.hpp b/includes/ecc_bn254.hpp
index 722c2a1..93a922b 100644
--- a/includes/ecc_bn254.hpp
+++ b/includes/ecc_bn254.hpp
@@ -13,14 +13,14 @@ class KeyPair_bn254;
 class Point_bn254;
 class Curve_bn254;
 
-class KeyPair_bn254 : public KeyPair<Curve_bn254, Point_bn254, field::Field_bn254_p, field::Field_bn254_n>
+class Point_bn254 : public Point<Curve_bn254, Point_bn254, field::Field_bn254_p, field::Field_bn254_n>
 {
-    using KeyPair::KeyPair;
+    using Point::Point;
 };
 
-class Point_bn254 : public Point<Curve_bn254, Point_bn254, field::Field_bn254_p, field::Field_bn254_n>
+class KeyPair_bn254 : public KeyPair<Curve_bn254, Point_bn254, field::Field_bn254_p, field::Field_bn254_n>
 {
-    using Point::Point;
+    using KeyPair::KeyPair;
 };
 
 class Curve_bn254 : public Curve<Curve_bn254, Point_bn254, field::Field_bn254_p, field::Field_bn254_n>
diff --git a/includes/ecc_secp256r1.hpp b/includes/ecc_secp256r1.hpp
index 6c27dcf..201c432 100644
--- a/includes/ecc_secp256r1.hpp
+++ b/includes/ecc_secp256r1.hpp
@@ -12,14 +12,14 @@ class KeyPair_secp256r1;
 class Point_secp256r1;
 class Curve_secp256r1;
 
-class KeyPair_secp256r1 : public KeyPair<Curve_secp256r1, Point_secp256r1, field::Field_secp256r1_p, field::Field_secp256r1_n>
+class Point_secp256r1 : public Point<Curve_secp256r1, Point_secp256r1, field::Field_secp256r1_p, field::Field_secp256r1_n>
 {
-    using KeyPair::KeyPair;
+    using Point::Point;
 };
 
-class Point_secp256r1 : public Point<Curve_secp256r1, Point_secp256r1, field::Field_secp256r1_p, field::Field_secp256r1_n>
+class KeyPair_secp256r1 : public KeyPair<Curve_secp256r1, Point_secp256r1, field::Field_secp256r1_p, field::Field_secp256r1_n>
 {
-    using Point::Point;
+    using KeyPair::KeyPair;
 };
 
 class Curve_secp256r1 : public Curve<Curve_secp256r1, Point_secp256r1, field::Field_secp256r1_p, field::Field_secp256r1_n>
diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index a379ffb..81c021d 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -59,7 +59,7 @@ template<typename Curve_XXX, typename Point_XXX, typename Field_XXX_p, typename
 struct KeyPair
 {
     mpz_class sk; 
-    Point<Curve_XXX, Point_XXX, Field_XXX_p, Field_XXX_n> pk;
+    Point_XXX pk;
 
     KeyPair(mpz_class s, Point_XXX P)
     {
@@ -682,7 +682,7 @@ Field_XXX_n
 >::generateKeyPair(void) const
 {
     mpz_class sk = Curve_XXX::rand.get_z_range(order);
-    Point pk = G * sk;
+    Point_XXX pk = G * sk;
     return KeyPair<Curve_XXX, Point_XXX, Field_XXX_p, Field_XXX_n>(sk,pk);
 }
 
diff --git a/includes/elgamal.hpp b/includes/elgamal.hpp
index b7975ff..4f0ca18 100644
--- a/includes/elgamal.hpp
+++ b/includes/elgamal.hpp
@@ -41,7 +41,14 @@ public:
     ElGamal(){}
     ~ElGamal(){}
 
-    keypair_t keyGen() const {curve.generateKeyPair();}
+    keypair_t keyGen() const
+    {
+        auto keys = curve.generateKeyPair();
+        keypair_t kp;
+        kp.sk = skey_t(keys.sk);
+        kp.pk = keys.pk;
+        return kp;
+    }
     
     ctxt_t encrypt(const pkey_t pkey, const POINT msg) const;
     ctxt_t encrypt(const pkey_t pkey, const mpz_class msg) {return encrypt(pkey, encode(msg));}
-- 
2.43.0


From 6da07e0db5685e2b10e13898a2a128fbde5c94b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 06/26] fix: the generator of a copied curve referred to the
 original curve

---
 includes/ecc_template.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 81c021d..9351e3d 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -88,6 +88,24 @@ class Curve
     
     public:
 
+        Curve() {}
+        Curve(const Curve& c) :
+            prime(c.prime), a(c.a), b(c.b), G(c.G), order(c.order), cofactor(c.cofactor)
+        {
+            G.curve = static_cast<Curve_XXX*>(this);
+        }
+        Curve& operator=(const Curve& c)
+        {
+            prime = c.prime;
+            a = c.a;
+            b = c.b;
+            G = c.G;
+            order = c.order;
+            cofactor = c.cofactor;
+            G.curve = static_cast<Curve_XXX*>(this);
+            return *this;
+        }
+
         template<typename T1, typename T2, typename T3, typename T4>
         friend bool operator==(const Curve<T1,T2,T3,T4>& curve, const Curve<T1,T2,T3,T4>& c);
         template<typename T1, typename T2, typename T3, typename T4>
-- 
2.43.0


From caea0dd79ac039193647570bb642b4190da8d7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 07/26] fix: CTXT::operator== compared the ciphertext with
 itself

---
 src/dme/dme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dme/dme.cpp b/src/dme/dme.cpp
index f3d8038..257edac 100644
--- a/src/dme/dme.cpp
+++ b/src/dme/dme.cpp
@@ -131,7 +131,7 @@ CTXT& CTXT::operator=(const CTXT& ctxt)
 
 bool CTXT::operator==(const CTXT& ctxt) const
 {
-    return this->u == u && this->mv == mv;
+    return this->u == ctxt.u && this->mv == ctxt.mv;
 }
 
 
-- 
2.43.0


From 877629506edd1f07ed7f021dd526a4f276e19ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 08/26] fix: crc.hpp broke the one-definition rule, headers
 relied on others being included first

---
 includes/crc.hpp       | 10 ++++++----
 includes/utilities.hpp |  2 ++
 src/opprf/opprf.cpp    |  2 ++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/includes/crc.hpp b/includes/crc.hpp
index 68c257a..ea0d7ac 100644
--- a/includes/crc.hpp
+++ b/includes/crc.hpp
@@ -49,6 +49,8 @@
 
 #include <sys/param.h>
 #include <stdint.h>
+#include <stdlib.h>
+#include <string.h>
 #include <gmpxx.h>
 #include <iostream>
 #include "utilities.hpp"
@@ -750,7 +752,7 @@ multitable_crc32c(uint32_t crc32c,
 	return (crc32c_sb8_64_bit(crc32c, buffer, length, to_even_word));
 }
 
-uint32_t
+static inline uint32_t
 calculate_crc32c(uint32_t crc32c,
     const unsigned char *buffer,
     unsigned int length)
@@ -763,7 +765,7 @@ calculate_crc32c(uint32_t crc32c,
 }
 
 
-const mpz_class appendCRC(mpz_class n)
+inline const mpz_class appendCRC(mpz_class n)
 {
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
@@ -777,7 +779,7 @@ const mpz_class appendCRC(mpz_class n)
 
 }
 
-const bool validateCRC(mpz_class n)
+inline const bool validateCRC(mpz_class n)
 {
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
@@ -794,7 +796,7 @@ const bool validateCRC(mpz_class n)
     return (crc32c == value);
 }
 
-const mpz_class removeCRC(mpz_class n)
+inline const mpz_class removeCRC(mpz_class n)
 {
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
diff --git a/includes/utilities.hpp b/includes/utilities.hpp
index 2e4b141..455cd2c 100644
--- a/includes/utilities.hpp
+++ b/includes/utilities.hpp
@@ -1,6 +1,8 @@
 #ifndef __UTILS__
 #define __UTILS__
 
+#include <stdint.h>
+#include <stddef.h>
 #include <gmpxx.h>
 
 namespace utils
diff --git a/src/opprf/opprf.cpp b/src/opprf/opprf.cpp
index 9fcf203..8690c60 100644
--- a/src/opprf/opprf.cpp
+++ b/src/opprf/opprf.cpp
@@ -1,4 +1,6 @@
+#include <algorithm>
 #include <bitset>
+#include <stdexcept>
 
 #include "opprf.hpp"
 #include "utilities.hpp"
-- 
2.43.0


From 7b7b23a0deaa39f0250c625503471fdbebb3dcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 09/26] fix: checksum functions wrote past exported buffers,
 underflowed on short integers and leaked

---
 includes/crc.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/includes/crc.hpp b/includes/crc.hpp
index ea0d7ac..b95caf3 100644
--- a/includes/crc.hpp
+++ b/includes/crc.hpp
@@ -772,9 +772,13 @@ inline const mpz_class appendCRC(mpz_class n)
 
     uint32_t crc32c =  0; 
     crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len);
+    res = (uint8_t*) realloc(res, len+4);
+    if(!res)
+        abort();
     memcpy(res+len, &crc32c, 4);
 
     mpz_class r = utils::setRawMpz(res, len+4);    
+    free(res);
     return r;
 
 }
@@ -784,15 +788,23 @@ inline const bool validateCRC(mpz_class n)
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
 
+    // at least one byte of data and the checksum
+    if(len < 5)
+    {
+        free(res);
+        return false;
+    }
+
     uint32_t value = 0;    
     value |= *(res + len -4) ;
     value |= *(res + len -3) << 8;
     value |= *(res + len -2) << 16;
-    value |= *(res + len -1) << 24;
+    value |= (uint32_t) *(res + len -1) << 24;
     
     uint32_t crc32c =  0; 
     crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len-4);
     
+    free(res);
     return (crc32c == value);
 }
 
@@ -801,7 +813,10 @@ inline const mpz_class removeCRC(mpz_class n)
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
     
-    mpz_class r = utils::setRawMpz(res, len-4);    
+    mpz_class r;
+    if(len > 4)
+        r = utils::setRawMpz(res, len-4);    
+    free(res);
     return r;
 
 }
-- 
2.43.0


From 1131b9a55786bf9bb768122732edfed9b6a19c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 10/26] fix: AES::encrypt and AES::decrypt took their arguments
 in the opposite of the declared order

---
 src/utilities/aes.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 570933a..85d8d7b 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -37,7 +37,7 @@ void AES::init()
     AES::iv = iv;
 }
 
-ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
+ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
@@ -88,7 +88,7 @@ ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
     return utils::setRawMpz(ciphertext,ciphertext_len);
 }
 
-msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
+msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
@@ -145,13 +145,13 @@ msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
 ctxt_t AES::encryptCRC(const mpz_class key, const msg_t plaintext) const
 {
     msg_t msg = appendCRC(plaintext);
-    return encrypt(msg, key);
+    return encrypt(key, msg);
 }
 
 msg_t AES::decryptCRC(const mpz_class key, const ctxt_t cipher) const
 {
     
-    msg_t m =  decrypt(cipher, key);
+    msg_t m =  decrypt(key, cipher);
     if(validateCRC(m))
     {
         m = removeCRC(m);
-- 
2.43.0


From 41c72eb47ef8964885f1cb36920b99eb3be2885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 11/26] fix: AES read 16 bytes of an initialisation vector that
 could be shorter or empty

---
 includes/aes.hpp      | 2 +-
 src/utilities/aes.cpp | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/includes/aes.hpp b/includes/aes.hpp
index c9ee756..b65d0c5 100644
--- a/includes/aes.hpp
+++ b/includes/aes.hpp
@@ -16,7 +16,7 @@ namespace aes
 #define CRYPTO_NOOVERLAP 1 
 
 using std::string;
-static const string iv = "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
+static const string iv(CRYPTO_NPUBBYTES, '\0');
 
 
 typedef mpz_class ctxt_t;
diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 85d8d7b..5cf75ff 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -3,6 +3,7 @@
 #include <openssl/aes.h>
 #include <openssl/err.h>
 #include <iostream>   
+#include <stdexcept>
 
 #include "aes.hpp"
 #include "utilities.hpp"
@@ -11,7 +12,7 @@
 
 namespace aes
 {
-string AES::iv;
+string AES::iv(CRYPTO_NPUBBYTES, '\0');
 
 void handleErrors(void)
 {
@@ -29,12 +30,14 @@ void handleErrors(void)
 
 void AES::init(const string iv)
 {
+    if(iv.size() < CRYPTO_NPUBBYTES)
+        throw std::invalid_argument("the initialisation vector is too short");
     AES::iv = iv;
 }
 
 void AES::init()
 {
-    AES::iv = iv;
+    AES::iv = aes::iv;
 }
 
 ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
-- 
2.43.0


From bc6a08e321530d18b17c68682a9fcc98d3fa00a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 12/26] fix: AES overflowed its stack buffers on long messages,
 read past short keys and leaked its buffers

---
 includes/utilities.hpp      |  2 ++
 src/utilities/aes.cpp       | 23 +++++++++++++++++------
 src/utilities/utilities.cpp | 14 ++++++++++++++
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/includes/utilities.hpp b/includes/utilities.hpp
index 455cd2c..883c176 100644
--- a/includes/utilities.hpp
+++ b/includes/utilities.hpp
@@ -11,6 +11,8 @@ mpz_class getRandom(size_t bits);
 
 mpz_class setRawMpz(uint8_t* arr, size_t len);
 size_t getRawMpz(uint8_t** arr, mpz_class n);
+// big-endian bytes of n, padded with leading zero bytes to exactly size bytes
+size_t getRawMpz(uint8_t** arr, mpz_class n, size_t size);
 
 }
 
diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 5cf75ff..afec45a 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -1,4 +1,5 @@
 
+#include <stdlib.h>
 #include <openssl/evp.h>
 #include <openssl/aes.h>
 #include <openssl/err.h>
@@ -44,12 +45,13 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
-    unsigned char ciphertext[128];
+    unsigned char *ciphertext;
     uint8_t *ptarr;
     uint8_t *keyarr;
     
+    utils::getRawMpz(&keyarr, key, CRYPTO_KEYBYTES);
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
-    utils::getRawMpz(&keyarr, key);
+    if(!(ciphertext = (unsigned char*) malloc(pt_len + EVP_MAX_BLOCK_LENGTH))) handleErrors();
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
@@ -88,7 +90,11 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
-    return utils::setRawMpz(ciphertext,ciphertext_len);
+    mpz_class res = utils::setRawMpz(ciphertext,ciphertext_len);
+    free(ciphertext);
+    free(ptarr);
+    free(keyarr);
+    return res;
 }
 
 msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
@@ -96,12 +102,13 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
     // unsigned char plaintext[128];
-    unsigned char plaintext[128];
+    unsigned char *plaintext;
     uint8_t *ctxtarr;
     uint8_t *keyarr;
     
+    utils::getRawMpz(&keyarr, key, CRYPTO_KEYBYTES);
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
-    utils::getRawMpz(&keyarr, key);
+    if(!(plaintext = (unsigned char*) malloc(ctxt_len + EVP_MAX_BLOCK_LENGTH))) handleErrors();
 
 
     /* Create and initialise the context */
@@ -142,7 +149,11 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     EVP_CIPHER_CTX_free(ctx);
     // plaintext[plaintext_len] = '\0';
 
-    return utils::setRawMpz(plaintext, plaintext_len);
+    mpz_class res = utils::setRawMpz(plaintext, plaintext_len);
+    free(plaintext);
+    free(ctxtarr);
+    free(keyarr);
+    return res;
 }    
 
 ctxt_t AES::encryptCRC(const mpz_class key, const msg_t plaintext) const
diff --git a/src/utilities/utilities.cpp b/src/utilities/utilities.cpp
index ba7d821..b1ec042 100644
--- a/src/utilities/utilities.cpp
+++ b/src/utilities/utilities.cpp
@@ -1,3 +1,6 @@
+#include <stdlib.h>
+#include <new>
+#include <stdexcept>
 #include <gmpxx.h>
 #include "utilities.hpp"
 
@@ -18,6 +21,17 @@ size_t getRawMpz(uint8_t** arr, mpz_class n)
     *arr = (uint8_t*) mpz_export(NULL,&len,1, 1,1,0,n.get_mpz_t());
     return len;
 }
+size_t getRawMpz(uint8_t** arr, mpz_class n, size_t size)
+{
+    size_t len = (n == 0) ? 0 : (mpz_sizeinbase(n.get_mpz_t(), 2) + 7)/8;
+    if (len > size)
+        throw std::invalid_argument("the integer does not fit in the given number of bytes");
+    *arr = (uint8_t*) calloc(size, 1);
+    if (!*arr)
+        throw std::bad_alloc();
+    mpz_export(*arr + (size - len), NULL, 1, 1, 1, 0, n.get_mpz_t());
+    return size;
+}
 mpz_class setRawMpz(uint8_t* arr, size_t len)
 {
     mpz_class r;
-- 
2.43.0


From 890e2e42dd86d55c4d8e3615b4afcb03140c8465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 13/26] fix: AES::decrypt ignored the result of
 EVP_DecryptFinal_ex

---
 src/utilities/aes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index afec45a..e713bf2 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -142,7 +142,7 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     /* Finalise the decryption. A positive return value indicates success,
      * anything else is a failure - the plaintext is not trustworthy.
      */
-    EVP_DecryptFinal_ex(ctx, plaintext + len, &len);
+    if(1 != EVP_DecryptFinal_ex(ctx, plaintext + len, &len)) handleErrors();
     plaintext_len += len;
 
     /* Clean up */
-- 
2.43.0


From 00a6f35b79372ad45acf93c0faee86f01a1be5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 14/26] fix: ciphertexts starting with zero bytes lost them and
 did not decrypt

---
 src/utilities/aes.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index e713bf2..532123e 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -91,6 +91,8 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
     mpz_class res = utils::setRawMpz(ciphertext,ciphertext_len);
+    // a leading 1 keeps the leading zero bytes of the ciphertext
+    mpz_setbit(res.get_mpz_t(), 8*ciphertext_len);
     free(ciphertext);
     free(ptarr);
     free(keyarr);
@@ -106,8 +108,15 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     uint8_t *ctxtarr;
     uint8_t *keyarr;
     
+    // drop the leading 1 that encrypt() puts before the ciphertext bytes
+    if(cipher <= 0 || mpz_sizeinbase(cipher.get_mpz_t(), 2) % 8 != 1)
+        return msg_t(0);
+    size_t ctxt_len = mpz_sizeinbase(cipher.get_mpz_t(), 2) / 8;
+    mpz_class body = cipher;
+    mpz_clrbit(body.get_mpz_t(), 8*ctxt_len);
+
     utils::getRawMpz(&keyarr, key, CRYPTO_KEYBYTES);
-    size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
+    utils::getRawMpz(&ctxtarr, body, ctxt_len);
     if(!(plaintext = (unsigned char*) malloc(ctxt_len + EVP_MAX_BLOCK_LENGTH))) handleErrors();
 
 
-- 
2.43.0


From ebb77279ab325461f387e6fbb1108b6b535b5bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 15/26] fix: AES passed message lengths that do not fit in an
 int to the cipher library

---
 src/utilities/aes.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 532123e..0f23e10 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -1,4 +1,5 @@
 
+#include <limits.h>
 #include <stdlib.h>
 #include <openssl/evp.h>
 #include <openssl/aes.h>
@@ -15,6 +16,9 @@ namespace aes
 {
 string AES::iv(CRYPTO_NPUBBYTES, '\0');
 
+// message and ciphertext lengths in bits have to fit in an int
+static const size_t MAX_MSG_BITS = INT_MAX - 8*EVP_MAX_BLOCK_LENGTH;
+
 void handleErrors(void)
 {
     unsigned long errCode;
@@ -49,6 +53,9 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     uint8_t *ptarr;
     uint8_t *keyarr;
     
+    if(mpz_sizeinbase(plaintext.get_mpz_t(), 2) > MAX_MSG_BITS)
+        throw std::invalid_argument("the message is too long");
+
     utils::getRawMpz(&keyarr, key, CRYPTO_KEYBYTES);
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
     if(!(ciphertext = (unsigned char*) malloc(pt_len + EVP_MAX_BLOCK_LENGTH))) handleErrors();
@@ -108,6 +115,9 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     uint8_t *ctxtarr;
     uint8_t *keyarr;
     
+    if(mpz_sizeinbase(cipher.get_mpz_t(), 2) > MAX_MSG_BITS + 8)
+        throw std::invalid_argument("the ciphertext is too long");
+
     // drop the leading 1 that encrypt() puts before the ciphertext bytes
     if(cipher <= 0 || mpz_sizeinbase(cipher.get_mpz_t(), 2) % 8 != 1)
         return msg_t(0);
-- 
2.43.0


From d58e798415337ba170cee8ab6c7f720d68c87ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 16/26] fix: Puda aggregation returned 0 for a sum of 65535

---
 src/puda/puda.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/puda/puda.cpp b/src/puda/puda.cpp
index 2239a25..03a0f44 100644
--- a/src/puda/puda.cpp
+++ b/src/puda/puda.cpp
@@ -19,7 +19,7 @@ Puda::~Puda()
 
 msg_t Puda::compute_dlog(POINT1 c)
 {
-    for(uint16_t i=0; i!=USHRT_MAX; i++)
+    for(uint32_t i=0; i<=USHRT_MAX; i++)
     {
         if (pp.g1 * mpz_class(i) == c)
             return i;
-- 
2.43.0


From 9b3265d37f74b241ccf93f20d0c96967f0b6625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 17/26] fix: Shamir coefficients were drawn from 1..100 instead
 of the whole field

---
 src/shamirss/shamirss.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shamirss/shamirss.cpp b/src/shamirss/shamirss.cpp
index b878c17..a9b207a 100644
--- a/src/shamirss/shamirss.cpp
+++ b/src/shamirss/shamirss.cpp
@@ -3,6 +3,8 @@
 
 namespace sss
 {
+static gmp_randclass rng(gmp_randinit_default);
+
 ShamirSS::ShamirSS()
 {
 
@@ -29,7 +31,7 @@ share_v_t ShamirSS::getShares(size_t t, size_t n, FIELD secret)
     share_v_t shares;
     for (size_t i = 0; i < t-1; i++)
     {
-        coefs.push_back(FIELD((rand()+1) %100));
+        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));
     }
 
     for (size_t i = 1; i <= n; i++)
-- 
2.43.0


From 717710f46ffc667e8f639e1806907508339b9875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 18/26] fix: getShares with threshold 0 looped forever

---
 src/shamirss/shamirss.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shamirss/shamirss.cpp b/src/shamirss/shamirss.cpp
index a9b207a..4446b84 100644
--- a/src/shamirss/shamirss.cpp
+++ b/src/shamirss/shamirss.cpp
@@ -29,7 +29,7 @@ share_v_t ShamirSS::getShares(size_t t, size_t n, FIELD secret)
 {
     field_v_t coefs = {secret};
     share_v_t shares;
-    for (size_t i = 0; i < t-1; i++)
+    for (size_t i = 1; i < t; i++)
     {
         coefs.push_back(FIELD(rng.get_z_range(secret.getField())));
     }
-- 
2.43.0


From 8c862c2b5876005251ec790855a2e0094d3509db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 19/26] fix: OPPRF server reused the keys of the first session
 when preparing again without clean()

---
 src/opprf/opprf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opprf/opprf.cpp b/src/opprf/opprf.cpp
index 8690c60..c4ac947 100644
--- a/src/opprf/opprf.cpp
+++ b/src/opprf/opprf.cpp
@@ -36,6 +36,10 @@ void OPPRFserver::prepareKeysAndInputs()
 {
     kopprf = curve->getRandomPoint();
     r = curve->getRandomPoint();
+    k_lt.clear();
+    k_eq.clear();
+    k_gt.clear();
+    ok.clear();
     for (size_t j = 0; j < MSG_BITS; j++)
     {
         k_lt.push_back(utils::getRandom(128));
-- 
2.43.0


From 4aea064089a562db0815b5417af846db27b41c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 20/26] fix: OPPRF server validated its secret point only in
 debug builds

---
 src/opprf/opprf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opprf/opprf.cpp b/src/opprf/opprf.cpp
index c4ac947..e383289 100644
--- a/src/opprf/opprf.cpp
+++ b/src/opprf/opprf.cpp
@@ -27,7 +27,8 @@ OPPRFserver::OPPRFserver(msg_t theta, dme::crs_ddh_t crs) : ots(crs)
 void OPPRFserver::setSecret(G_t& ga)
 {
     ga.curve = curve;
-    assert(ga.isValid());
+    if(!ga.isValid())
+        throw std::invalid_argument("the secret is not a point of the curve");
     this->ga = ga;
 }
 
-- 
2.43.0


From 2ea255edebb9bbeebb29678e1a385f9c2dfb3ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 21/26] fix: copies of DME_DDH shared its curve and freed it
 twice

---
 includes/dme.hpp |  2 ++
 src/dme/dme.cpp  | 17 +++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/includes/dme.hpp b/includes/dme.hpp
index 5bb7b75..e9e06b6 100644
--- a/includes/dme.hpp
+++ b/includes/dme.hpp
@@ -116,6 +116,8 @@ public:
     DME_DDH();
     DME_DDH(mode_t mu);
     DME_DDH(crs_ddh_t crs);
+    DME_DDH(const DME_DDH& d);
+    DME_DDH& operator=(const DME_DDH& d);
     ~DME_DDH();
     
     CURVE* getCurve(void) {return curve;}
diff --git a/src/dme/dme.cpp b/src/dme/dme.cpp
index 257edac..da463b6 100644
--- a/src/dme/dme.cpp
+++ b/src/dme/dme.cpp
@@ -184,6 +184,23 @@ DME_DDH::DME_DDH(crs_ddh_t crs)
 }
 
 
+DME_DDH::DME_DDH(const DME_DDH& d)
+{
+    *this = d;
+}
+
+
+DME_DDH& DME_DDH::operator=(const DME_DDH& d)
+{
+    mode = d.mode;
+    td_m = d.td_m;
+    td_d = d.td_d;
+    crs = d.crs;
+    crs.updateCurve(curve);
+    return *this;
+}
+
+
 DME_DDH::~DME_DDH()
 {
     if (curve)
-- 
2.43.0


From 48b6b65707b21b4f796f032a16e8060aa2117f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 22/26] fix: copies of Puda shared its curves and freed them
 twice

---
 includes/puda.hpp |  2 ++
 src/puda/puda.cpp | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/includes/puda.hpp b/includes/puda.hpp
index 361cec4..ba71307 100644
--- a/includes/puda.hpp
+++ b/includes/puda.hpp
@@ -72,6 +72,8 @@ private:
 
 public:
   Puda();
+  Puda(const Puda& o);
+  Puda& operator=(const Puda& o);
   ~Puda();
 
   std::tuple<ek_v_t, sk_v_t, ak_t, vk_t> Setup(size_t n);
diff --git a/src/puda/puda.cpp b/src/puda/puda.cpp
index 03a0f44..f05a300 100644
--- a/src/puda/puda.cpp
+++ b/src/puda/puda.cpp
@@ -11,6 +11,22 @@ Puda::Puda()
     pp.curve2 = new CURVE2;
 }
 
+Puda::Puda(const Puda& o) : Puda()
+{
+    *this = o;
+}
+
+Puda& Puda::operator=(const Puda& o)
+{
+    pp.g1 = o.pp.g1;
+    pp.g2 = o.pp.g2;
+    pp.hash = o.pp.hash;
+    pp.g1.curve = pp.curve1;
+    pp.g2.curve = pp.curve2;
+    pp.hash.curve = pp.curve1;
+    return *this;
+}
+
 Puda::~Puda()
 {
     delete pp.curve1;
-- 
2.43.0


From 08f6048a3fc2f2b03dd7d01f23dbc91eb8f02eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 23/26] fix: copies of OPPRF parties used the curve of the
 original

---
 includes/opprf.hpp  |  5 ++++
 src/opprf/opprf.cpp | 58 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 63 insertions(+)

diff --git a/includes/opprf.hpp b/includes/opprf.hpp
index 999aac0..a495988 100644
--- a/includes/opprf.hpp
+++ b/includes/opprf.hpp
@@ -81,9 +81,12 @@ private:
     srv_inputi_v_t Si1;
 
     aes::ctxt_t Enc(symkey_t key, symkey_t k);
+    void updateCurve();
 
 public:
     OPPRFserver(msg_t theta, dme::crs_ddh_t crs);
+    OPPRFserver(const OPPRFserver& s);
+    OPPRFserver& operator=(const OPPRFserver& s);
     ~OPPRFserver() {}
 
     void setSecret(G_t& ga);
@@ -114,6 +117,8 @@ private:
 
 public:
     OPPRFclient(dme::crs_ddh_t crs);
+    OPPRFclient(const OPPRFclient& c);
+    OPPRFclient& operator=(const OPPRFclient& c);
     ~OPPRFclient() {}
 
     void setMessage(msg_t msg) {x = msg;}
diff --git a/src/opprf/opprf.cpp b/src/opprf/opprf.cpp
index e383289..af57be6 100644
--- a/src/opprf/opprf.cpp
+++ b/src/opprf/opprf.cpp
@@ -19,6 +19,46 @@ OPPRFserver::OPPRFserver(msg_t theta, dme::crs_ddh_t crs) : ots(crs)
     aes::AES::init();
 }
 
+OPPRFserver::OPPRFserver(const OPPRFserver& s) :
+    ots(s.ots), theta(s.theta), ga(s.ga), kopprf(s.kopprf), r(s.r), gk(s.gk),
+    k_lt(s.k_lt), k_eq(s.k_eq), k_gt(s.k_gt), ok(s.ok),
+    Sl0(s.Sl0), Sl1(s.Sl1), Si0(s.Si0), Si1(s.Si1)
+{
+    updateCurve();
+}
+
+OPPRFserver& OPPRFserver::operator=(const OPPRFserver& s)
+{
+    ots = s.ots;
+    theta = s.theta;
+    ga = s.ga;
+    kopprf = s.kopprf;
+    r = s.r;
+    gk = s.gk;
+    k_lt = s.k_lt;
+    k_eq = s.k_eq;
+    k_gt = s.k_gt;
+    ok = s.ok;
+    Sl0 = s.Sl0;
+    Sl1 = s.Sl1;
+    Si0 = s.Si0;
+    Si1 = s.Si1;
+    updateCurve();
+    return *this;
+}
+
+// points keep a pointer to their curve: let all of them refer to our own
+void OPPRFserver::updateCurve()
+{
+    curve = ots.getCurve();
+    for (G_t* p : {&ga, &kopprf, &r, &gk, &Sl0.prf, &Sl1.prf})
+        p->curve = curve;
+    for (srv_inputi_t& s : Si0)
+        s.prf.curve = curve;
+    for (srv_inputi_t& s : Si1)
+        s.prf.curve = curve;
+}
+
 // inline Gk_t OPPRFserver::genKey(symkey_t k1, symkey_t k2)
 // {
 //     return gk * (k2 - k1);
@@ -170,6 +210,24 @@ OPPRFclient::OPPRFclient(dme::crs_ddh_t crs) : otr(crs)
     this->curve = otr.getCurve();
 }
 
+OPPRFclient::OPPRFclient(const OPPRFclient& c) :
+    otr(c.otr), x(c.x), result(c.result), key(c.key)
+{
+    curve = otr.getCurve();
+    result.curve = curve;
+}
+
+OPPRFclient& OPPRFclient::operator=(const OPPRFclient& c)
+{
+    otr = c.otr;
+    x = c.x;
+    result = c.result;
+    key = c.key;
+    curve = otr.getCurve();
+    result.curve = curve;
+    return *this;
+}
+
 dme::pkey_t OPPRFclient::runOTRound_start(short round)
 {
     bool bit = x & (1 << (round-1));
-- 
2.43.0


From 0c29c1065520b87ac62f9b4487720a8fb9690047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 24/26] fix: DME_DDH::EncCRC returned nothing and its
 counterpart was not defined

---
 src/dme/CMakeLists.txt |  2 +-
 src/dme/dme.cpp        | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dme/CMakeLists.txt b/src/dme/CMakeLists.txt
index e91374e..05ab8f3 100644
--- a/src/dme/CMakeLists.txt
+++ b/src/dme/CMakeLists.txt
@@ -1 +1 @@
-add_library(dme SHARED dme.cpp dmhe.cpp)
\ No newline at end of file
+add_library(dme SHARED dme.cpp dmhe.cpp ../utilities/utilities.cpp)
\ No newline at end of file
diff --git a/src/dme/dme.cpp b/src/dme/dme.cpp
index da463b6..9cbfd85 100644
--- a/src/dme/dme.cpp
+++ b/src/dme/dme.cpp
@@ -3,6 +3,7 @@
 
 #include "dme.hpp"
 #include "ecc_secp256r1.hpp"
+#include "crc.hpp"
 
 
 namespace dme
@@ -292,8 +293,7 @@ ctxt_t DME_DDH::Enc(const pkey_t& pk, branch_t b, const mpz_class& m) const
 
 ctxt_t DME_DDH::EncCRC(const pkey_t& pk, branch_t b, const mpz_class& m) const
 {
-    // std::string s = m;
-    // return Enc(pk, b, encode(m));
+    return Enc(pk, b, encode(appendCRC(m)));
 }
 
 
@@ -309,6 +309,15 @@ mpz_class DME_DDH::DecDecode(const skey_t& sk, const ctxt_t& c) const
 }
 
 
+mpz_class DME_DDH::DecDecodeCRC(const skey_t& sk, const ctxt_t& c) const
+{
+    mpz_class m = DecDecode(sk, c);
+    if (validateCRC(m))
+        return removeCRC(m);
+    return 0;
+}
+
+
 branch_t DME_DDH::FindMessy(const pkey_t& pk) const
 {
     return branch_t(pk.h == (pk.g * td_m.e0));
-- 
2.43.0


From c2c92781631aa0c91ef3d5c7b60ace1fc99c69ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 25/26] fix: topprf.hpp did not compile

---
 includes/topprf.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/includes/topprf.hpp b/includes/topprf.hpp
index 4b51126..6c389b8 100644
--- a/includes/topprf.hpp
+++ b/includes/topprf.hpp
@@ -54,8 +54,6 @@ public:
     symctxt_t sendEncryptedMasks();
 };
 
-enum keysymbol_t {lt, eq, gt};
-
 class TOPPRFclient
 {
 private:
@@ -72,8 +70,8 @@ private:
     aes::AES aes;
 
 public:
-    OPPRFclient(dme::crs_ddh_t crs);
-    ~OPPRFclient() {}
+    TOPPRFclient(dme::crs_ddh_t crs);
+    ~TOPPRFclient() {}
 
     void setMessage(msg_t msg) {x = msg;}
     G_t getResult() {return result;}
-- 
2.43.0


From bf375f9f091d37aeeb90eb8d109677e376d31cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:51 +0000
Subject: [PATCH 26/26] fix: initialise scalar members that copies and getters
 read before they are set

---
 includes/dme.hpp      | 2 +-
 includes/opprf.hpp    | 2 +-
 includes/ot.hpp       | 2 +-
 includes/shamirss.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/includes/dme.hpp b/includes/dme.hpp
index e9e06b6..3438664 100644
--- a/includes/dme.hpp
+++ b/includes/dme.hpp
@@ -102,7 +102,7 @@ private:
     
     CURVE* curve =  new CURVE;
 
-    mode_t mode;  
+    mode_t mode = messy;  
     td_messy_ddh_t td_m;
     td_dec_ddh_t td_d;
 
diff --git a/includes/opprf.hpp b/includes/opprf.hpp
index a495988..c8c4300 100644
--- a/includes/opprf.hpp
+++ b/includes/opprf.hpp
@@ -106,7 +106,7 @@ private:
     dme::CURVE* curve;
 
     ot::OTrecv otr;
-    msg_t x;
+    msg_t x = 0;
     G_t result;
     symkey_t key;
 
diff --git a/includes/ot.hpp b/includes/ot.hpp
index 2a7aba0..bc98dff 100644
--- a/includes/ot.hpp
+++ b/includes/ot.hpp
@@ -15,7 +15,7 @@ class OTrecv
 private:
     dme::DME_DDH dme;
     dme::skey_t sk; 
-    dme::branch_t b;
+    dme::branch_t b = dme::b0;
 
 public:
 
diff --git a/includes/shamirss.hpp b/includes/shamirss.hpp
index 69e2220..6145439 100644
--- a/includes/shamirss.hpp
+++ b/includes/shamirss.hpp
@@ -29,7 +29,7 @@ typedef std::vector<FIELD> field_v_t;
 class ShamirSS
 {
 private:
-    int i;
+    int i = 0;
     FIELD evalPoly(FIELD x, field_v_t& poly);
 public:
     ShamirSS();
-- 
2.43.0


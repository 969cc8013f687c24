From 370b7c47e5e346cbb334511dacbb928d55a58e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 01/41] fix: keep both class bits when reading and writing BER
 identifiers

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 1718860..b003368 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -172,7 +172,7 @@ int crefl_asn1_ber_ident_read(crefl_buf *buf, asn1_id *_id)
         goto err;
     }
 
-    _id->_class =       (b >> 6) & 0x02;
+    _id->_class =       (b >> 6) & 0x03;
     _id->_constructed = (b >> 5) & 0x01;
     _id->_identifier =   b       & 0x1f;
 
@@ -196,7 +196,7 @@ int crefl_asn1_ber_ident_write(crefl_buf *buf, asn1_id _id)
 {
     int8_t b;
 
-    b = ( (u8)(_id._class       & 0x02) << 6 ) |
+    b = ( (u8)(_id._class       & 0x03) << 6 ) |
         ( (u8)(_id._constructed & 0x01) << 5 ) |
         ( (u8)(_id._identifier < 0x1f ? _id._identifier : 0x1f) );
 
-- 
2.43.0


From 6bbbb18a16e72da113c9c4feab92d8d66e5bd2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 02/41] fix: make the buffer capacity check able to fail so
 LEB128 writes stay in bounds

---
 include/crefl/buf.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index ac69674..d346b15 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -91,9 +91,10 @@ static size_t crefl_buf_offset(crefl_buf* buf);
 
 #define CREFL_FN(Y,X) crefl_ ## Y ## _ ## X
 
-static inline size_t crefl_buf_check_capacity(crefl_buf *buf, size_t len)
+static inline int crefl_buf_check_capacity(crefl_buf *buf, size_t len)
 {
-    return (buf->data_offset + len > buf->data_size) ? -1 : 0;
+    return (buf->data_offset > buf->data_size ||
+            len > buf->data_size - buf->data_offset) ? -1 : 0;
 }
 
 #if USE_UNALIGNED_ACCESSES && !USE_CRT_MEMCPY
-- 
2.43.0


From e2927fc618fd66ceba7cafcb8ffefa40d8a62dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 03/41] fix: do not let a huge length wrap the buffer bounds
 check

---
 include/crefl/buf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index d346b15..e4e0d9f 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -212,7 +212,7 @@ static inline size_t crefl_buf_write_unchecked_i8(crefl_buf *buf, int8_t val)
 
 static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len) < 0) return 0;
 #if USE_CRT_MEMCPY
     memcpy(&buf->data[buf->data_offset], src, len);
 #else
@@ -226,7 +226,7 @@ static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size
 
 static inline size_t crefl_buf_read_bytes(crefl_buf* buf, char *dst, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len) < 0) return 0;
 #if USE_CRT_MEMCPY
     memcpy(dst, &buf->data[buf->data_offset], len);
 #else
-- 
2.43.0


From 2edbcf8cccdaa974513b29733399ad447f160de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 04/41] fix: refuse tags and LEB128 numbers that continue past
 56 bits

---
 src/asn1.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index b003368..2e166b4 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -114,7 +114,7 @@ int crefl_asn1_ber_tag_read(crefl_buf *buf, u64 *tag)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
@@ -2231,7 +2231,7 @@ int crefl_leb_u64_read(crefl_buf *buf, u64 *value)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
@@ -2256,7 +2256,7 @@ u64_result crefl_leb_u64_read_byval(crefl_buf *buf)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         return u64_result { 0, -1 };
     }
 
-- 
2.43.0


From 4cb4805fb301cbf3473489adab0b6fca4deb953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 05/41] fix: refuse octet strings whose length runs past the
 end of the buffer

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 2e166b4..f358ff9 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2587,7 +2587,7 @@ int crefl_asn1_ber_octets_read(crefl_buf *buf, size_t len, asn1_string *obj)
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
@@ -2605,7 +2605,7 @@ int crefl_asn1_ber_octets_write(crefl_buf *buf, size_t len, const asn1_string *o
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
-- 
2.43.0


From d37ed08fa9559fcf17dbcd9e52844707a6ab07ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 06/41] fix: refuse zero-length integer contents instead of
 shifting by 64

---
 src/asn1.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index f358ff9..3071546 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -378,7 +378,7 @@ int crefl_asn1_ber_integer_u64_read(crefl_buf *buf, size_t len, u64 *value)
     u64 v = 0, o = 0;
     size_t shift = (64 - len * 8);
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         goto err;
     }
     if (crefl_buf_read_bytes(buf, (char*)&o, len) != len) {
@@ -403,7 +403,7 @@ u64_result crefl_asn1_ber_integer_u64_read_byval(crefl_buf *buf, size_t len)
     u64 v = 0, o = 0;
     size_t shift = (64 - len * 8);
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         return { 0, -1 };
     }
     if (crefl_buf_read_bytes(buf, (char*)&o, len) != len) {
@@ -483,7 +483,7 @@ int crefl_le_ber_integer_u64_read(crefl_buf *buf, size_t len, u64 *value)
 {
     u64 v = 0, o = 0;
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         goto err;
     }
 
@@ -510,7 +510,7 @@ u64_result crefl_le_ber_integer_u64_read_byval(crefl_buf *buf, size_t len)
 {
     u64 v = 0, o = 0;
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         return u64_result { 0, -1 };
     }
 
-- 
2.43.0


From ee0f68e8ca1eaff653de43b4781121cb0e34d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 07/41] fix: use the X.690 content octets for NOT-A-NUMBER and
 minus zero

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 3071546..89b7bed 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -913,8 +913,8 @@ enum _real_decimal_nr {
 enum _real_special {
     _real_special_pos_inf   = 0b01000000,
     _real_special_neg_inf   = 0b01000001,
-    _real_special_neg_zero  = 0b01000010,
-    _real_special_nan       = 0b01000011,
+    _real_special_nan       = 0b01000010,
+    _real_special_neg_zero  = 0b01000011,
 };
 
 static _real_fmt _asn1_real_format(u8 x)
-- 
2.43.0


From ff3afe0a52d488b71053f04402d34864bf05fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 08/41] fix: encode and decode subnormal reals and refuse
 exponents out of range

---
 src/asn1.cc | 96 +++++++++++++++++++++++++----------------------------
 1 file changed, 45 insertions(+), 51 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 89b7bed..e40fb88 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -949,6 +949,42 @@ struct f64_asn1_data
     bool sign : 1, inf : 1, nan : 1, zero : 1;
 };
 
+/*
+ * convert ASN.1 fraction and exponent to IEEE 754, returning -1 if the
+ * magnitude is out of range. bits below the least significant bit of the
+ * IEEE 754 mantissa are truncated.
+ */
+static int f64_asn1_data_put(u64 frac, s64 sexp, bool sign, double *value)
+{
+    s64 fexp = 0;
+
+    if (frac != 0) {
+        /*
+         * IEEE 754 exponent is relative to the msb of the mantissa
+         * ASN.1 exponent is relative to the lsb of the mantissa
+         *
+         * left-justify the fraction and crop off the IEEE 754 implied
+         * leading digit 0b1.xxx, or preserve the leading digit and shift
+         * it right if the result is subnormal.
+         */
+        size_t frac_lz = clz(frac);
+        frac <<= frac_lz;
+        fexp = (s64)f64_exp_bias + 63 - (s64)frac_lz + sexp;
+        if (fexp >= (s64)f64_exp_mask || fexp < -(s64)f64_mant_size + 1) {
+            return -1;
+        }
+        if (fexp > 0) {
+            frac = (frac << 1) >> (64 - f64_mant_size);
+        } else {
+            frac = frac >> (64 - f64_mant_size - fexp);
+            fexp = 0;
+        }
+    }
+
+    *value = f64_pack_float(f64_struct{frac, (u64)fexp, sign});
+    return 0;
+}
+
 /*
  * IEEE 754 exponent is relative to the msb of the mantissa
  * ASN.1 exponent is relative to the lsb of the mantissa
@@ -960,16 +996,16 @@ static f64_asn1_data f64_asn1_data_get(double value)
 {
     u64 frac;
     s64 sexp;
-    size_t frac_tz, frac_lz;
+    size_t frac_tz;
 
     sexp = (s64)f64_exp_dec(value);
     frac = (s64)f64_mant_dec(value) | (-(s64)(sexp > 0) & f64_mant_prefix);
-    frac_tz = ctz(frac);
-    frac_lz = clz(frac);
-    frac >>= frac_tz;
 
-    if (sexp > 0) {
-        sexp += frac_lz + frac_tz - 63 - f64_exp_bias;
+    if (frac != 0) {
+        /* subnormals share the exponent of the smallest normal */
+        frac_tz = ctz(frac);
+        frac >>= frac_tz;
+        sexp += (sexp == 0) + frac_tz - f64_mant_size - f64_exp_bias;
     }
 
     return f64_asn1_data {
@@ -1017,9 +1053,7 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     size_t exp_len;
     u64 frac;
     s64 sexp;
-    u64 fexp;
     bool sign;
-    size_t frac_lz;
 
     if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
@@ -1051,28 +1085,9 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     if (crefl_asn1_ber_integer_u64_read(buf, frac_len, &frac) < 0) {
         goto err;
     }
-    frac_lz = clz(frac);
-
-    /*
-     * IEEE 754 exponent is relative to the msb of the mantissa
-     * ASN.1 exponent is relative to the lsb of the mantissa
-     *
-     * left-justify the fraction with the most significant set bit in bit 51
-     * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
-     */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
-        fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
-        fexp = f64_exp_bias + 63 + sexp - frac_lz;
-    }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
-        return -1;
+    if (f64_asn1_data_put(frac, sexp, sign, &v) < 0) {
+        goto err;
     }
-    v = f64_pack_float(f64_struct{frac, fexp, sign});
 
     *value = v;
     return 0;
@@ -1091,9 +1106,7 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     size_t exp_len;
     u64 frac;
     s64 sexp;
-    u64 fexp;
     bool sign;
-    size_t frac_lz;
     s64_result rexp;
     u64_result rfrac;
 
@@ -1131,28 +1144,9 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
         return f64_result { 0, rfrac.error };
     }
     frac = rfrac.value;
-    frac_lz = clz(frac);
-
-    /*
-     * IEEE 754 exponent is relative to the msb of the mantissa
-     * ASN.1 exponent is relative to the lsb of the mantissa
-     *
-     * left-justify the fraction with the most significant set bit in bit 51
-     * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
-     */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
-        fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
-        fexp = f64_exp_bias + 63 + sexp - frac_lz;
-    }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
+    if (f64_asn1_data_put(frac, sexp, sign, &v) < 0) {
         return f64_result { 0, -1 };
     }
-    v = f64_pack_float(f64_struct{frac, fexp, sign});
 
     return f64_result { v, 0 };
 }
-- 
2.43.0


From 624a392ad28b78ca8701bec46fd39e356ce51286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 09/41] fix: refuse real encodings whose base, scale factor or
 length is not handled

---
 src/asn1.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index e40fb88..15d797d 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -922,6 +922,16 @@ static _real_fmt _asn1_real_format(u8 x)
     return (_real_fmt)((x >> _real_fmt_shift) & _real_fmt_mask);
 }
 
+static _real_base _asn1_real_base(u8 x)
+{
+    return (_real_base)((x >> _real_base_shift) & _real_base_mask);
+}
+
+static u8 _asn1_real_scale(u8 x)
+{
+    return (x >> _real_scale_shift) & _real_scale_mask;
+}
+
 static _real_exp _asn1_real_exp(u8 x)
 {
     return (_real_exp)((x >> _real_exp_shift) & _real_exp_mask);
@@ -1059,6 +1069,9 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
         goto err;
     }
     fmt = _asn1_real_format(b);
+    if (fmt == _real_fmt_special && len != 1) {
+        goto err;
+    }
     switch (b) {
     case _real_special_pos_inf:  *value = std::numeric_limits<f64>::infinity();  return 0;
     case _real_special_neg_inf:  *value = -std::numeric_limits<f64>::infinity(); return 0;
@@ -1071,6 +1084,9 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     case _real_fmt_binary_neg: sign = true; break;
     default: goto err;
     }
+    if (_asn1_real_base(b) != _real_base_2 || _asn1_real_scale(b) != 0) {
+        goto err;
+    }
     exp_mode = _asn1_real_exp(b);
     switch(exp_mode) {
     case _real_exp_1: exp_len = 1; break;
@@ -1114,6 +1130,9 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
         return f64_result { 0, -1 };
     }
     fmt = _asn1_real_format(b);
+    if (fmt == _real_fmt_special && len != 1) {
+        return f64_result { 0, -1 };
+    }
     switch (b) {
     case _real_special_pos_inf:  return f64_result { std::numeric_limits<f64>::infinity(), 0 };
     case _real_special_neg_inf:  return f64_result { -std::numeric_limits<f64>::infinity(), 0 };
@@ -1126,6 +1145,9 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     case _real_fmt_binary_neg: sign = true; break;
     default: return f64_result { 0, -1 };
     }
+    if (_asn1_real_base(b) != _real_base_2 || _asn1_real_scale(b) != 0) {
+        return f64_result { 0, -1 };
+    }
     exp_mode = _asn1_real_exp(b);
     switch(exp_mode) {
     case _real_exp_1: exp_len = 1; break;
-- 
2.43.0


From 35a09092282c12725032541fb8d8b2433e86ca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 10/41] fix: refuse boolean contents that are not exactly one
 octet

---
 src/asn1.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index 15d797d..0f3ba2c 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -313,6 +313,9 @@ int crefl_asn1_ber_boolean_read(crefl_buf *buf, size_t len, bool *value)
 {
     int8_t b;
 
+    if (len != 1) {
+        goto err;
+    }
     if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
     }
-- 
2.43.0


From ecb190dfdd4998759a927bd2679e901bbfbca274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 11/41] fix: check the tag when reading DER objects

---
 src/asn1.cc | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 0f3ba2c..0a052bb 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -298,6 +298,20 @@ err:
     return -1;
 }
 
+/*
+ * read identifier and length, checking that the object has the expected
+ * universal tag and a primitive encoding.
+ */
+
+static int crefl_asn1_der_hdr_read(crefl_buf *buf, asn1_tag _tag, asn1_hdr *hdr)
+{
+    if (crefl_asn1_ber_ident_read(buf, &hdr->_id) < 0) return -1;
+    if (hdr->_id._identifier != (u64)_tag || hdr->_id._constructed ||
+        hdr->_id._class != asn1_class_universal) return -1;
+    if (crefl_asn1_ber_length_read(buf, &hdr->_length) < 0) return -1;
+    return 0;
+}
+
 /*
  * ISO/IEC 8825-1:2003 8.2 boolean
  *
@@ -344,8 +358,7 @@ err:
 int crefl_asn1_der_boolean_read(crefl_buf *buf, asn1_tag _tag, bool *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_boolean_read(buf, hdr._length, value);
 }
 
@@ -663,16 +676,14 @@ int crefl_le_ber_integer_s64_write_byval(crefl_buf *buf, size_t len, const s64 v
 int crefl_asn1_der_integer_u64_read(crefl_buf *buf, asn1_tag _tag, u64 *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_integer_u64_read(buf, hdr._length, value);
 }
 
 u64_result crefl_asn1_der_integer_u64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return u64_result { 0, -1 };
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return u64_result { 0, -1 };
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return u64_result { 0, -1 };
     return crefl_asn1_ber_integer_u64_read_byval(buf, hdr._length);
 }
 
@@ -701,16 +712,14 @@ int crefl_asn1_der_integer_u64_write_byval(crefl_buf *buf, asn1_tag _tag, const
 int crefl_asn1_der_integer_s64_read(crefl_buf *buf, asn1_tag _tag, s64 *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_integer_s64_read(buf, hdr._length, value);
 }
 
 s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag, s64 *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return s64_result { 0, -1 };
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return s64_result { 0, -1 };
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return s64_result { 0, -1 };
     return crefl_asn1_ber_integer_s64_read_byval(buf, hdr._length);
 }
 
@@ -1257,16 +1266,14 @@ int crefl_asn1_ber_real_f64_write_byval(crefl_buf *buf, size_t len, const double
 int crefl_asn1_der_real_f64_read(crefl_buf *buf, asn1_tag _tag, double *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_real_f64_read(buf, hdr._length, value);
 }
 
 f64_result crefl_asn1_der_real_f64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return f64_result { 0, -1 };
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return f64_result { 0, -1 };
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return f64_result { 0, -1 };
     return crefl_asn1_ber_real_f64_read_byval(buf, hdr._length);
 }
 
@@ -2506,8 +2513,7 @@ err:
 int crefl_asn1_der_oid_read(crefl_buf *buf, asn1_tag _tag, asn1_oid *obj)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_oid_read(buf, hdr._length, obj);
 }
 
@@ -2637,8 +2643,7 @@ int crefl_asn1_ber_octets_write(crefl_buf *buf, size_t len, const asn1_string *o
 int crefl_asn1_der_octets_read(crefl_buf *buf, asn1_tag _tag, asn1_string *obj)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_octets_read(buf, hdr._length, obj);
 }
 
@@ -2678,8 +2683,7 @@ int crefl_asn1_ber_null_write(crefl_buf *buf, size_t len)
 int crefl_asn1_der_null_read(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_null_read(buf, hdr._length);
 }
 
-- 
2.43.0


From 29db74f1005383eb20b734ca4c00bf9522dad0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 12/41] fix: refuse out of range and reserved vf encodings
 instead of asserting or shifting out of range

---
 src/asn1.cc | 68 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 16 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 0a052bb..e5019e0 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1420,20 +1420,29 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
     }
     /* out-of-line little-endian exponent and mantissa */
     else {
+        /* the mantissa is omitted for powers of two but the exponent and
+         * the mantissa cannot both be omitted. exponent must be in range. */
+        if (vr_man == 0) {
+            if (vf_exp == 0) goto err;
+            vr_man = 1;
+        }
+        if (vr_exp > (s64)f64_exp_bias ||
+            vr_exp < -(s64)f64_exp_bias - (s64)f64_mant_size) {
+            goto err;
+        }
         size_t lz = clz(vr_man), tz = ctz(vr_man);
         if (vr_exp <= -(s64)f64_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
-            size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
+            s64 sh = (s64)f64_exp_bias + vr_exp + (s64)lz - (s64)f64_exp_size;
             vp_exp = 0;
-            vp_man = (u64)vr_man << sh;
+            vp_man = sh < 0 ? vr_man >> -sh : vr_man << sh;
         } else {
             /* normal - if no exponent, mantissa is a fraction in the range
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -tz - 1;
             vp_exp = f64_exp_bias + vr_exp;
-            vp_man = (u64)vr_man << (lz + 1) >> (f64_exp_size + 1);
+            vp_man = vr_man << lz << 1 >> (f64_exp_size + 1);
         }
     }
 
@@ -1522,20 +1531,29 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
     }
     /* out-of-line little-endian exponent and mantissa */
     else {
+        /* the mantissa is omitted for powers of two but the exponent and
+         * the mantissa cannot both be omitted. exponent must be in range. */
+        if (vr_man == 0) {
+            if (vf_exp == 0) return f64_result { 0, -1 };
+            vr_man = 1;
+        }
+        if (vr_exp > (s64)f64_exp_bias ||
+            vr_exp < -(s64)f64_exp_bias - (s64)f64_mant_size) {
+            return f64_result { 0, -1 };
+        }
         size_t lz = clz(vr_man), tz = ctz(vr_man);
         if (vr_exp <= -(s64)f64_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
-            size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
+            s64 sh = (s64)f64_exp_bias + vr_exp + (s64)lz - (s64)f64_exp_size;
             vp_exp = 0;
-            vp_man = (u64)vr_man << sh;
+            vp_man = sh < 0 ? vr_man >> -sh : vr_man << sh;
         } else {
             /* normal - if no exponent, mantissa is a fraction in the range
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -tz - 1;
             vp_exp = f64_exp_bias + vr_exp;
-            vp_man = (u64)vr_man << (lz + 1) >> (f64_exp_size + 1);
+            vp_man = vr_man << lz << 1 >> (f64_exp_size + 1);
         }
     }
 
@@ -1892,20 +1910,29 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
     }
     /* out-of-line little-endian exponent and mantissa */
     else {
+        /* the mantissa is omitted for powers of two but the exponent and
+         * the mantissa cannot both be omitted. exponent must be in range. */
+        if (vr_man == 0) {
+            if (vf_exp == 0) goto err;
+            vr_man = 1;
+        }
+        if (vr_exp > (s32)f32_exp_bias ||
+            vr_exp < -(s32)f32_exp_bias - (s32)f32_mant_size) {
+            goto err;
+        }
         size_t lz = clz(vr_man), tz = ctz(vr_man);
         if (vr_exp <= -(s32)f32_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
-            size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
+            s32 sh = (s32)f32_exp_bias + vr_exp + (s32)lz - (s32)f32_exp_size;
             vp_exp = 0;
-            vp_man = (u32)vr_man << sh;
+            vp_man = sh < 0 ? vr_man >> -sh : vr_man << sh;
         } else {
             /* normal - if no exponent, mantissa is a fraction in the range
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -(s32)tz - 1;
             vp_exp = f32_exp_bias + vr_exp;
-            vp_man = (u32)vr_man << (lz + 1) >> (f32_exp_size + 1);
+            vp_man = vr_man << lz << 1 >> (f32_exp_size + 1);
         }
     }
 
@@ -1999,20 +2026,29 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
     }
     /* out-of-line little-endian exponent and mantissa */
     else {
+        /* the mantissa is omitted for powers of two but the exponent and
+         * the mantissa cannot both be omitted. exponent must be in range. */
+        if (vr_man == 0) {
+            if (vf_exp == 0) return f32_result { 0, -1 };
+            vr_man = 1;
+        }
+        if (vr_exp > (s32)f32_exp_bias ||
+            vr_exp < -(s32)f32_exp_bias - (s32)f32_mant_size) {
+            return f32_result { 0, -1 };
+        }
         size_t lz = clz(vr_man), tz = ctz(vr_man);
         if (vr_exp <= -(s32)f32_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
-            size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
+            s32 sh = (s32)f32_exp_bias + vr_exp + (s32)lz - (s32)f32_exp_size;
             vp_exp = 0;
-            vp_man = (u32)vr_man << sh;
+            vp_man = sh < 0 ? vr_man >> -sh : vr_man << sh;
         } else {
             /* normal - if no exponent, mantissa is a fraction in the range
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -(s32)tz - 1;
             vp_exp = f32_exp_bias + vr_exp;
-            vp_man = (u32)vr_man << (lz + 1) >> (f32_exp_size + 1);
+            vp_man = vr_man << lz << 1 >> (f32_exp_size + 1);
         }
     }
 
-- 
2.43.0


From 216b62bf6009af6fba0d2232f263052e2641fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 13/41] fix: keep object identifiers within their component
 array and content length

---
 src/asn1.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index e5019e0..572579c 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2483,11 +2483,13 @@ int crefl_vlu_u64_write_byval(crefl_buf *buf, const u64 value)
 size_t crefl_asn1_ber_oid_length(const asn1_oid *obj)
 {
     size_t length = 0;
-    for (size_t i = 0; i < obj->count; i++) {
+    size_t count = obj->count > asn1_oid_comp_max ?
+        asn1_oid_comp_max : obj->count;
+    for (size_t i = 0; i < count; i++) {
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
          */
-        if (i == 0 && obj->count > 1) {
+        if (i == 0 && count > 1) {
             length = crefl_asn1_ber_tag_length(obj->oid[0] * 40 + obj->oid[1]);
             i++;
         } else {
@@ -2520,6 +2522,7 @@ int crefl_asn1_ber_oid_read(crefl_buf *buf, size_t len, asn1_oid *obj)
         }
         offset = crefl_buf_offset(buf);
     }
+    if (n > limit || offset - start != len) goto err;
     obj->count = n;
     return 0;
 err:
@@ -2529,6 +2532,8 @@ err:
 
 int crefl_asn1_ber_oid_write(crefl_buf *buf, size_t len, const asn1_oid *obj)
 {
+    if (obj->count > asn1_oid_comp_max) goto err;
+
     for (size_t i = 0; i < obj->count; i++) {
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
-- 
2.43.0


From 0d7482192f6a12397d1561ed2fb265cd89e89392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 14/41] fix: split and check the first two object identifier
 components as X.690 requires

---
 src/asn1.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 572579c..f2a53f9 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2510,11 +2510,10 @@ int crefl_asn1_ber_oid_read(crefl_buf *buf, size_t len, asn1_oid *obj)
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
          */
-        if (n == 0 && comp > 40) {
-            if (n < limit) obj->oid[n] = comp/40;
-            n++;
-            if (n < limit) obj->oid[n] = comp%40;
-            n++;
+        if (n == 0) {
+            u64 first = comp < 80 ? comp/40 : 2;
+            obj->oid[n++] = first;
+            obj->oid[n++] = comp - first * 40;
         }
         else {
             if (n < limit) obj->oid[n] = comp;
@@ -2534,6 +2533,13 @@ int crefl_asn1_ber_oid_write(crefl_buf *buf, size_t len, const asn1_oid *obj)
 {
     if (obj->count > asn1_oid_comp_max) goto err;
 
+    /*
+     * 8.19.4 the first component is 0, 1 or 2 and if it is 0 or 1 then
+     * the second component is less than 40
+     */
+    if (obj->count > 1 && (obj->oid[0] > 2 ||
+        obj->oid[1] >= (obj->oid[0] < 2 ? 40 : 1ull << 56))) goto err;
+
     for (size_t i = 0; i < obj->count; i++) {
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
-- 
2.43.0


From 2b84cebadc20a0cb2c1c59f21c579cda77f21870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 15/41] fix: stop formatting object identifiers past the end of
 the caller's buffer

---
 src/asn1.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index f2a53f9..1243334 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2585,9 +2585,10 @@ int crefl_asn1_oid_to_string(char *str, size_t *buflen, const asn1_oid *obj)
     size_t count = obj->count > asn1_oid_comp_max ?
         asn1_oid_comp_max : obj->count;
     for (size_t i = 0; i < count; i ++) {
+        bool room = str && offset < limit;
         int ret = snprintf(
-            (limit ? str + offset : NULL),
-            (limit ? limit - offset : 0),
+            (room ? str + offset : NULL),
+            (room ? limit - offset : 0),
             (i == 0 ? "%lld" : ".%lld"),
             obj->oid[i]
         );
-- 
2.43.0


From e48073194f21e07ecd42fe548b4546f7306e4015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 16/41] fix: accept zero components and refuse trailing dots
 and excess components in object identifier text

---
 src/asn1.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 1243334..040cffc 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2604,22 +2604,22 @@ int crefl_asn1_oid_from_string(asn1_oid *obj, const char *str, size_t buflen)
     size_t last = 0, comp = 0;
     for (size_t i = 0; i <= buflen; i++) {
         if (i != last && ((i < buflen && str[i] == '.') || i == buflen)) {
-            size_t comp_len = i - last + 1;
-            if (comp < asn1_oid_comp_max) {
-                obj->oid[comp] = comp_num;
+            if (comp == asn1_oid_comp_max) {
+                goto err;
             }
+            obj->oid[comp] = comp_num;
             comp++;
             comp_num = 0;
             last = i + 1;
-        } else if (isdigit(str[i])) {
+        } else if (i < buflen && isdigit((u8)str[i])) {
             u64 num = comp_num * 10 + (int)str[i] - '0';
-            if (num > comp_num && num < (1ull << 56)) {
+            if (num < (1ull << 56)) {
                 comp_num = num;
             } else {
                 goto err;
             }
-        } else if (i == buflen) {
-            //
+        } else if (i == buflen && i == 0) {
+            // empty
         } else {
             goto err;
         }
-- 
2.43.0


From 5ba053db617fd98b0997c75c33aea0bbb1686635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 17/41] fix: allocate whole words for the hashmap bitmap so
 small maps stay in bounds

---
 include/crefl/hashmap.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 9cee859..028b351 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -96,7 +96,7 @@ struct hashmap
         used(0), tombs(0), limit(initial_size)
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(limit));
@@ -115,7 +115,7 @@ struct hashmap
         used(o.used), tombs(o.tombs), limit(o.limit)
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -140,7 +140,7 @@ struct hashmap
         limit = o.limit;
 
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -185,6 +185,7 @@ struct hashmap
     enum bitmap_state {
         available = 0, occupied = 1, deleted = 2, recycled = 3
     };
+    static inline size_t bitmap_bytes(size_t n) { return ((n + 31) >> 5) << 3; }
     static inline size_t bitmap_idx(size_t i) { return i >> 5; }
     static inline size_t bitmap_shift(size_t i) { return ((i << 1) & 63); }
     static inline bitmap_state bitmap_get(uint64_t *bitmap, size_t i)
@@ -209,7 +210,7 @@ struct hashmap
                          size_t old_size, size_t new_size)
     {
         size_t data_size = sizeof(data_type) * new_size;
-        size_t bitmap_size = new_size >> 2;
+        size_t bitmap_size = bitmap_bytes(new_size);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(new_size));
@@ -238,7 +239,7 @@ struct hashmap
     void clear()
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
         memset(data, 0, total_size);
         used = tombs = 0;
-- 
2.43.0


From 2b43fff511dd40441d9523757f0254ba2d77ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 18/41] fix: make hashmap begin() the first occupied slot so
 empty maps iterate nothing

---
 include/crefl/hashmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 028b351..62a2b12 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -175,7 +175,7 @@ struct hashmap
     inline size_t hash_index(uint64_t h) { return h & index_mask(); }
     inline size_t key_index(Key key) { return hash_index(_hasher(key)); }
     inline hasher hash_function() const { return _hasher; }
-    inline iterator begin() { return iterator{ this, 0 }; }
+    inline iterator begin() { iterator i{ this, 0 }; i.i = i.step(0); return i; }
     inline iterator end() { return iterator{ this, limit }; }
 
     /*
-- 
2.43.0


From 81f1bfdccd3716607942e145260eecd2955f76f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 19/41] fix: look past deleted hashmap slots for the key before
 reusing one

---
 include/crefl/hashmap.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 62a2b12..e929117 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -250,9 +250,13 @@ struct hashmap
 
     iterator insert(const value_type& v)
     {
+        size_t tomb = limit; /* first deleted slot on the probe path */
         for (size_t i = key_index(v.first); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
-            if ((state & occupied) != occupied) {
+            if (state == deleted) {
+                if (tomb == limit) tomb = i;
+            } else if (state == available) {
+                if (tomb != limit) state = bitmap_get(bitmap, i = tomb);
                 bitmap_set(bitmap, i, occupied);
                 data[i] = data_type{v.first, v.second};
                 used++;
@@ -279,9 +283,13 @@ struct hashmap
 
     Value& operator[](const Key &key)
     {
+        size_t tomb = limit; /* first deleted slot on the probe path */
         for (size_t i = key_index(key); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
-            if ((state & occupied) != occupied) {
+            if (state == deleted) {
+                if (tomb == limit) tomb = i;
+            } else if (state == available) {
+                if (tomb != limit) state = bitmap_get(bitmap, i = tomb);
                 bitmap_set(bitmap, i, occupied);
                 data[i].first = key;
                 used++;
-- 
2.43.0


From 9502d20b0dad9ae65f1cd22480b446158f2c19d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 20/41] fix: make hashmap assignment safe for self-assignment
 and free the old table on move

---
 include/crefl/hashmap.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index e929117..f3c030a 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -129,10 +129,13 @@ struct hashmap
     {
         o.data = nullptr;
         o.bitmap = nullptr;
+        o.used = o.tombs = o.limit = 0;
     }
 
     inline hashmap& operator=(const hashmap &o)
     {
+        if (this == &o) return *this;
+
         free(data);
 
         used = o.used;
@@ -152,6 +155,10 @@ struct hashmap
 
     inline hashmap& operator=(hashmap &&o)
     {
+        if (this == &o) return *this;
+
+        free(data);
+
         data = o.data;
         bitmap = o.bitmap;
         used = o.used;
@@ -160,6 +167,7 @@ struct hashmap
 
         o.data = nullptr;
         o.bitmap = nullptr;
+        o.used = o.tombs = o.limit = 0;
 
         return *this;
     }
-- 
2.43.0


From 12441bd7de354ea8b9c45cfd78de78694d5ce654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 21/41] fix: count no set bits in zero and map C11 popcnt to
 popcnt

---
 include/crefl/bits.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crefl/bits.h b/include/crefl/bits.h
index 7c1d988..a4cf58d 100644
--- a/include/crefl/bits.h
+++ b/include/crefl/bits.h
@@ -47,8 +47,8 @@ static inline unsigned clz_u32(__bits_u32 val) { return val == 0 ? 32 : __builti
 static inline unsigned clz_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_clzll(val); }
 static inline unsigned ctz_u32(__bits_u32 val) { return val == 0 ? 32 : __builtin_ctz(val); }
 static inline unsigned ctz_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_ctzll(val); }
-static inline unsigned popcnt_u32(__bits_u32 val) { return val == 0 ? 32 : __builtin_popcount(val); }
-static inline unsigned popcnt_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_popcountll(val); }
+static inline unsigned popcnt_u32(__bits_u32 val) { return __builtin_popcount(val); }
+static inline unsigned popcnt_u64(__bits_u64 val) { return __builtin_popcountll(val); }
 #define _bits_defined (_clz_defined | _ctz_defined | _popcnt_defined)
 #elif defined (_MSC_VER) && defined (_M_X64)
 static inline unsigned clz_u32(__bits_u32 val) { return (int)_lzcnt_u32(val); }
@@ -158,8 +158,8 @@ static inline unsigned ctz_u64(__bits_u64 v)
 	unsigned int: ctz_u32, signed int: ctz_u32, \
 	unsigned long long: ctz_u64, signed long long: ctz_u64)(X)
 #define popcnt(X) _Generic((X), \
-	unsigned int: ctz_u32, signed int: popcnt_u32, \
-	unsigned long long: ctz_u64, signed long long: popcnt_u64)(X)
+	unsigned int: popcnt_u32, signed int: popcnt_u32, \
+	unsigned long long: popcnt_u64, signed long long: popcnt_u64)(X)
 #endif
 
 /*
-- 
2.43.0


From 269864b663248413ca2d07c1c0e50639da6c0d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 22/41] fix: do not truncate formatted strings of 255 or 256
 characters

---
 include/crefl/util.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index bf74a24..8131e18 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -43,8 +43,8 @@ static std::string string_vprintf(const char* fmt, va_list args)
 
     va_list args2;
     va_copy(args2, args);
-    int len = vsnprintf(&buf[0], buf.size()-1, fmt, args);
-    if ((size_t)len > buf.size()) {
+    int len = vsnprintf(&buf[0], buf.size(), fmt, args);
+    if ((size_t)len >= buf.size()) {
         buf.resize(len+1);
         len = vsnprintf(&buf[0], buf.size(), fmt, args2);
     }
@@ -59,9 +59,9 @@ static std::string string_printf(const char* fmt, ...)
 
     va_list args;
     va_start(args, fmt);
-    int len = vsnprintf(&buf[0], buf.size()-1, fmt, args);
+    int len = vsnprintf(&buf[0], buf.size(), fmt, args);
     va_end(args);
-    if ((size_t)len > buf.size()) {
+    if ((size_t)len >= buf.size()) {
         buf.resize(len+1);
         va_list args;
         va_start(args, fmt);
-- 
2.43.0


From 2362d7aa2349f19ff705c976d996f33d8b91ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 23/41] fix: report failed closes when writing files and close
 the file when fstat fails

---
 include/crefl/util.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index 8131e18..2508ac9 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -97,6 +97,7 @@ static size_t crefl_read_file(std::vector<uint8_t> &buf, const char* filename)
     }
     if (fstat(fileno(f), &statbuf) < 0) {
         fprintf(stderr, "fstat: %s\n", strerror(errno));
+        fclose(f);
         return -1;
     }
     buf.resize(statbuf.st_size);
@@ -114,7 +115,9 @@ static size_t crefl_write_file(std::vector<uint8_t> &buf, const char* filename)
         return -1;
     }
     size_t len = fwrite(buf.data(), 1, buf.size(), f);
-    fclose(f);
+    if (fclose(f) != 0) {
+        return -1;
+    }
 
     return buf.size() == len ? 0 : -1;
 }
-- 
2.43.0


From b46897cc3f8331cc86cccd7c32fe8029fc8d560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 24/41] fix: check that a database image contains the tables
 its header declares

---
 src/db.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/db.cc b/src/db.cc
index 5120ab9..e606c3c 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -75,6 +75,16 @@ int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
         return 0;
     }
 
+    /* check that the input contains the tables and that names terminate */
+    if (input_sz - hdr_sz < decl_sz || input_sz - hdr_sz - decl_sz < name_sz) {
+        fprintf(stderr, "crefl: *** error: input too short\n");
+        return -1;
+    }
+    if (name_sz > 0 && buf[hdr_sz + decl_sz + name_sz - 1] != '\0') {
+        fprintf(stderr, "crefl: *** error: name table not terminated\n");
+        return -1;
+    }
+
     /*
      * for space compactness we elide builtin types from the output.
      * initialize builtin types then check the first element is root.
-- 
2.43.0


From 947eb3717abf1181a6a211f5a0863c667ad15eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 25/41] fix: exit with an error when crefltool cannot read or
 write a database

---
 tool/crefltool.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/tool/crefltool.cc b/tool/crefltool.cc
index 9eef574..d205040 100644
--- a/tool/crefltool.cc
+++ b/tool/crefltool.cc
@@ -27,19 +27,30 @@
 
 #define array_size(arr) ((sizeof(arr)/sizeof(arr[0])))
 
+static void read_db(decl_db *db, const char *input)
+{
+    if (crefl_db_read_file(db, input) != 0) {
+        fprintf(stderr, "error: reading db: %s\n", input);
+        exit(1);
+    }
+}
+
 void do_merge(const char *output, const char **input, size_t n)
 {
     decl_db *db_out = crefl_db_new();
     decl_db **db_in = (decl_db**)malloc(sizeof(decl_db*) * n);
     for (size_t i = 0; i < n; i++) {
         db_in[i] = crefl_db_new();
-        crefl_db_read_file(db_in[i], input[i]);
+        read_db(db_in[i], input[i]);
     }
     if (crefl_link_merge(db_out, output, db_in, n) < 0) {
         fprintf(stderr, "error: merging input files\n");
         exit(1);
     }
-    crefl_db_write_file(db_out, output);
+    if (crefl_db_write_file(db_out, output) != 0) {
+        fprintf(stderr, "error: writing db\n");
+        exit(1);
+    }
     for (size_t i = 0; i < n; i++) {
         crefl_db_destroy(db_in[i]);
     }
@@ -55,7 +66,7 @@ void do_emit(const char *output, const char *input, const char *name)
     const size_t w = 16;
 
     db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    read_db(db, input);
     sz = crefl_db_size(db);
     buf = (uint8_t*)malloc(sz);
     if (crefl_db_write_mem(db, buf, sz) < 0 || !(f = fopen(output, "wb"))) {
@@ -82,7 +93,7 @@ void do_emit(const char *output, const char *input, const char *name)
 void do_dump(crefl_db_dump_fmt fmt, const char *input)
 {
     decl_db *db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    read_db(db, input);
     crefl_db_set_dump_fmt(fmt);
     crefl_db_dump(db);
     crefl_db_destroy(db);
@@ -91,7 +102,7 @@ void do_dump(crefl_db_dump_fmt fmt, const char *input)
 void do_stats(const char *input)
 {
     decl_db *db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    read_db(db, input);
     crefl_db_dump_stats(db);
     crefl_db_destroy(db);
 }
-- 
2.43.0


From 7718195c840c3fc7e651dd5d63804980e9e8effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 26/41] fix: exit with an error when crefltool cannot write the
 emitted source

---
 tool/crefltool.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tool/crefltool.cc b/tool/crefltool.cc
index d205040..4afbb6c 100644
--- a/tool/crefltool.cc
+++ b/tool/crefltool.cc
@@ -84,8 +84,12 @@ void do_emit(const char *output, const char *input, const char *name)
     fprintf(f, "};\n");
     fprintf(f, "const size_t __crefl_%s_size = sizeof(__crefl_%s_data);\n",
         name, name);
-    fflush(f);
-    fclose(f);
+    bool failed = ferror(f);
+    if (fclose(f) != 0 || failed) {
+        free(buf);
+        fprintf(stderr, "error: writing output\n");
+        exit(1);
+    }
     free(buf);
     crefl_db_destroy(db);
 }
-- 
2.43.0


From 03d12c6a0ca9525cf9fdd82b601238e1908973fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 27/41] fix: keep asn1tool within the bounds of each object and
 limit nesting

---
 tool/asn1tool.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 90f6b9b..6e56a07 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -46,20 +46,26 @@ static std::string hex_str(const uint8_t *data, size_t sz)
 
 extern const char* asn1_tag_names[];
 
+static const int max_depth = 15;
+
 static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
 {
     asn1_hdr hdr;
     std::string indent, undent, oid, desc;
     size_t current;
 
+    if (depth > max_depth) goto err;
+
     crefl_buf_seek(buf, offset);
 
     if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) goto err;
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) goto err;
+    if (crefl_buf_offset(buf) > limit ||
+        hdr._length > limit - crefl_buf_offset(buf)) goto err;
 
     indent = std::string(depth, ' ');
     indent += indent;
-    undent = std::string(15-depth, ' ');
+    undent = std::string(max_depth-depth, ' ');
     undent += undent;
 
     printf("[%5zu;%-5llu]%s|-%c%-20s",
@@ -71,12 +77,11 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
     case asn1_tag_set:
     case asn1_tag_sequence:
         printf("\n");
-        do {
-            current = crefl_buf_offset(buf);
-            int ret = read_asn1(buf, current, current + hdr._length, depth+1);
+        limit = crefl_buf_offset(buf) + hdr._length;
+        while ((current = crefl_buf_offset(buf)) < limit) {
+            int ret = read_asn1(buf, current, limit, depth+1);
             if (ret < 0) return ret;
-            offset = crefl_buf_offset(buf);
-        } while (offset < limit);
+        }
         break;
     case asn1_tag_object_identifier:
         current = crefl_buf_offset(buf);
@@ -119,9 +124,12 @@ static void dump_asn1(const char *filename)
     if (crefl_read_file(v, filename) != 0) return;
     crefl_buf *buf = crefl_buf_new(v.size());
     memcpy(buf->data, v.data(), v.size());
-    if (read_asn1(buf, 0, v.size(), 0) < 0) {
-        fprintf(stderr, "error: recurse_asn1 returned an error\n");
-    }
+    do {
+        if (read_asn1(buf, crefl_buf_offset(buf), v.size(), 0) < 0) {
+            fprintf(stderr, "error: recurse_asn1 returned an error\n");
+            break;
+        }
+    } while (crefl_buf_offset(buf) < v.size());
 }
 
 int main(int argc, const char **argv)
-- 
2.43.0


From 67c62f62b3cbb0b5c8d17490c5f4306eb928c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:16 +0000
Subject: [PATCH 28/41] fix: print the last character of object identifiers in
 asn1tool

---
 tool/asn1tool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 6e56a07..e6fcb34 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -23,7 +23,7 @@ static std::string oid_str(const char *data, size_t sz)
 
     len = 0;
     crefl_asn1_oid_to_string(NULL, &len, &obj);
-    s.resize(len+1);
+    s.resize(++len);
     crefl_asn1_oid_to_string(s.data(), &len,  &obj);
     s.resize(len);
 
-- 
2.43.0


From 656e8b386f9b7147cb1a384d4ff89e469bf10dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 29/41] fix: exit with an error when asn1tool cannot read or
 decode its input

---
 tool/asn1tool.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index e6fcb34..9170e24 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -118,18 +118,21 @@ err:
     return -1;
 }
 
-static void dump_asn1(const char *filename)
+static int dump_asn1(const char *filename)
 {
     std::vector<uint8_t> v;
-    if (crefl_read_file(v, filename) != 0) return;
+    if (crefl_read_file(v, filename) != 0) return -1;
     crefl_buf *buf = crefl_buf_new(v.size());
     memcpy(buf->data, v.data(), v.size());
     do {
         if (read_asn1(buf, crefl_buf_offset(buf), v.size(), 0) < 0) {
             fprintf(stderr, "error: recurse_asn1 returned an error\n");
-            break;
+            crefl_buf_destroy(buf);
+            return -1;
         }
     } while (crefl_buf_offset(buf) < v.size());
+    crefl_buf_destroy(buf);
+    return 0;
 }
 
 int main(int argc, const char **argv)
@@ -139,8 +142,7 @@ int main(int argc, const char **argv)
     if (strcmp(argv[1], "--dump") == 0);
     else goto help_exit;
 
-    dump_asn1(argv[2]);
-    exit(0);
+    exit(dump_asn1(argv[2]) < 0 ? 1 : 0);
 
 help_exit:
     fprintf(stderr, "usage: %s [--dump] <filename.refl>\n", argv[0]);
-- 
2.43.0


From 05231cfc8729d46201845ae7a7381f6bd46154f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 30/41] fix: refer to the first attribute of a declaration so
 that all are reachable

---
 src/reflect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 6dc47a5..1a81322 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -228,7 +228,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
                 std::string annotation = cast<AnnotateAttr>(*at).getAnnotation().str();
                 last = create_attribute_string(last, "annotate", annotation.c_str());
             }
-            if (crefl_decl_idx(last)) result = crefl_decl_idx(last);
+            if (!result) result = crefl_decl_idx(last);
         }
         return result;
     }
-- 
2.43.0


From 08216fde273fdcb079c2eae0d396e8d083f79827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 31/41] fix: hash and copy every attribute of a declaration,
 not just the first

---
 src/link.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index 06cc0b0..5b6e8b1 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -120,12 +120,13 @@ static void crefl_hash_node_sum(decl_sum *sum, decl_index *index,
     crefl_hash_absorb(sum, quantity_delimeter);
     crefl_hash_update(sum, &node->_quantity, sizeof(node->_quantity));
 
-    if (node->_attr) {
-        next = crefl_lookup(d.db, node->_attr);
+    next = crefl_lookup(d.db, node->_attr);
+    while (crefl_decl_idx(next)) {
         crefl_hash_absorb(sum, attr_delimeter);
         hash = crefl_node_hash(index, next, d, prefix);
         crefl_hash_absorb(sum, hash_delimeter);
         crefl_hash_update(sum, (const char*)hash->sum, sizeof(decl_hash));
+        next = crefl_decl_next(next);
     }
     if (node->_link) {
         switch (crefl_decl_tag(d)) {
@@ -384,11 +385,15 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
         return r;
     }
 
-    if (node->_attr) {
-        next = crefl_lookup(d.db, node->_attr);
+    next = crefl_lookup(d.db, node->_attr);
+    while (crefl_decl_idx(next)) {
         c = crefl_copy_node(state, next, d);
-        crefl_decl_ptr(r)->_attr = crefl_decl_idx(c);
+        if (crefl_decl_idx(last)) crefl_decl_ptr(last)->_next = crefl_decl_idx(c);
+        else crefl_decl_ptr(r)->_attr = crefl_decl_idx(c);
+        last = c;
+        next = crefl_decl_next(next);
     }
+    last = { db, 0 };
     if (node->_link) {
         switch (crefl_decl_tag(d)) {
         /*
-- 
2.43.0


From ad7c985f49ea7c355ed78975ecb3d8dbab011f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 32/41] fix: copy the hash of a dumped row before the index can
 be reallocated

---
 src/dump.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump.cc b/src/dump.cc
index 9c0e112..1da3f8f 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -218,7 +218,7 @@ crefl_db_row crefl_db_get_row(decl_db *db, decl_ref r)
 {
     decl_id tag = crefl_decl_tag(r);
     decl_entry_ref er = crefl_entry_ref(ld, r);
-    decl_entry *ent = crefl_entry_ptr(er);
+    decl_hash hash = crefl_entry_ptr(er)->hash;
     decl_node *d = crefl_decl_ptr(r);
 
     std::string fqn;
@@ -257,7 +257,7 @@ crefl_db_row crefl_db_get_row(decl_db *db, decl_ref r)
     return crefl_db_row {
         crefl_decl_idx(r), d->_attr, d->_next, d->_link, crefl_tag_name(tag),
         crefl_decl_has_name(r) ? crefl_decl_name(r) : "(anonymous)", props,
-        _link(r), _hex_str(ent->hash.sum, sizeof(ent->hash.sum)), fqn
+        _link(r), _hex_str(hash.sum, sizeof(hash.sum)), fqn
     };
 }
 
-- 
2.43.0


From bc21777777cacc41e27b11fb6f79674612a5f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 33/41] fix: compute the layout of enum, set, typedef,
 qualifier and alias types

---
 src/model.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/model.cc b/src/model.cc
index 9ae3998..39fea63 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -352,6 +352,11 @@ static _alignment _type_pad(decl_ref d)
     case _decl_field: return _field_pad(d);
     case _decl_array: return _array_pad(d);
     case _decl_pointer: return _pointer_pad(d);
+    case _decl_set:
+    case _decl_enum: return _pad_align(crefl_decl_qty(d), 1, _decl_pad_pow2);
+    case _decl_typedef:
+    case _decl_qualifier:
+    case _decl_alias: return _type_pad(crefl_decl_link(d));
     }
     return _alignment { 0 };
 }
-- 
2.43.0


From c87867829d0ccde54eb8b153f7a3ac1ea7f7b163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 34/41] fix: use log2 of the alignment in bits for byte padding
 and the 128-bit limit

---
 src/model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model.cc b/src/model.cc
index 39fea63..336bed4 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -248,12 +248,12 @@ struct _alignment { size_t align; size_t size; };
 
 static _alignment _pad_align(size_t width, size_t count, decl_set props)
 {
-    const intptr_t maxalign = 9; /* 128 bits */
+    const intptr_t maxalign = 7; /* 128 bits */
 
     size_t n;
 
     if ((props & _decl_pad_byte)) {
-        n = 8;
+        n = 3;
     }
     else if ((props & _decl_pad_pow2)) {
         n = 63 - clz(width);
-- 
2.43.0


From ef765825a009dc1a2c0a9ef9c793f39c38384bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 35/41] fix: pad unions to a multiple of their alignment

---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index 336bed4..b90a0f5 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -340,7 +340,7 @@ static _alignment _union_pad(decl_ref d)
         d = crefl_decl_next(d);
     }
 
-    return max;
+    return _alignment { max.align, _align(max.size, max.align) };
 }
 
 static _alignment _type_pad(decl_ref d)
-- 
2.43.0


From 2b846fd2d521aeb17b5b750b8dfac6741de91c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 36/41] fix: define the two by-value integer functions with the
 signatures the header declares

---
 include/crefl/asn1.h | 2 +-
 src/asn1.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/asn1.h b/include/crefl/asn1.h
index 4c806e4..50689e2 100644
--- a/include/crefl/asn1.h
+++ b/include/crefl/asn1.h
@@ -208,7 +208,7 @@ size_t crefl_le_ber_integer_s64_length(const s64 *value);
 int crefl_le_ber_integer_s64_read(crefl_buf *buf, size_t len, s64 *value);
 int crefl_le_ber_integer_s64_write(crefl_buf *buf, size_t len, const s64 *value);
 
-size_t crefl_le_ber_integer_s64_length_byval(const s64 *value);
+size_t crefl_le_ber_integer_s64_length_byval(const s64 value);
 struct s64_result crefl_le_ber_integer_s64_read_byval(crefl_buf *buf, size_t len);
 int crefl_le_ber_integer_s64_write_byval(crefl_buf *buf, size_t len, const s64 value);
 
diff --git a/src/asn1.cc b/src/asn1.cc
index 040cffc..828ab85 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -716,7 +716,7 @@ int crefl_asn1_der_integer_s64_read(crefl_buf *buf, asn1_tag _tag, s64 *value)
     return crefl_asn1_ber_integer_s64_read(buf, hdr._length, value);
 }
 
-s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag, s64 *value)
+s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
     if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return s64_result { 0, -1 };
-- 
2.43.0


From c5d39a6bac278d95719b315ec8f9e8ea49a68e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 37/41] fix: shift the smallest inline float mantissa within
 the width of its type

---
 src/asn1.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 828ab85..f7b4163 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1398,7 +1398,7 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
                  * of the point hence 59 = (63 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f64_exp_bias + 59 - lz;
-                vp_man = ((u64)vf_man << (lz + 1)) >> (f64_exp_size + 1);
+                vp_man = ((u64)vf_man << lz << 1) >> (f64_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1509,7 +1509,7 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
                  * of the point hence 59 = (63 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f64_exp_bias + 59 - lz;
-                vp_man = ((u64)vf_man << (lz + 1)) >> (f64_exp_size + 1);
+                vp_man = ((u64)vf_man << lz << 1) >> (f64_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1888,7 +1888,7 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
                  * of the point hence 27 = (31 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f32_exp_bias + 27 - (u32)lz;
-                vp_man = ((u32)vf_man << (lz + 1)) >> (f32_exp_size + 1);
+                vp_man = ((u32)vf_man << lz << 1) >> (f32_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -2004,7 +2004,7 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
                  * of the point hence 27 = (31 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f32_exp_bias + 27 - (u32)lz;
-                vp_man = ((u32)vf_man << (lz + 1)) >> (f32_exp_size + 1);
+                vp_man = ((u32)vf_man << lz << 1) >> (f32_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
-- 
2.43.0


From d648dce8fb232569bcb41b104d92c2804dbfd29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 38/41] fix: reflect declarations made inside of function
 bodies without crashing

The parent of a declaration in a block is a statement, so the first parent
is not always a declaration; look for the nearest enclosing one.
---
 src/reflect.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 1a81322..d996d08 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -391,10 +391,13 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         idmap[d->Decl::getID()] = crefl_decl_idx(r);
 
         /* find parent id */
-        const auto& parents = context.getParents(*d);
-        decl_ref p = {
-            db, parents.size() > 0 ? idmap[parents[0].get<Decl>()->getID()] : 0
-        };
+        const Decl *pd = nullptr;
+        DynTypedNodeList parents = context.getParents(*d);
+        while (parents.size() > 0 && !(pd = parents[0].get<Decl>())) {
+            /* declared inside of a statement or expression */
+            parents = context.getParents(parents[0]);
+        }
+        decl_ref p = { db, pd ? idmap[pd->getID()] : 0 };
 
         /* pop until parent matches */
         while (stack.size() > 0 && stack.back().decl_idx != p.decl_idx) {
-- 
2.43.0


From eeb3e399278f7521448c3e114ca75d9f58aa82a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 39/41] fix: reflect forward declarations of enumerations,
 which have no integer type

---
 src/reflect.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index d996d08..c3814f0 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -502,12 +502,14 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             d->getNumPositiveBits());
 
         const QualType q = d->getIntegerType();
-        TypeInfo t = context.getTypeInfo(q);
 
         /* create enum */
         decl_ref r = create_named_node(d, _decl_enum);
         crefl_decl_ptr(r)->_attr = create_attributes(d, r);
-        crefl_decl_ptr(r)->_width = t.Width;
+        if (!q.isNull()) {
+            /* forward declarations have no integer type */
+            crefl_decl_ptr(r)->_width = context.getTypeInfo(q).Width;
+        }
 
         stack.push_back(r);
         last = decl_ref { db, 0 };
-- 
2.43.0


From 0a924d250fd60c4d2d1cda5f3b21ce853329077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 40/41] fix: link uses of a type that is defined later to its
 declaration

A pointer to a struct, union or enum that was not yet visited had link zero.
---
 src/reflect.cc | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index c3814f0..b17db2f 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -233,6 +233,21 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return result;
     }
 
+    decl_ref get_tag_type(const TagDecl *d, decl_tag tag)
+    {
+        decl_ref r = { db, idmap[d->getID()] };
+
+        /* used before it is visited, completed by create_named_node */
+        if (!crefl_decl_idx(r)) {
+            r = crefl_decl_new(db, tag);
+            crefl_decl_ptr(r)->_name = crefl_name_new(db,
+                d->NamedDecl::getNameAsString().c_str());
+            idmap[d->getID()] = crefl_decl_idx(r);
+        }
+
+        return r;
+    }
+
     decl_ref get_intrinsic_type(const QualType q)
     {
         decl_ref tr = crefl_intrinsic(db, _decl_void, 0);
@@ -267,17 +282,17 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         else if (_is_enum) {
             const EnumType *et = q->getAs<EnumType>();
             const EnumDecl *ed = et->getDecl();
-            tr = decl_ref { db, idmap[ed->getID()] };
+            tr = get_tag_type(ed, _decl_enum);
         }
         else if (_is_struct) {
             const RecordType *rt = q->getAsStructureType();
             const RecordDecl *rd = rt->getDecl();
-            tr = decl_ref { db, idmap[rd->getID()] };
+            tr = get_tag_type(rd, _decl_struct);
         }
         else if (_is_union) {
             const RecordType *rt = q->getAsUnionType();
             const RecordDecl *rd = rt->getDecl();
-            tr = decl_ref { db, idmap[rd->getID()] };
+            tr = get_tag_type(rd, _decl_union);
         }
         else if (_is_complex) {
             tr = crefl_intrinsic(db, _decl_cfloat, t.Width);
@@ -382,10 +397,13 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
     decl_ref create_named_node(NamedDecl *d, decl_tag tag)
     {
-        /* create node */
-        decl_ref r = crefl_decl_new(db, tag);
-        crefl_decl_ptr(r)->_name = crefl_name_new(db,
-            d->NamedDecl::getNameAsString().c_str());
+        /* create node, unless a use of the type has created it */
+        decl_ref r = { db, idmap[d->Decl::getID()] };
+        if (!crefl_decl_idx(r)) {
+            r = crefl_decl_new(db, tag);
+            crefl_decl_ptr(r)->_name = crefl_name_new(db,
+                d->NamedDecl::getNameAsString().c_str());
+        }
 
         /* record clang -> crefl id */
         idmap[d->Decl::getID()] = crefl_decl_idx(r);
-- 
2.43.0


From cc076b38197f9c9cde92ae614b0c4444678d587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 41/41] fix: exit with an error when the plugin is misused or
 cannot write its output

---
 src/reflect.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index b17db2f..6aa2a82 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -715,7 +715,7 @@ bool ReflectAction::ParseArgs(const CompilerInstance &ci,
         if (argv[i] == "-o") {
             if (++i == argc) {
                 fprintf(stderr, "error: -o requires parameter\n");
-                exit(0);
+                exit(1);
             }
             outputFile = argv[i++];
         } else if (argv[i] == "-debug") {
@@ -724,12 +724,12 @@ bool ReflectAction::ParseArgs(const CompilerInstance &ci,
             ++i; dump = true;
         } else {
             fprintf(stderr, "error: unknown option: %s\n", argv[i].c_str());
-            exit(0);
+            exit(1);
         }
     }
     if (!dump && !debug && !outputFile.size()) {
         fprintf(stderr, "error: missing args: -dump, -debug, -o <outputFile>\n");
-        exit(0);
+        exit(1);
     }
     return true;
 }
@@ -755,7 +755,10 @@ void ReflectAction::EndSourceFileAction()
         crefl_db_dump(db);
     }
     if (outputFile.size()) {
-        crefl_db_write_file(db, outputFile.c_str());
+        if (crefl_db_write_file(db, outputFile.c_str()) != 0) {
+            fprintf(stderr, "error: cannot write: %s\n", outputFile.c_str());
+            exit(1);
+        }
     }
     crefl_db_destroy(db);
 
-- 
2.43.0


From 467adac21ce529f441701708715c259b2294ca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:12 +0000
Subject: [PATCH 01/52] fix: keep the escape state when a buffer ends right
 after a backslash

---
 include/json_struct/json_struct.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9bcf75c..9ab642d 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -445,6 +445,13 @@ inline size_t findStringEndSIMD(const char *JSON_STRUCT_RESTRICT data, size_t le
   const char *current = data;
   const char *end = data + length;
 
+  // The character after a backslash that ended the previous buffer is never special.
+  if (JSON_STRUCT_UNLIKELY(is_escaped && current < end))
+  {
+    is_escaped = false;
+    current++;
+  }
+
   const __m128i quote = _mm_set1_epi8('"');
   const __m128i backslash = _mm_set1_epi8('\\');
 
@@ -534,6 +541,13 @@ inline size_t findStringEndNEON(const char *JSON_STRUCT_RESTRICT data, size_t le
   const char *current = data;
   const char *end = data + length;
 
+  // The character after a backslash that ended the previous buffer is never special.
+  if (JSON_STRUCT_UNLIKELY(is_escaped && current < end))
+  {
+    is_escaped = false;
+    current++;
+  }
+
   const uint8x16_t quote = vdupq_n_u8('"');
   const uint8x16_t backslash = vdupq_n_u8('\\');
 
@@ -1140,6 +1154,13 @@ inline size_t findStringEndAVX2(const char *JSON_STRUCT_RESTRICT data, size_t le
   const char *current = data;
   const char *end = data + length;
 
+  // The character after a backslash that ended the previous buffer is never special.
+  if (JSON_STRUCT_UNLIKELY(is_escaped && current < end))
+  {
+    is_escaped = false;
+    current++;
+  }
+
   const __m256i quote = _mm256_set1_epi8('"');
   const __m256i backslash = _mm256_set1_epi8('\\');
 
-- 
2.43.0


From 5c921f147989744a7226297ca1d5f93e0209449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:52 +0000
Subject: [PATCH 02/52] fix: keep the member name when a buffer ends right
 after it or its delimiter

---
 include/json_struct/json_struct.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9ab642d..76f5fca 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2720,6 +2720,8 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       }
 
       tmp_token.name_type = Internal::getType(type, tmp_token.name.data, tmp_token.name.size);
+      if (intermediate_token.active)
+        intermediate_token.name_type = tmp_token.name_type;
       token_state = InTokenState::FindingDelimiter;
       resetForNewValue();
       break;
@@ -2736,6 +2738,12 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
         }
         return error;
       }
+      if (intermediate_token.active)
+      {
+        // the name was found in a previous buffer
+        tmp_token.name = DataRef(intermediate_token.name);
+        tmp_token.name_type = intermediate_token.name_type;
+      }
       cursor_index += diff;
       resetForNewValue();
       expecting_prop_or_anonymous_data = false;
@@ -2825,6 +2833,14 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       break;
     }
   }
+  if (!intermediate_token.active &&
+      (token_state == InTokenState::FindingDelimiter || token_state == InTokenState::FindingData))
+  {
+    // The buffer ended right after the name or its delimiter, the name has to outlive the buffer
+    intermediate_token.name.append(tmp_token.name.data, tmp_token.name.size);
+    intermediate_token.name_type = tmp_token.name_type;
+    intermediate_token.active = true;
+  }
   return Error::NeedMoreData;
 }
 
-- 
2.43.0


From fbe048721ecf277d105d91908523a4ff627fcadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:30 +0000
Subject: [PATCH 03/52] fix: resume a comment that crosses the end of a buffer

---
 include/json_struct/json_struct.h | 65 +++++++++++++++++++++++++++++--
 1 file changed, 61 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 76f5fca..ba1d718 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1425,6 +1425,13 @@ private:
     FoundEnd
   };
 
+  enum class InCommentState : unsigned char
+  {
+    NoComment,
+    FirstSlash,
+    Body
+  };
+
   void resetForNewToken();
   void resetForNewValue();
   Error findStringEnd(const DataRef &json_data, size_t *chars_ahead);
@@ -1434,6 +1441,7 @@ private:
   Error findDelimiter(const DataRef &json_data, size_t *chars_ahead);
   Error findTokenEnd(const DataRef &json_data, size_t *chars_ahead);
   Error skipComment(const DataRef &json_data, size_t *chars_ahead);
+  Error continueComment(const DataRef &json_data);
   void requestMoreData();
   void releaseFirstDataRef();
   Error populateFromDataRef(DataRef &data, Type &type, const DataRef &json_data);
@@ -1442,6 +1450,7 @@ private:
 
   InTokenState token_state = InTokenState::FindingName;
   InPropertyState property_state = InPropertyState::NoStartFound;
+  InCommentState comment_state = InCommentState::NoComment;
   Type property_type = Type::Error;
   bool is_escaped;
   bool allow_ascii_properties : 1;
@@ -1931,6 +1940,7 @@ inline void Tokenizer::setErrorContextConfig(size_t lineContext, size_t rangeCon
 JSON_STRUCT_FORCE_INLINE void Tokenizer::resetForNewToken()
 {
   intermediate_token.clear();
+  comment_state = InCommentState::NoComment;
   resetForNewValue();
 }
 
@@ -2219,8 +2229,12 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
     const char c = json_data.data[current_pos];
     unsigned char lc = Internal::lookup()[(unsigned char)c];
 
-    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && current_pos + 1 < json_data.size &&
-                             json_data.data[current_pos + 1] == '/'))
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && current_pos + 1 == json_data.size))
+    {
+      comment_state = InCommentState::FirstSlash;
+      return Error::NeedMoreData;
+    }
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && json_data.data[current_pos + 1] == '/'))
     {
       cursor_index = current_pos + 2;
       size_t comment_skip;
@@ -2318,7 +2332,12 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findDelimiter(const DataRef &json_data
   {
     const char c = json_data.data[end];
 
-    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 < json_data.size && json_data.data[end + 1] == '/'))
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 == json_data.size))
+    {
+      comment_state = InCommentState::FirstSlash;
+      return Error::NeedMoreData;
+    }
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && json_data.data[end + 1] == '/'))
     {
       cursor_index = end + 2;
       size_t comment_skip;
@@ -2400,7 +2419,12 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findTokenEnd(const DataRef &json_data,
   {
     const char c = json_data.data[end];
 
-    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 < json_data.size && json_data.data[end + 1] == '/'))
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 == json_data.size))
+    {
+      comment_state = InCommentState::FirstSlash;
+      return Error::NeedMoreData;
+    }
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && json_data.data[end + 1] == '/'))
     {
       cursor_index = end + 2;
       size_t comment_skip;
@@ -2489,9 +2513,35 @@ inline Error Tokenizer::skipComment(const DataRef &json_data, size_t *chars_ahea
     }
     return Error::NoError;
   }
+  comment_state = InCommentState::Body;
   return Error::NeedMoreData;
 }
 
+// Resumes a comment that started in a previous buffer
+inline Error Tokenizer::continueComment(const DataRef &json_data)
+{
+  if (comment_state == InCommentState::FirstSlash)
+  {
+    if (json_data.data[cursor_index] != '/')
+    {
+      comment_state = InCommentState::NoComment;
+      if (token_state == InTokenState::FindingDelimiter)
+        return Error::ExpectedDelimiter;
+      if (token_state == InTokenState::FindingTokenEnd)
+        return Error::InvalidToken;
+      return Error::EncounteredIllegalChar;
+    }
+    cursor_index++;
+  }
+  size_t comment_skip = 0;
+  Error error = skipComment(json_data, &comment_skip);
+  if (error != Error::NoError)
+    return error;
+  comment_state = InCommentState::NoComment;
+  cursor_index += comment_skip;
+  return Error::NoError;
+}
+
 inline void Tokenizer::requestMoreData()
 {
   if (need_more_data_callback)
@@ -2658,6 +2708,13 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
     DataRef data;
     Type type;
     Error error;
+    if (JSON_STRUCT_UNLIKELY(comment_state != InCommentState::NoComment))
+    {
+      error = continueComment(json_data);
+      if (error != Error::NoError)
+        return error;
+      continue;
+    }
     switch (token_state)
     {
     case InTokenState::FindingName:
-- 
2.43.0


From 1e6038e65bfdeb12b4ae29af6dba3fdc325a3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:36 +0000
Subject: [PATCH 04/52] fix: report stray characters in front of a value
 instead of dropping them

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ba1d718..7c6637a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2289,7 +2289,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
       *chars_ahead = current_pos - cursor_index;
       return Error::NoError;
     }
-    else if (JSON_STRUCT_UNLIKELY(lc == 0))
+    else if (JSON_STRUCT_UNLIKELY(!(lc & Internal::WhiteSpaceOrNull)))
     {
       *chars_ahead = current_pos - cursor_index;
       return Error::EncounteredIllegalChar;
-- 
2.43.0


From e8b7eab4d2f8f83c2ac51b6baefb21c9228e38cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:36 +0000
Subject: [PATCH 05/52] fix: a member without a value is an error

---
 include/json_struct/json_struct.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 7c6637a..8d4c481 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2863,6 +2863,9 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
         type = intermediate_token.data_type;
       }
 
+      if (type == Type::ObjectEnd || type == Type::ArrayEnd)
+        return Error::ExpectedDataToken;
+
       tmp_token.value = data;
       tmp_token.value_type = Internal::getType(type, tmp_token.value.data, tmp_token.value.size);
 
-- 
2.43.0


From f1c952f1e470af18990037fb157e31e746868a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:36 +0000
Subject: [PATCH 06/52] fix: unquoted array elements are illegal unless ascii
 is allowed

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 8d4c481..732a9f9 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2806,6 +2806,8 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       expecting_prop_or_anonymous_data = false;
       if (token_state == InTokenState::FindingName)
       {
+        if (tmp_token.name_type == Type::Ascii && !allow_ascii_properties)
+          return Error::IllegalDataValue;
         populate_anonymous_token(tmp_token.name, tmp_token.name_type, next_token);
         return Error::NoError;
       }
-- 
2.43.0


From 65ef3ecb6a0c7243fb7cbf43e11367555472ddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:36 +0000
Subject: [PATCH 07/52] fix: an object member without a name is an error

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 732a9f9..b7c28e8 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2763,6 +2763,8 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
 
         case Type::ObjectStart:
         case Type::ArrayStart:
+          if (!container_stack.empty() && container_stack.back() == Type::ObjectStart)
+            return Error::ExpectedPropertyName;
           populate_anonymous_token(data, type, next_token);
           expecting_prop_or_anonymous_data = false;
           token_state = InTokenState::FindingName;
-- 
2.43.0


From 2aed0a6f03d931f4d841b97a2cba9b2304278f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:25 +0000
Subject: [PATCH 08/52] fix: leading zeros and digits beyond the significand
 keep their weight when parsing numbers

---
 include/json_struct/json_struct.h | 75 +++++++++++++++++++------------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b7c28e8..3d17464 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8004,8 +8004,10 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
 {
   const char *current;
   set_end_ptr<T> setendptr(parsedString, current);
-  int desimal_position = -1;
+  bool found_decimal_point = false;
+  bool found_digit = false;
   bool increase_significand = true;
+  int digits_exp = 0;
 
   parsedString.negative = false;
   parsedString.inf = 0;
@@ -8033,43 +8035,61 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
 
     if (c == '.')
     {
-      if (desimal_position >= 0)
+      if (found_decimal_point)
         return parse_string_error::multiple_commas;
-      desimal_position = parsedString.significand_digit_count;
+      found_decimal_point = true;
     }
     else
     {
-      bool keep_digit = NoDigitCount;
-      if (!keep_digit)
-        keep_digit = parsedString.significand_digit_count < 19;
-      if (keep_digit)
+      const T max_significand = T(~T(0));
+      const T digit = T(int(c) - '0');
+      found_digit = true;
+      if (parsedString.significand == 0 && digit == 0)
       {
-        parsedString.significand = parsedString.significand * T(10) + T(int(c) - '0');
-        parsedString.significand_digit_count++;
+        // leading zeros are not significant
+        if (found_decimal_point)
+          digits_exp--;
       }
-      else if (increase_significand && parsedString.significand_digit_count < 20)
+      else
       {
-        increase_significand = false;
-        uint64_t digit = uint64_t(c) - '0';
-        static_assert(NoDigitCount || std::is_same<T, uint64_t>::value,
-                      "When NoDigitCount is used the significand type has to be uint64_t");
-        auto biggest_multiplier = (std::numeric_limits<uint64_t>::max() - digit) / parsedString.significand;
+        bool keep_digit = increase_significand;
+        if (keep_digit && !NoDigitCount && parsedString.significand_digit_count >= 19)
+          increase_significand = false;
+        if (keep_digit && parsedString.significand > (max_significand - digit) / T(10))
+        {
+          increase_significand = false;
+          if (NoDigitCount && parsedString.significand == max_significand / T(10))
+            parsedString.significand = max_significand;
+          else
+            keep_digit = false;
+        }
+        else if (keep_digit)
+        {
+          parsedString.significand = parsedString.significand * T(10) + digit;
+        }
 
-        if (biggest_multiplier >= 10)
+        if (keep_digit)
         {
-          parsedString.significand = parsedString.significand * uint64_t(10) + digit;
           parsedString.significand_digit_count++;
+          if (found_decimal_point)
+            digits_exp--;
+        }
+        else if (!found_decimal_point)
+        {
+          // the digit is dropped, but it still contributes to the magnitude
+          digits_exp++;
         }
       }
     }
     current++;
   }
+  if (!found_digit)
+  {
+    return parse_string_error::invalid_format;
+  }
   if (current == number_end || (*current != 'e' && *current != 'E'))
   {
-    if (desimal_position >= 0)
-      parsedString.exp = desimal_position - parsedString.significand_digit_count;
-    else
-      parsedString.exp = 0;
+    parsedString.exp = digits_exp;
     return parse_string_error::ok;
   }
   current++;
@@ -8110,10 +8130,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
   if (exponent_nagative)
     exponent = -exponent;
 
-  if (desimal_position >= 0)
-    parsedString.exp = desimal_position - parsedString.significand_digit_count + exponent;
-  else
-    parsedString.exp = exponent;
+  parsedString.exp = digits_exp + exponent;
   return parse_string_error::ok;
 }
 
@@ -8145,6 +8162,10 @@ inline uint64_t getPow10(uint32_t pow)
 template <typename T, typename SignificandType>
 inline T convertToNumber(const parsed_string<SignificandType> &parsed)
 {
+  if (parsed.significand == 0)
+  {
+    return make_zero<T>(parsed.negative);
+  }
   int base10exponent = parsed.exp + parsed.significand_digit_count - 1;
   if (base10exponent > float_info<T>::max_base10_exponent())
   {
@@ -8154,10 +8175,6 @@ inline T convertToNumber(const parsed_string<SignificandType> &parsed)
   {
     return make_zero<T>(parsed.negative);
   }
-  if (parsed.significand == 0)
-  {
-    return make_zero<T>(parsed.negative);
-  }
 
 #if 1
   if (parsed.significand < ((uint64_t(1) << 53)) && iabs<int>(parsed.exp) < count_chars((uint64_t(1) << 53)))
-- 
2.43.0


From 5ad1210fdd438584c00be5f0e7e62334c184c1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:18 +0000
Subject: [PATCH 09/52] fix: round numbers with more digits than the
 significand holds to the nearest value

---
 include/json_struct/json_struct.h | 159 ++++++++++++++++++++++--------
 1 file changed, 120 insertions(+), 39 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 3d17464..bc12cd9 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6231,6 +6231,7 @@ template <typename T>
 struct parsed_string : float_base10<T>
 {
   const char *endptr;
+  bool significand_truncated;
 };
 
 enum class parse_string_error
@@ -8014,6 +8015,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
   parsedString.nan = 0;
   parsedString.significand_digit_count = 0;
   parsedString.significand = 0;
+  parsedString.significand_truncated = false;
   parsedString.exp = 0;
 
   const char *number_end = number + size;
@@ -8074,10 +8076,13 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
           if (found_decimal_point)
             digits_exp--;
         }
-        else if (!found_decimal_point)
+        else
         {
+          if (digit != 0)
+            parsedString.significand_truncated = true;
           // the digit is dropped, but it still contributes to the magnitude
-          digits_exp++;
+          if (!found_decimal_point)
+            digits_exp++;
         }
       }
     }
@@ -8489,7 +8494,23 @@ inline void float_to_int_pow2(float g, big_uint_cmp &m, int &e2)
   e2 = ce ? int(ce) - 150 : -149;
 }
 
-inline void float_pair_midpoint(float g1, float g2, big_uint_cmp &mid_int, int &mid_pow2)
+inline void float_to_int_pow2(double g, big_uint_cmp &m, int &e2)
+{
+  uint64_t b;
+  memcpy(&b, &g, sizeof(b));
+  int ce = int((b >> 52) & 0x7ff);
+  uint64_t mant = b & ((uint64_t(1) << 52) - 1);
+  if (ce)
+    mant |= uint64_t(1) << 52;
+  m = big_uint_cmp();
+  m.w[0] = uint32_t(mant);
+  m.w.push_back(uint32_t(mant >> 32));
+  e2 = ce ? ce - 1075 : -1074;
+}
+
+// Infinity is treated as the power of two following the largest finite value.
+template <typename T>
+inline void float_pair_midpoint(T g1, T g2, big_uint_cmp &mid_int, int &mid_pow2)
 {
   big_uint_cmp m1, m2;
   int e1, e2;
@@ -8520,6 +8541,13 @@ inline bool float_mantissa_is_even(float g)
   return (b & 1) == 0;
 }
 
+inline bool float_mantissa_is_even(double g)
+{
+  uint64_t b;
+  memcpy(&b, &g, sizeof(b));
+  return (b & 1) == 0;
+}
+
 // Clang builds compiled with -ffast-math (see the zero-value-test-fp-fast test
 // target) enable -Wnan-infinity-disabled and reject the isnan/isinf/infinity()
 // uses below. Those checks are intentional: json_struct keeps detecting and
@@ -8536,34 +8564,22 @@ inline bool float_mantissa_is_even(float g)
 #define JS_FP_NONFINITE_DIAG_POP
 #endif
 
-inline float correctly_round_float(const char *str, size_t size, double d, float f)
+// Reads all the digits of a number. value == digits * 10^decimal_exp
+inline void parse_big_digits(const char *str, size_t size, big_uint_cmp &digits, int &decimal_exp)
 {
-  if (f != f || f == 0.0f)
-    return f;
-  float af = f < 0.0f ? -f : f;
-  JS_FP_NONFINITE_DIAG_PUSH
-  if (!std::isfinite(af))
-    return f;
-  double ad = d < 0.0 ? -d : d;
-  float up = std::nextafter(af, std::numeric_limits<float>::infinity());
-  float dn = std::nextafter(af, 0.0f);
-  bool have_up = up > af && std::isfinite(up);
-  double ulp_d = std::nextafter(ad, std::numeric_limits<double>::infinity()) - ad;
-  JS_FP_NONFINITE_DIAG_POP
-  bool near_hi = have_up && std::fabs(ad - 0.5 * (double(af) + double(up))) <= 4.0 * ulp_d;
-  bool near_lo = std::fabs(ad - 0.5 * (double(dn) + double(af))) <= 4.0 * ulp_d;
-  if (!near_hi && !near_lo)
-    return f;
-
+  // No midpoint between two doubles has more significant digits than this. Digits
+  // after these only matter by being different from zero.
+  const int max_digits = 1100;
   const char *p = str;
   const char *end = str + size;
   while (p < end && is_space(*p))
     p++;
   if (p < end && (*p == '-' || *p == '+'))
     p++;
-  big_uint_cmp digits;
-  int fracdigits = 0;
+  int digit_count = 0;
   bool seen_dot = false;
+  bool dropped_non_zero = false;
+  decimal_exp = 0;
   for (; p < end; ++p)
   {
     char c = *p;
@@ -8576,12 +8592,27 @@ inline float correctly_round_float(const char *str, size_t size, double d, float
     }
     if (c < '0' || c > '9')
       break;
+    if (digit_count == max_digits)
+    {
+      if (c != '0')
+        dropped_non_zero = true;
+      if (!seen_dot)
+        decimal_exp++;
+      continue;
+    }
+    if (digit_count || c != '0')
+      digit_count++;
     digits.mul_small(10);
     digits.add_small(uint32_t(c - '0'));
     if (seen_dot)
-      fracdigits++;
+      decimal_exp--;
+  }
+  if (dropped_non_zero)
+  {
+    digits.mul_small(10);
+    digits.add_small(1);
+    decimal_exp--;
   }
-  int decimal_exp = -fracdigits;
   if (p < end && (*p == 'e' || *p == 'E'))
   {
     p++;
@@ -8594,38 +8625,84 @@ inline float correctly_round_float(const char *str, size_t size, double d, float
     int ex = 0;
     while (p < end && *p >= '0' && *p <= '9')
     {
-      ex = ex * 10 + (*p - '0');
+      if (ex < 100000000)
+        ex = ex * 10 + (*p - '0');
       p++;
     }
     decimal_exp += en ? -ex : ex;
   }
+}
+
+// Moves the magnitude mag to the neighbour up or dn if the decimal number in str is closer to it.
+template <typename T>
+inline T round_to_nearest(const char *str, size_t size, T mag, T up, bool check_up, T dn, bool check_dn)
+{
+  big_uint_cmp digits;
+  int decimal_exp;
+  parse_big_digits(str, size, digits, decimal_exp);
 
-  float mag = af;
-  if (near_hi)
+  if (check_up)
   {
     big_uint_cmp mid;
     int e2;
-    float_pair_midpoint(af, up, mid, e2);
+    float_pair_midpoint(mag, up, mid, e2);
     int c = compare_value_scaled(digits, decimal_exp, mid, e2);
-    if (c > 0)
-      mag = up;
-    else if (c == 0)
-      mag = float_mantissa_is_even(af) ? af : up;
+    if (c > 0 || (c == 0 && !float_mantissa_is_even(mag)))
+      return up;
   }
-  if (mag == af && near_lo)
+  if (check_dn)
   {
     big_uint_cmp mid;
     int e2;
-    float_pair_midpoint(dn, af, mid, e2);
+    float_pair_midpoint(dn, mag, mid, e2);
     int c = compare_value_scaled(digits, decimal_exp, mid, e2);
-    if (c < 0)
-      mag = dn;
-    else if (c == 0)
-      mag = float_mantissa_is_even(dn) ? dn : af;
+    if (c < 0 || (c == 0 && float_mantissa_is_even(dn)))
+      return dn;
   }
+  return mag;
+}
+
+inline float correctly_round_float(const char *str, size_t size, double d, float f)
+{
+  if (f != f || d == 0.0)
+    return f;
+  float af = std::fabs(f);
+  JS_FP_NONFINITE_DIAG_PUSH
+  if (!std::isfinite(d))
+    return f;
+  if (!std::isfinite(af))
+    af = (std::numeric_limits<float>::max)();
+  double ad = d < 0.0 ? -d : d;
+  float up = std::nextafter(af, std::numeric_limits<float>::infinity());
+  float dn = std::nextafter(af, 0.0f);
+  double up_d = std::isfinite(up) ? double(up) : 340282366920938463463374607431768211456.0; // 2^128
+  double ulp_d = std::nextafter(ad, std::numeric_limits<double>::infinity()) - ad;
+  JS_FP_NONFINITE_DIAG_POP
+  bool near_hi = std::fabs(ad - 0.5 * (double(af) + up_d)) <= 4.0 * ulp_d;
+  bool near_lo = af > 0.0f && std::fabs(ad - 0.5 * (double(dn) + double(af))) <= 4.0 * ulp_d;
+  if (!near_hi && !near_lo)
+    return f;
+
+  float mag = round_to_nearest(str, size, af, up, near_hi, dn, near_lo);
   return std::signbit(f) ? -mag : mag;
 }
 
+// d is the conversion of the leading digits only, so it can be on the wrong side of a rounding boundary.
+inline double correctly_round_double(const char *str, size_t size, double d)
+{
+  if (d != d)
+    return d;
+  double ad = std::fabs(d);
+  JS_FP_NONFINITE_DIAG_PUSH
+  if (!std::isfinite(ad))
+    ad = (std::numeric_limits<double>::max)();
+  double up = std::nextafter(ad, std::numeric_limits<double>::infinity());
+  JS_FP_NONFINITE_DIAG_POP
+  double dn = std::nextafter(ad, 0.0);
+  double mag = round_to_nearest(str, size, ad, up, true, dn, ad > 0.0);
+  return std::signbit(d) ? -mag : mag;
+}
+
 template <typename T>
 inline parse_string_error to_ieee_t(const char *str, size_t size, T &target, const char *(&endptr))
 {
@@ -8639,6 +8716,10 @@ inline parse_string_error to_ieee_t(const char *str, size_t size, T &target, con
   else
   {
     target = convertToNumber<T>(ps);
+    int base10exponent = ps.exp + ps.significand_digit_count - 1;
+    if (ps.significand_truncated && base10exponent <= float_info<T>::max_base10_exponent() &&
+        base10exponent >= float_info<T>::min_base10_exponent())
+      target = correctly_round_double(str, size, target);
   }
   return parseResult;
 }
-- 
2.43.0


From 85d2ab39b966b05c2e2f01ff74fe532a04410f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:46 +0000
Subject: [PATCH 10/52] fix: print the shortest digits that read back as the
 same number

The interval bounds were rounded, and whether they belonged to the
interval was ignored while digits were removed, so numbers like 6.977f
printed as 6.9770002 and 2^-140 printed digits that read back as
another float.
---
 include/json_struct/json_struct.h | 98 ++++++++++++++-----------------
 1 file changed, 43 insertions(+), 55 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index bc12cd9..abb5b16 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6540,7 +6540,7 @@ struct float_info<float>
   }
   static inline constexpr int max_double_5_pow_q() noexcept
   {
-    return 10;
+    return 11;
   } // floor(log_5(1 << (mentissawidth + 2)))
   static inline constexpr int max_double_2_pow_q() noexcept
   {
@@ -7541,43 +7541,32 @@ inline void compute_shortest(uint64_t a, uint64_t b, uint64_t c, bool accept_sma
   if (!accept_larger)
     c -= 1;
 
-  bool all_a_zero = true;
+  // a is only part of the interval when it is exactly the lower bound, and the bound is accepted
+  bool all_a_zero = accept_smaller;
+  // all the removed digits of b, except for the last one, are zero
   bool all_b_zero = true;
-  uint64_t a_next = a / 10;
-  uint32_t a_remainder = a % 10;
-  uint64_t b_next = b / 10;
-  uint32_t b_remainder = b % 10;
-  uint64_t c_next = c / 10;
-  while (a_next < c_next)
-  {
-    a_remainder = a % 10;
+  uint32_t b_remainder = 0;
+  while (a / 10 < c / 10)
+  {
+    all_a_zero &= a % 10 == 0;
+    all_b_zero &= b_remainder == 0;
     b_remainder = b % 10;
 
-    all_b_zero &= bool(!b_remainder);
-    all_a_zero &= bool(!a_remainder);
-
-    a = a_next;
-    b = b_next;
-    c = c_next;
-    a_next = a / 10;
-    b_next = b / 10;
-    c_next = c / 10;
+    a /= 10;
+    b /= 10;
+    c /= 10;
     i++;
   }
-  if (accept_smaller && all_a_zero && a % 10 == 0)
+  if (all_a_zero)
   {
-    while (!(a_next % 10))
+    while (a && a % 10 == 0)
     {
+      all_b_zero &= b_remainder == 0;
       b_remainder = b % 10;
 
-      all_b_zero &= bool(!b_remainder);
-
-      a = a_next;
-      b = b_next;
-      c = c_next;
-      a_next = a / 10;
-      b_next = b / 10;
-      c_next = c / 10;
+      a /= 10;
+      b /= 10;
+      c /= 10;
       i++;
     }
   }
@@ -7748,19 +7737,12 @@ static float_base10<SignificandType> decode(T f)
     q = max(0, int(exp * log_10_2) - 1);
     int k = cache_values<T>::b0 + int(q * log_2_5);
     shift_right = -exp + q + k;
-    if (q - 1 <= float_info<T>::max_double_5_pow_q())
+    if (q <= float_info<T>::max_double_5_pow_q())
     {
-      uint64_t mod = pow_int(5, q - 1);
-      if (mod)
-      {
-        zero[1] = (mentissa % mod) == 0;
-      }
-      if (q <= float_info<T>::max_double_5_pow_q())
-      {
-        mod = pow_int(5, q);
-        zero[0] = (u % mod) == 0;
-        zero[2] = (w % mod) == 0;
-      }
+      uint64_t mod = pow_int(5, q);
+      zero[0] = (u % mod) == 0;
+      zero[1] = (mentissa % mod) == 0;
+      zero[2] = (w % mod) == 0;
     }
   }
   else
@@ -7768,24 +7750,30 @@ static float_base10<SignificandType> decode(T f)
     q = max(0, int(-exp * log_10_5) - 1);
     int k = int(std::ceil((double(-exp) - double(q)) * log_2_5)) - cache_values<T>::b1;
     shift_right = q - k;
-    if (q && q - 1 <= float_info<T>::max_double_2_pow_q())
+    if (q <= float_info<T>::max_double_2_pow_q())
     {
-      uint64_t mod = uint64_t(1) << int(q - 1);
+      uint64_t mod = uint64_t(1) << q;
+      zero[0] = (u & (mod - 1)) == 0;
       zero[1] = (mentissa & (mod - 1)) == 0;
-
-      if (q <= float_info<T>::max_double_2_pow_q())
-      {
-        mod <<= 1;
-        if (mod)
-        {
-          zero[0] = (u & (mod - 1)) == 0;
-          zero[2] = (w & (mod - 1)) == 0;
-        }
-      }
+      zero[2] = (w & (mod - 1)) == 0;
     }
   }
-  auto cache_value = exp >= 0 ? cache_values<T>::greater_than_equals(q) : cache_values<T>::less_than(-exp - q);
-  uint64_t a = multiply_and_shift<T>(u, cache_value, shift_right, true);
+  // The inverse powers are rounded down. Round them up, so that products that are whole numbers stay whole
+  uint64_t inverse[2] = {};
+  const uint64_t *cache_value;
+  if (exp >= 0)
+  {
+    const uint64_t *rounded_down = cache_values<T>::greater_than_equals(q);
+    inverse[0] = rounded_down[0] + 1;
+    if (sizeof(T) == sizeof(uint64_t))
+      inverse[1] = rounded_down[1];
+    cache_value = inverse;
+  }
+  else
+  {
+    cache_value = cache_values<T>::less_than(-exp - q);
+  }
+  uint64_t a = multiply_and_shift<T>(u, cache_value, shift_right, false);
   uint64_t b = multiply_and_shift<T>(mentissa, cache_value, shift_right, false);
   uint64_t c = multiply_and_shift<T>(w, cache_value, shift_right, false);
 
-- 
2.43.0


From 021462c632833b02f253cd58d3d90cccdfa94006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:12 +0000
Subject: [PATCH 11/52] fix: escape all control characters in serialized
 strings

Only \b, \t, \n, \f and \r were escaped, the other characters below
0x20 were written as they are, which is not valid JSON.
---
 include/json_struct/json_struct.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index abb5b16..d860157 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6078,7 +6078,7 @@ static void handle_json_escapes_in(const DataRef &ref, std::string &to_type)
 }
 
 // Returns the offset of the first character in [data, data+len) that needs
-// JSON string escaping (byte <= 0x0d, '"', or '\\'), or len if none. The clean
+// JSON string escaping (byte <= 0x1f, '"', or '\\'), or len if none. The clean
 // (no-escape) run is by far the common case, so scan it with SIMD when possible.
 static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUCT_RESTRICT data, size_t len)
 {
@@ -6087,7 +6087,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m256i vquote = _mm256_set1_epi8('"');
     const __m256i vbackslash = _mm256_set1_epi8('\\');
-    const __m256i vctrl = _mm256_set1_epi8(0x0d);
+    const __m256i vctrl = _mm256_set1_epi8(0x1f);
     for (; i + 32 <= len; i += 32)
     {
       __m256i chunk = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(data + i));
@@ -6104,7 +6104,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m128i vquote = _mm_set1_epi8('"');
     const __m128i vbackslash = _mm_set1_epi8('\\');
-    const __m128i vctrl = _mm_set1_epi8(0x0d);
+    const __m128i vctrl = _mm_set1_epi8(0x1f);
     for (; i + 16 <= len; i += 16)
     {
       __m128i chunk = _mm_loadu_si128(reinterpret_cast<const __m128i *>(data + i));
@@ -6121,7 +6121,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   for (; i < len; i++)
   {
     unsigned char c = static_cast<unsigned char>(data[i]);
-    if (c <= 0x0d || c == '"' || c == '\\')
+    if (c <= 0x1f || c == '"' || c == '\\')
       return i;
   }
   return len;
@@ -6173,7 +6173,9 @@ static DataRef handle_json_escapes_out(const std::string &data, std::string &buf
       buffer.append("\\\\", 2);
       break;
     default:
-      buffer.push_back(cur);
+      buffer.append("\\u00", 4);
+      buffer.push_back("0123456789abcdef"[(cur >> 4) & 0xf]);
+      buffer.push_back("0123456789abcdef"[cur & 0xf]);
       break;
     }
     i++;
-- 
2.43.0


From 1d5139ab43cc0f184617e66f58d691bb12365c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:12 +0000
Subject: [PATCH 12/52] fix: escape the keys of serialized maps

---
 include/json_struct/json_struct.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index d860157..528e3bd 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9942,7 +9942,8 @@ struct TypeHandlerMap
     serializer.write(token);
     for (auto it = from.begin(); it != from.end(); ++it)
     {
-      token.name = DataRef(it->first);
+      std::string buffer;
+      token.name = Internal::handle_json_escapes_out(it->first, buffer);
       token.name_type = Type::String;
       TypeHandler<Value>::from(it->second, token, serializer);
     }
-- 
2.43.0


From 6649366386a66910207f86d1dcb22ff0e5d72fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:12 +0000
Subject: [PATCH 13/52] fix: serialize documents nested deeper than 255 levels

The depth wrapped around at 256, and the closing brackets were dropped.
---
 include/json_struct/json_struct.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 528e3bd..a1962a7 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1513,7 +1513,7 @@ public:
   bool convertAsciiToString() const;
   void setConvertAsciiToString(bool set);
 
-  unsigned char depth() const;
+  int depth() const;
   void setDepth(int depth);
 
   void skipDelimiter(bool skip);
@@ -1524,8 +1524,8 @@ public:
   const std::string &postfix() const;
 
 private:
+  int m_depth;
   uint8_t m_shift_size;
-  uint8_t m_depth;
   Style m_style;
   bool m_convert_ascii_to_string;
 
@@ -3195,8 +3195,8 @@ constexpr Tuple<Ts...> makeTuple(Ts... args)
 
 inline SerializerOptions::SerializerOptions(Style style)
 
-  : m_shift_size(style == Compact ? 0 : 2)
-  , m_depth(0)
+  : m_depth(0)
+  , m_shift_size(style == Compact ? 0 : 2)
   , m_style(style)
   , m_convert_ascii_to_string(true)
   , m_token_delimiter(",")
@@ -3215,7 +3215,7 @@ inline void SerializerOptions::setShiftSize(unsigned char set)
   m_shift_size = set;
 }
 
-inline unsigned char SerializerOptions::depth() const
+inline int SerializerOptions::depth() const
 {
   return m_depth;
 }
@@ -3253,7 +3253,7 @@ inline void SerializerOptions::skipDelimiter(bool skip)
 
 inline void SerializerOptions::setDepth(int depth)
 {
-  m_depth = (unsigned char)depth;
+  m_depth = depth;
   m_prefix = m_style == Pretty ? std::string(depth * size_t(m_shift_size), ' ') : std::string();
 }
 
-- 
2.43.0


From e84912ca74e7e4826b6b845772104106267acc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:38 +0000
Subject: [PATCH 14/52] fix: write the name of a member when it is the empty
 string

---
 include/json_struct/json_struct.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index a1962a7..858baf4 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1598,6 +1598,7 @@ private:
 
   bool m_first;
   bool m_token_start;
+  std::vector<bool> m_scope_is_object;
   SerializerOptions m_option;
 };
 
@@ -3332,6 +3333,8 @@ inline bool Serializer::write(const Token &in_token)
       return false;
     }
     m_option.setDepth(m_option.depth() - 1);
+    if (!m_scope_is_object.empty())
+      m_scope_is_object.pop_back();
   }
 
   bool shortcut_front = false;
@@ -3409,9 +3412,11 @@ inline bool Serializer::write(const Token &in_token)
       if (!write(m_option.prefix()))
         return false;
   }
-  if (token.name.size)
+  // the empty string is a name too, when the token is a member of an object
+  bool is_member = !isEnd && !m_scope_is_object.empty() && m_scope_is_object.back();
+  if (token.name.size || is_member)
   {
-    if (!write(token.name_type, token.name))
+    if (!write(token.name.size ? token.name_type : Type::String, token.name))
       return false;
 
     if (m_option.style() == SerializerOptions::Pretty)
@@ -3432,6 +3437,7 @@ inline bool Serializer::write(const Token &in_token)
   m_token_start = (token.value_type == Type::ObjectStart || token.value_type == Type::ArrayStart);
   if (m_token_start)
   {
+    m_scope_is_object.push_back(token.value_type == Type::ObjectStart);
     m_option.setDepth(m_option.depth() + 1);
   }
   return true;
-- 
2.43.0


From d72d576971f535e8df7dbd5c1875bbbc1e892ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:04 +0000
Subject: [PATCH 15/52] fix: a variable content array filled to its capacity
 keeps its size

---
 include/json_struct/json_struct.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 858baf4..a68f793 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10308,18 +10308,17 @@ struct TypeHandler<ArrayVariableContent<T, COUNT>>
       return JS::Error::ExpectedArrayStart;
 
     context.nextToken();
+    to_type.size = 0;
     for (size_t i = 0; i < COUNT; i++)
     {
       if (context.error != JS::Error::NoError)
         return context.error;
       if (context.token.value_type == Type::ArrayEnd)
-      {
-        to_type.size = i;
         break;
-      }
       context.error = TypeHandler<T>::to(to_type.data[i], context);
       if (context.error != JS::Error::NoError)
         return context.error;
+      to_type.size = i + 1;
 
       context.nextToken();
     }
-- 
2.43.0


From 6bc3a197a9563ccfe95e54ca66d0c8047efaf6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:04 +0000
Subject: [PATCH 16/52] fix: stop parsing a map when the input ends or is
 malformed

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index a68f793..f5ec89d 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9936,6 +9936,8 @@ struct TypeHandlerMap
       if (error != JS::Error::NoError)
         return error;
       error = context.nextToken();
+      if (error != JS::Error::NoError)
+        return error;
     }
 
     return error;
-- 
2.43.0


From 27d1e08de963d2b1f7cc2b742397e38fbb287ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:08 +0000
Subject: [PATCH 17/52] fix: a negative number read into an unsigned type
 saturates at zero

---
 include/json_struct/json_struct.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index f5ec89d..f0fe4a0 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8326,8 +8326,10 @@ inline typename std::enable_if<std::is_signed<T>::value, T>::type make_integer_r
 
 template <typename T, typename SignificandType>
 inline typename std::enable_if<std::is_unsigned<T>::value, T>::type make_integer_return_value(
-  SignificandType significand, bool)
+  SignificandType significand, bool negative)
 {
+  if (negative)
+    return T(0);
   if (SignificandType(significand) > SignificandType(std::numeric_limits<T>::max()))
     return std::numeric_limits<T>::max();
   return T(significand);
-- 
2.43.0


From 92dcaf14e0d8713c20d118a8928e0abdbb274740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:59 +0000
Subject: [PATCH 18/52] fix: scale integers with a positive exponent exactly

---
 include/json_struct/json_struct.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index f0fe4a0..6a86717 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8358,11 +8358,11 @@ inline T convert_to_integer(const parsed_string<SignificandType> &parsed)
   }
   else if (exp > 0)
   {
-    int chars_in_sig = count_chars(significand);
-    if (exp > ft::StaticLog10<T, std::numeric_limits<T>::max(), 0, 0, true>::get() - chars_in_sig)
-      return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
-    while (exp > 0)
+    const SignificandType max_significand = SignificandType(~SignificandType(0));
+    while (exp > 0 && significand)
     {
+      if (significand > max_significand / 10)
+        return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
       significand *= 10;
       exp--;
     }
-- 
2.43.0


From 77c5efa3a5db4f4b82cd830287604c533ef868f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:42 +0000
Subject: [PATCH 19/52] fix: a single value replaces the previous content of a
 OneOrMany

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 6a86717..09283d5 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9852,6 +9852,7 @@ public:
     }
     else
     {
+      to_type.data.clear();
       to_type.data.push_back(T());
       context.error = TypeHandler<T>::to(to_type.data.back(), context);
     }
-- 
2.43.0


From 400334285ae079c1285716d807287a6736dd31c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:42 +0000
Subject: [PATCH 20/52] fix: an array or the end of one is not a string

---
 include/json_struct/json_struct.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 09283d5..9a610a8 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6203,6 +6203,9 @@ struct TypeHandler<std::string>
 {
   static inline Error to(std::string &to_type, ParseContext &context)
   {
+    if (context.token.value_type == Type::ArrayStart || context.token.value_type == Type::ArrayEnd ||
+        context.token.value_type == Type::ObjectEnd)
+      return Error::IllegalDataValue;
     to_type.clear();
     Internal::handle_json_escapes_in(context.token.value, to_type);
     return Error::NoError;
-- 
2.43.0


From aa8e6ab32ebe571eefa575edd92798ddce58deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:40 +0000
Subject: [PATCH 21/52] fix: a raw capture replaces the previous content of its
 target

---
 include/json_struct/json_struct.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9a610a8..246748f 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9365,13 +9365,13 @@ struct TypeHandler<std::vector<Token, A>>
 public:
   static inline Error to(std::vector<Token, A> &to_type, ParseContext &context)
   {
-    if (context.token.value_type != JS::Type::ArrayStart && context.token.value_type != JS::Type::ObjectStart)
-    {
-      to_type.push_back(context.token);
-      return context.error;
-    }
     to_type.clear();
+    if (context.token.value_type == JS::Type::ArrayEnd || context.token.value_type == JS::Type::ObjectEnd)
+      return Error::ExpectedDataToken;
+
     to_type.push_back(context.token);
+    if (context.token.value_type != JS::Type::ArrayStart && context.token.value_type != JS::Type::ObjectStart)
+      return context.error;
 
     size_t level = 1;
     Error error = Error::NoError;
@@ -9457,6 +9457,7 @@ struct TypeHandler<JsonArray>
     if (context.token.value_type != JS::Type::ArrayStart)
       return Error::ExpectedArrayStart;
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9470,8 +9471,7 @@ struct TypeHandler<JsonArray>
         level--;
     }
 
-    if (error == JS::Error::NoError)
-      context.tokenizer.copyIncludingValue(context.token, to_type.data);
+    context.tokenizer.copyIncludingValue(context.token, to_type.data);
 
     return error;
   }
@@ -9536,6 +9536,7 @@ struct TypeHandler<JsonObject>
     if (context.token.value_type != JS::Type::ObjectStart)
       return Error::ExpectedObjectStart;
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9642,6 +9643,7 @@ struct TypeHandler<JsonObjectOrArray>
       return Error::ExpectedObjectStart;
     }
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
-- 
2.43.0


From b267b6c0d8b8da71287156a9f60558c53b4e90e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:06 +0000
Subject: [PATCH 22/52] fix: malformed arguments end a function call with an
 error

---
 include/json_struct/json_struct.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 246748f..0051c10 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1855,7 +1855,7 @@ inline void Tokenizer::pushScope(JS::Type type)
 
 inline void Tokenizer::popScope()
 {
-  assert(scope_counter.size() && scope_counter.back().depth == 0);
+  assert(scope_counter.size());
   scope_counter.pop_back();
 }
 
@@ -5579,8 +5579,13 @@ inline Error CallFunctionContext::callFunctions(T &container)
       parse_context.error = error;
     }
     Internal::add_error(execution_list.back(), parse_context);
-    parse_context.tokenizer.goToEndOfScope(parse_context.token);
+    Error scope_error = parse_context.tokenizer.goToEndOfScope(parse_context.token);
     parse_context.tokenizer.popScope();
+    if (scope_error != Error::NoError)
+    {
+      parse_context.error = scope_error;
+      return scope_error;
+    }
     if (error == Error::MissingFunction && allow_missing)
       error = Error::NoError;
     if (stop_execute_on_fail && error != Error::NoError)
-- 
2.43.0


From 1085097b87d7dcfbec5553a15cc469a4236a1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:40 +0000
Subject: [PATCH 23/52] fix: the message of one error does not stick to the
 next

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 0051c10..198af09 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1342,6 +1342,7 @@ public:
     line = 0;
     character = 0;
     error = Error::NoError;
+    custom_message.clear();
     lines.clear();
   }
 };
-- 
2.43.0


From c365139bb12088a1d11433bb6f949aa0f09f40bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:10 +0000
Subject: [PATCH 24/52] fix: resetting the data of a tokenizer drops the state
 of the previous document

---
 include/json_struct/json_struct.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 198af09..1a40fee 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1433,6 +1433,7 @@ private:
     Body
   };
 
+  void resetForNewData();
   void resetForNewToken();
   void resetForNewValue();
   Error findStringEnd(const DataRef &json_data, size_t *chars_ahead);
@@ -1685,7 +1686,7 @@ inline void Tokenizer::resetData(const char *data, size_t size, size_t index)
   parsed_data_vector = nullptr;
   cursor_index = index;
   addData(data, size);
-  resetForNewToken();
+  resetForNewData();
 }
 
 inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t index)
@@ -1698,7 +1699,7 @@ inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t in
   data_list.clear();
   parsed_data_vector = parsedData;
   cursor_index = index;
-  resetForNewToken();
+  resetForNewData();
 }
 
 inline size_t Tokenizer::registeredBuffers() const
@@ -1726,6 +1727,12 @@ inline Error Tokenizer::nextToken(Token &next_token)
   }
   if (parsed_data_vector)
   {
+    if (cursor_index >= parsed_data_vector->size())
+    {
+      cursor_index = 0;
+      parsed_data_vector = nullptr;
+      return Error::NeedMoreData;
+    }
     next_token = (*parsed_data_vector)[cursor_index];
     cursor_index++;
     if (cursor_index == parsed_data_vector->size())
@@ -1939,6 +1946,19 @@ inline void Tokenizer::setErrorContextConfig(size_t lineContext, size_t rangeCon
   range_context = rangeContext;
 }
 
+inline void Tokenizer::resetForNewData()
+{
+  token_state = InTokenState::FindingName;
+  is_escaped = false;
+  expecting_prop_or_anonymous_data = false;
+  continue_after_need_more_data = false;
+  scope_counter.clear();
+  container_stack.clear();
+  copy_buffers.clear();
+  error_context.clear();
+  resetForNewToken();
+}
+
 JSON_STRUCT_FORCE_INLINE void Tokenizer::resetForNewToken()
 {
   intermediate_token.clear();
-- 
2.43.0


From d7df3c199f2a426d2429585407cb40a2ae29a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:10 +0000
Subject: [PATCH 25/52] fix: a failed cast of a map leaves its error in the
 parse context

---
 include/json_struct/json_struct.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 1a40fee..59be317 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10114,8 +10114,9 @@ struct Map
   JS::Error castToType(JS::ParseContext &parseContext, T &to) const
   {
     parseContext.tokenizer.resetData(&tokens.data, 0);
-    parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    if (parseContext.nextToken() == JS::Error::NoError)
+      parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
@@ -10123,8 +10124,9 @@ struct Map
   {
     assert(iterator.index < tokens.data.size());
     parseContext.tokenizer.resetData(&tokens.data, iterator.index);
-    parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    if (parseContext.nextToken() == JS::Error::NoError)
+      parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
-- 
2.43.0


From 504d10580460511345022c6e4dcbf9c98c959167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:10 +0000
Subject: [PATCH 26/52] fix: capture raw json from parsed tokens

---
 include/json_struct/json_struct.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 59be317..79634c1 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1389,6 +1389,10 @@ public:
   void resetData(const char *data, size_t size, size_t index);
   void resetData(const std::vector<Token> *parsedData, size_t index);
   size_t registeredBuffers() const;
+  bool isReadingTokens() const
+  {
+    return parsed_data_vector != nullptr;
+  }
 
   void setNeedMoreDataCallback(std::function<void(Tokenizer &)> callback);
   void setReleaseCallback(std::function<void(const char *)> &callback);
@@ -9439,6 +9443,23 @@ public:
   }
 };
 
+namespace Internal
+{
+// The tokens of a parsed document do not have to share a buffer, so a capture of them has to be written again
+static inline Error captureTokens(std::string &to_buffer, ParseContext &context)
+{
+  JsonTokens tokens;
+  Error error = TypeHandler<JsonTokens>::to(tokens, context);
+  if (error != Error::NoError)
+    return error;
+  tokens.data.front().name = DataRef();
+  SerializerContext serialize_context(to_buffer);
+  serialize_context.serializer.setOptions(SerializerOptions(SerializerOptions::Compact));
+  serialize_context.serialize(tokens);
+  return error;
+}
+} // namespace Internal
+
 /// \private
 template <>
 struct TypeHandler<JsonArrayRef>
@@ -9484,6 +9505,8 @@ struct TypeHandler<JsonArray>
       return Error::ExpectedArrayStart;
 
     to_type.data.clear();
+    if (context.tokenizer.isReadingTokens())
+      return Internal::captureTokens(to_type.data, context);
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9563,6 +9586,8 @@ struct TypeHandler<JsonObject>
       return Error::ExpectedObjectStart;
 
     to_type.data.clear();
+    if (context.tokenizer.isReadingTokens())
+      return Internal::captureTokens(to_type.data, context);
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9670,6 +9695,8 @@ struct TypeHandler<JsonObjectOrArray>
     }
 
     to_type.data.clear();
+    if (context.tokenizer.isReadingTokens())
+      return Internal::captureTokens(to_type.data, context);
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
-- 
2.43.0


From a2a036d36a2e099b7b01cf2dc7120f37864c4c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:10 +0000
Subject: [PATCH 27/52] fix: the members of a map end before the end of its
 object and match by their unescaped name

---
 include/json_struct/json_struct.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 79634c1..cb131a4 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10037,6 +10037,12 @@ namespace Internal
 {
 inline bool compareDataRefWithString(const DataRef &a, const std::string &b)
 {
+  if (a.size && memchr(a.data, '\\', a.size))
+  {
+    std::string unescaped;
+    handle_json_escapes_in(a, unescaped);
+    return unescaped == b;
+  }
   return a.size == b.size() && memcmp(a.data, b.data(), a.size) == 0;
 }
 } // namespace Internal
@@ -10115,7 +10121,7 @@ struct Map
   inline It begin() const
   {
     It b(*this);
-    b.index = 1;
+    b.index = tokens.data.empty() ? 0 : 1;
     b.next_meta = 1;
     b.next_complex =
       b.next_meta < uint32_t(meta.size()) ? uint32_t(meta[b.next_meta].position) : uint32_t(tokens.data.size());
@@ -10125,7 +10131,7 @@ struct Map
   inline It end() const
   {
     It e(*this);
-    e.index = uint32_t(tokens.data.size());
+    e.index = uint32_t(tokens.data.size() > 1 ? tokens.data.size() - 1 : tokens.data.size());
     e.next_meta = 0;
     e.next_complex = 0;
     return e;
-- 
2.43.0


From 7d1f9c6680d128dad8328c74e93f8105e73fc66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:35 +0000
Subject: [PATCH 28/52] fix: setting a member of a map keeps its name, metadata
 and other members consistent

---
 include/json_struct/json_struct.h | 79 ++++++++++++-------------------
 1 file changed, 29 insertions(+), 50 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index cb131a4..38e5475 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10206,8 +10206,12 @@ struct Map
     meta.clear();
     json_data.clear();
     auto error = parseContext.parseTo(tokens);
-    if (error == JS::Error::NoError)
-      assert(tokens.data.size() && tokens.data[0].value_type == JS::Type::ObjectStart);
+    if (error != JS::Error::NoError)
+    {
+      tokens.data.clear();
+      return error;
+    }
+    assert(tokens.data.size() && tokens.data[0].value_type == JS::Type::ObjectStart);
 
     meta = metaForTokens(tokens);
     json_data.emplace_back(0, std::move(obj));
@@ -10217,7 +10221,6 @@ struct Map
   template <typename T>
   JS::Error setValue(const std::string &name, JS::ParseContext &parseContext, const T &value)
   {
-    (void)parseContext;
     if (tokens.data.empty())
     {
       tokens.data.reserve(10);
@@ -10232,34 +10235,20 @@ struct Map
       meta = JS::metaForTokens(tokens);
     }
 
-    auto it = find(name);
-    if (it != end())
+    if (tokens.data.front().value_type != JS::Type::ObjectStart)
     {
-      meta[0].children--;
-      int tokens_removed = 0;
+      parseContext.error = JS::Error::ExpectedObjectStart;
+      return parseContext.error;
+    }
+
+    for (auto it = find(name); it != end(); it = find(name))
+    {
+      int tokens_removed = 1;
       if (it.index == it.next_complex)
-      {
-        auto theMeta = meta[it.next_meta];
-        tokens_removed = theMeta.size;
-        meta[0].complex_children--;
-        meta[0].size -= theMeta.size;
-        meta[0].skip -= theMeta.skip;
-        auto start_token = tokens.data.begin() + it.index;
-        tokens.data.erase(start_token, start_token + theMeta.size);
-        int to_adjust_index = it.next_meta;
-        auto start_meta = meta.begin() + it.next_meta;
-        meta.erase(start_meta, start_meta + theMeta.skip);
-        for (int i = to_adjust_index; i < int(meta.size()); i++)
-        {
-          meta[i].position -= theMeta.size;
-        }
-      }
-      else
-      {
-        meta[0].size--;
-        tokens.data.erase(tokens.data.begin() + it.index);
-        tokens_removed = 1;
-      }
+        tokens_removed = int(meta[it.next_meta].size);
+      auto start_token = tokens.data.begin() + it.index;
+      tokens.data.erase(start_token, start_token + tokens_removed);
+      meta = JS::metaForTokens(tokens);
       {
         int index_to_remove = -1;
         for (int i = 0; i < int(json_data.size()); i++)
@@ -10285,7 +10274,8 @@ struct Map
     token.value = DataRef(objectStart);
     serializeContext.serializer.write(token);
 
-    token.name = DataRef(name);
+    std::string name_buffer;
+    token.name = Internal::handle_json_escapes_out(name, name_buffer);
     token.name_type = Type::String;
     JS::TypeHandler<T>::from(value, token, serializeContext.serializer);
 
@@ -10297,28 +10287,17 @@ struct Map
     serializeContext.flush();
     JS::JsonTokens new_tokens;
     JS::ParseContext pc(out.c_str(), out.size(), new_tokens);
-    auto new_meta = metaForTokens(new_tokens);
-
-    json_data.emplace_back(int(tokens.data.size() - 1), std::move(out));
-    int old_tokens_size = int(tokens.data.size());
-    tokens.data.insert(tokens.data.end() - 1, new_tokens.data.begin() + 1, new_tokens.data.end() - 1);
-    meta[0].children++;
-    if (new_meta[0].complex_children)
-    {
-      meta[0].complex_children++;
-      meta[0].size += new_meta[1].size;
-      meta[0].skip += new_meta[1].skip;
-      int old_meta_size = int(meta.size());
-      meta.insert(meta.end(), new_meta.begin() + 1, new_meta.end());
-      for (int new_meta_i = old_meta_size; new_meta_i < int(meta.size()); new_meta_i++)
-      {
-        meta[new_meta_i].position +=
-          old_tokens_size - 1 - 1; // position contains an extra and old_tokens_size has another extra
-      }
+    if (pc.error != JS::Error::NoError)
+    {
+      parseContext.error = pc.error;
+      return parseContext.error;
     }
-    else
+
+    if (new_tokens.data.size() > 2)
     {
-      meta[0].size++;
+      json_data.emplace_back(int(tokens.data.size() - 1), std::move(out));
+      tokens.data.insert(tokens.data.end() - 1, new_tokens.data.begin() + 1, new_tokens.data.end() - 1);
+      meta = JS::metaForTokens(tokens);
     }
 
     return JS::Error::NoError;
-- 
2.43.0


From c28b21051ae048d565fd89e0773c186f380b7233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:51 +0000
Subject: [PATCH 29/52] fix: reformatting a document that ends early is an
 error

---
 include/json_struct/json_struct.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 38e5475..aec031d 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3050,15 +3050,20 @@ static inline JS::Error reformat(const char *data, size_t size, std::string &out
     out.resize(4096);
   serializer.setBuffer(&out[0], out.size());
 
+  size_t depth = 0;
   while (error == Error::NoError)
   {
     error = tokenizer.nextToken(token);
     if (error != Error::NoError)
       break;
+    if (token.value_type == Type::ObjectStart || token.value_type == Type::ArrayStart)
+      depth++;
+    else if (token.value_type == Type::ObjectEnd || token.value_type == Type::ArrayEnd)
+      depth--;
     serializer.write(token);
   }
   out.resize(last_pos + serializer.currentBuffer().used);
-  if (error == Error::NeedMoreData)
+  if (error == Error::NeedMoreData && depth == 0)
     return Error::NoError;
 
   return error;
-- 
2.43.0


From 07f4655916f6f516fd5b03e382395089f4436b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:56 +0000
Subject: [PATCH 30/52] fix: comparing numbers beyond the range of a double
 does not throw

---
 include/json_struct/json_struct_diff.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index f580e16..ecdf8b1 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -437,6 +437,8 @@ namespace Internal
 
         inline bool fuzzyEquals(double d1, double d2, double epsilon)
         {
+            if (d1 == d2) // also when both are infinite
+                return true;
             double diff = d2 - d1;
             return diff > 0 ? (diff <= epsilon) : (-diff <= epsilon);
         }
@@ -451,8 +453,8 @@ namespace Internal
 
         inline void diffNumberValues(const Token &baseToken, const Token &diffToken, DiffTokens &diff, const size_t diffPos, const DiffOptions &options)
         {
-            double baseValue = std::stod(std::string(baseToken.value.data, baseToken.value.size));
-            double diffValue = std::stod(std::string(diffToken.value.data, diffToken.value.size));
+            double baseValue = std::strtod(std::string(baseToken.value.data, baseToken.value.size).c_str(), nullptr);
+            double diffValue = std::strtod(std::string(diffToken.value.data, diffToken.value.size).c_str(), nullptr);
 
             if (options.flags & DiffFlags::FuzzyFloatComparison)
             {
-- 
2.43.0


From b514acbe657d1dc92259c1cc09633eae4354d3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:56 +0000
Subject: [PATCH 31/52] fix: mark all items of an array that are new

---
 include/json_struct/json_struct_diff.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index ecdf8b1..774ff1a 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -689,15 +689,10 @@ namespace Internal
                     // New items in array.
                     if (baseToken.value_type == Type::ArrayEnd)
                     {
-                        int arrayEndCount = 0;
-                        while (arrayEndCount >= 0)
+                        while (diff.tokens.data[dPos].value_type != Type::ArrayEnd)
                         {
-                            diff.set(dPos++, DiffType::NewArrayItem);
-                            const Token& dToken = diff.tokens.data[dPos];
-                            if (dToken.value_type == Type::ArrayStart)
-                                arrayEndCount++;
-                            else if (dToken.value_type == Type::ArrayEnd)
-                                arrayEndCount--;
+                            setStateForEntireToken(diff, dPos, DiffType::NewArrayItem);
+                            diff.skip(&dPos);
                         }
                         arrayDiffDone = true;
                     }
-- 
2.43.0


From 6638117ca0771f7edd927fae475d89b4543a6744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:56 +0000
Subject: [PATCH 32/52] fix: forget the missing array items of the previous
 comparison

---
 include/json_struct/json_struct_diff.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 774ff1a..82ee9c3 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -118,6 +118,7 @@ struct DiffTokens
     void invalidate()
     {
         missingMembers.clear();
+        missingArrayItems.clear();
         diffs.clear();
         error = DiffError::NoError;
         diff_count = 0;
@@ -128,6 +129,7 @@ struct DiffTokens
     {
         tokens.data.clear();
         missingMembers.clear();
+        missingArrayItems.clear();
         diffs.clear();
         meta.clear();
         error = DiffError::NoError;
-- 
2.43.0


From 9f9ab4ae95ef11dcecdca65ad6ae911de1a337e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:56 +0000
Subject: [PATCH 33/52] fix: comparing a base with an empty document does not
 access its tokens

---
 include/json_struct/json_struct_diff.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 82ee9c3..adb8159 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -739,12 +739,8 @@ namespace Internal
             }
             else if (base.tokens.data.size() && diff.tokens.data.empty())
             {
-                if (base.tokens.data[0].value_type == Type::ObjectStart)
-                    diff.addMissingMembers(0, base, 0);
-                else if (base.tokens.data[0].value_type == Type::ArrayStart)
-                    diff.addMissingArrayItems(0, base, 0);
-                else
-                    setStateForEntireToken(diff, 0, DiffType::ErroneousRootItem);
+                // There is no token to attach the missing ones to.
+                diff.diff_count = base.tokens.data.size();
             }
             else
             {
-- 
2.43.0


From 54cbb4168262da389c859b92c20014950e6632c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:43 +0000
Subject: [PATCH 34/52] fix: an error while reading parsed tokens does not
 compute positions across buffers

---
 include/json_struct/json_struct.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index aec031d..ec4e810 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2950,14 +2950,11 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
   if ((!parsed_data_vector || parsed_data_vector->empty()) && data_list.empty())
     return error;
 
+  // Parsed tokens do not have to share a buffer, so only the last one read can be shown
+  const bool from_tokens = parsed_data_vector && parsed_data_vector->size();
   const DataRef json_data =
-    parsed_data_vector && parsed_data_vector->size()
-      ? DataRef(parsed_data_vector->front().value.data,
-                size_t(parsed_data_vector->back().value.data - parsed_data_vector->front().value.data))
-      : data_list.front();
-  int64_t real_cursor_index = parsed_data_vector && parsed_data_vector->size()
-                                ? int64_t(parsed_data_vector->at(cursor_index).value.data - json_data.data)
-                                : int64_t(cursor_index);
+    from_tokens ? parsed_data_vector->at(cursor_index ? cursor_index - 1 : 0).value : data_list.front();
+  int64_t real_cursor_index = from_tokens ? 0 : int64_t(cursor_index);
   const int64_t stop_back = real_cursor_index - std::min(int64_t(real_cursor_index), int64_t(line_range_context));
   const int64_t stop_forward = std::min(real_cursor_index + int64_t(line_range_context), int64_t(json_data.size));
   std::vector<Internal::Lines> lines;
-- 
2.43.0


From 3a722912bb5f3a607061055c5b757d18d758fb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:24 +0000
Subject: [PATCH 35/52] fix: the reported error position and lines match the
 input

---
 include/json_struct/json_struct.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ec4e810..849aae6 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2947,6 +2947,7 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
 {
   error_context.error = error;
   error_context.custom_message = custom_message;
+  error_context.lines.clear();
   if ((!parsed_data_vector || parsed_data_vector->empty()) && data_list.empty())
     return error;
 
@@ -2964,14 +2965,12 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
   int64_t lines_forward = 0;
   int64_t cursor_back;
   int64_t cursor_forward;
-  for (cursor_back = real_cursor_index - 1; cursor_back > stop_back; cursor_back--)
+  for (cursor_back = real_cursor_index - 1; cursor_back >= stop_back; cursor_back--)
   {
     if (*(json_data.data + cursor_back) == '\n')
     {
       lines.front().start = size_t(cursor_back + 1);
       lines_back++;
-      if (lines_back == 1)
-        error_context.character = size_t(real_cursor_index - cursor_back);
       if (lines_back == int64_t(line_context))
       {
         lines_back--;
@@ -2981,8 +2980,8 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
       lines.insert(lines.begin(), {0, size_t(cursor_back)});
     }
   }
-  if (lines.front().start == 0 && cursor_back > 0)
-    lines.front().start = size_t(cursor_back);
+  if (cursor_back < stop_back)
+    lines.front().start = size_t(stop_back);
   bool add_new_line = false;
   for (cursor_forward = real_cursor_index; cursor_forward < stop_forward; cursor_forward++)
   {
@@ -3000,8 +2999,8 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
       add_new_line = true;
     }
   }
-  if (lines.back().end == 0)
-    lines.back().end = size_t(cursor_forward - 1);
+  if (cursor_forward == stop_forward && !add_new_line)
+    lines.back().end = size_t(cursor_forward);
 
   if (lines.size() > 1)
   {
@@ -3011,6 +3010,7 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
       error_context.lines.push_back(std::string(json_data.data + line.start, line.end - line.start));
     }
     error_context.line = size_t(lines_back);
+    error_context.character = size_t(real_cursor_index) - lines[size_t(lines_back)].start;
   }
   else
   {
-- 
2.43.0


From d9482ad3edc63758ec0fec23e539118d234fe06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:50 +0000
Subject: [PATCH 36/52] fix: unquoted words may start with the punctuation they
 may hold

---
 include/json_struct/json_struct.h | 38 ++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 849aae6..ac70eda 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2255,13 +2255,20 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
     const char c = json_data.data[current_pos];
     unsigned char lc = Internal::lookup()[(unsigned char)c];
 
-    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && current_pos + 1 == json_data.size))
+    if (JSON_STRUCT_UNLIKELY((allow_comments || allow_ascii_properties) && c == '/' &&
+                             current_pos + 1 == json_data.size))
     {
       comment_state = InCommentState::FirstSlash;
       return Error::NeedMoreData;
     }
-    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && json_data.data[current_pos + 1] == '/'))
+    if (JSON_STRUCT_UNLIKELY((allow_comments || allow_ascii_properties) && c == '/' &&
+                             json_data.data[current_pos + 1] == '/'))
     {
+      if (!allow_comments)
+      {
+        *chars_ahead = current_pos - cursor_index;
+        return Error::EncounteredIllegalChar;
+      }
       cursor_index = current_pos + 2;
       size_t comment_skip;
       Error comment_error = skipComment(json_data, &comment_skip);
@@ -2309,7 +2316,8 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
       *chars_ahead = current_pos - cursor_index;
       return Error::NoError;
     }
-    else if (JSON_STRUCT_LIKELY(lc & Internal::AsciiLetters))
+    else if (JSON_STRUCT_LIKELY(lc & Internal::AsciiLetters) ||
+             JSON_STRUCT_UNLIKELY(allow_ascii_properties && (lc & Internal::HatUnderscoreAprostoph)))
     {
       *type = Type::Ascii;
       *chars_ahead = current_pos - cursor_index;
@@ -2555,6 +2563,30 @@ inline Error Tokenizer::continueComment(const DataRef &json_data)
         return Error::ExpectedDelimiter;
       if (token_state == InTokenState::FindingTokenEnd)
         return Error::InvalidToken;
+      if (!allow_ascii_properties)
+        return Error::EncounteredIllegalChar;
+      // not a comment, the slash is the first character of an unquoted word
+      if (token_state == InTokenState::FindingName)
+      {
+        intermediate_token.name = "/";
+        intermediate_token.name_type = Type::Ascii;
+        intermediate_token.name_type_set = true;
+      }
+      else
+      {
+        intermediate_token.data = "/";
+        intermediate_token.data_type = Type::Ascii;
+        intermediate_token.data_type_set = true;
+      }
+      intermediate_token.active = true;
+      property_type = Type::Ascii;
+      property_state = InPropertyState::FindingEnd;
+      current_data_start = cursor_index;
+      return Error::NoError;
+    }
+    if (!allow_comments)
+    {
+      comment_state = InCommentState::NoComment;
       return Error::EncounteredIllegalChar;
     }
     cursor_index++;
-- 
2.43.0


From e3d4e60e98b9f0f7850b6f96cb4de22c33b0e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:41 +0000
Subject: [PATCH 37/52] fix: an enum takes its name from an unquoted word

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ac70eda..2ab303a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5963,7 +5963,7 @@ struct EnumHandler
 {
   static inline Error to(T &to_type, ParseContext &context)
   {
-    if (context.token.value_type == Type::String)
+    if (context.token.value_type == Type::String || context.token.value_type == Type::Ascii)
     {
       auto &strings = F::strings();
       for (size_t i = 0; i < strings.size(); i++)
-- 
2.43.0


From e7489e6ac6069f8db9f61b3f2ca7a9da0f5f785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:21 +0000
Subject: [PATCH 38/52] fix: serialize an enum value that has no name as its
 number

An enum parsed from a number outside its names was looked up out of bounds
in the name list when serialized again.
---
 include/json_struct/json_struct.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 2ab303a..9fdd48b 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5996,6 +5996,13 @@ struct EnumHandler
   static inline void from(const T &from_type, Token &token, Serializer &serializer)
   {
     size_t i = static_cast<size_t>(from_type);
+    if (i >= F::strings().size())
+    {
+      // parsed from a number that has no name
+      using enum_int_t = typename std::underlying_type<T>::type;
+      TypeHandler<enum_int_t>::from(static_cast<enum_int_t>(from_type), token, serializer);
+      return;
+    }
     token.value = F::strings()[i];
     token.value_type = Type::String;
     serializer.write(token);
-- 
2.43.0


From 9291161b7deb3cf34339dd1d73ab0e7a407faf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:49 +0000
Subject: [PATCH 39/52] fix: refuse a time point that does not fit its clock

Scaling the parsed number to the clock's unit overflowed.
---
 include/json_struct/json_struct.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9fdd48b..4ecf8f5 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9236,6 +9236,16 @@ struct is_specialization<Template<Args...>, Template> : std::true_type
 template <class T>
 struct TypeHandler<T, typename std::enable_if_t<Internal::is_specialization<T, std::chrono::time_point>::value>>
 {
+  template <typename Duration>
+  static inline Error assign(T &to_type, uint64_t t)
+  {
+    const auto latest = std::chrono::duration_cast<Duration>(T::duration::max()).count();
+    if (t > static_cast<uint64_t>(latest))
+      return Error::IllegalDataValue;
+    to_type = T{Duration{t}};
+    return Error::NoError;
+  }
+
   static inline Error to(T &to_type, ParseContext &context)
   {
     uint64_t t;
@@ -9244,20 +9254,15 @@ struct TypeHandler<T, typename std::enable_if_t<Internal::is_specialization<T, s
       return err;
 
     if (t <= 1e11) // Seconds => 10 digits, normally
-      to_type = T{std::chrono::seconds{t}};
+      return assign<std::chrono::seconds>(to_type, t);
     else if (t <= 1e14) // Milliseconds => 13 digits, normally
-      to_type = T{std::chrono::milliseconds{t}};
+      return assign<std::chrono::milliseconds>(to_type, t);
     else if (t <= 1e17) // Microseconds
-      to_type = T{std::chrono::microseconds{t}};
+      return assign<std::chrono::microseconds>(to_type, t);
     else if (t <= 1e20) // Nanoseconds
       if constexpr (std::is_same_v<std::chrono::high_resolution_clock::time_point, T>)
-        to_type = T{std::chrono::nanoseconds{t}};
-      else
-        return JS::Error::IllegalDataValue;
-    else
-      return JS::Error::IllegalDataValue;
-
-    return JS::Error::NoError;
+        return assign<std::chrono::nanoseconds>(to_type, t);
+    return JS::Error::IllegalDataValue;
   }
 
   static inline void from(const T &val, Token &token, Serializer &serializer)
-- 
2.43.0


From 45041594987f57f9b8f02c4e10be79ce12c151de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:57 +0000
Subject: [PATCH 40/52] fix: capture from a token list that ends with an
 opening token

The list counts as read once its last token is taken, so a capture that
starts there looked for the token in a text buffer that does not exist.
---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 4ecf8f5..c80e9ad 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1391,7 +1391,7 @@ public:
   size_t registeredBuffers() const;
   bool isReadingTokens() const
   {
-    return parsed_data_vector != nullptr;
+    return parsed_data_vector != nullptr || data_list.empty();
   }
 
   void setNeedMoreDataCallback(std::function<void(Tokenizer &)> callback);
-- 
2.43.0


From c3636f33792fd691b9d02324faa1119b852d8f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:57 +0000
Subject: [PATCH 41/52] fix: scopes nested deeper than 65535 levels keep their
 place

The 16 bit depth wrapped around, which ended the scope early when calling
functions with deeply nested arguments.
---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index c80e9ad..ad67a7d 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1354,7 +1354,7 @@ namespace Internal
 struct ScopeCounter
 {
   JS::Type type;
-  uint16_t depth;
+  size_t depth;
   inline void handleType(JS::Type in_type)
   {
     if (type == JS::Type::ArrayStart || type == JS::Type::ObjectStart)
-- 
2.43.0


From 60227db7f55ae24c78e052559f700b3d25b2c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:07 +0000
Subject: [PATCH 42/52] fix: fixed size arrays report the tokenizer's error,
 not a missing array end, when the text stops behind the last element

---
 include/json_struct/json_struct.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ad67a7d..17dde40 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9998,6 +9998,8 @@ public:
       context.nextToken();
     }
 
+    if (context.error != JS::Error::NoError)
+      return context.error;
     if (context.token.value_type != Type::ArrayEnd)
       return JS::Error::ExpectedArrayEnd;
     return context.error;
@@ -10419,6 +10421,8 @@ struct TypeHandler<ArrayVariableContent<T, COUNT>>
       context.nextToken();
     }
 
+    if (context.error != JS::Error::NoError)
+      return context.error;
     if (context.token.value_type != Type::ArrayEnd)
       return JS::Error::ExpectedArrayEnd;
     return context.error;
@@ -10555,6 +10559,8 @@ public:
       context.nextToken();
     }
 
+    if (context.error != JS::Error::NoError)
+      return context.error;
     if (context.token.value_type != Type::ArrayEnd)
       return JS::Error::ExpectedArrayEnd;
     return context.error;
-- 
2.43.0


From 6a4f6c337ce289ab94bf328cfa744819a6abfdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:01 +0000
Subject: [PATCH 43/52] fix: members a map value or set element does not name
 are not left uninitialised

---
 include/json_struct/json_struct.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 17dde40..1c0390b 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10039,7 +10039,7 @@ struct TypeHandlerMap
       std::string str;
       Internal::handle_json_escapes_in(context.token.name, str);
       Key key(str.data(), str.size());
-      Value v;
+      Value v{};
       error = TypeHandler<Value>::to(v, context);
       to_type[std::move(key)] = std::move(v);
       if (error != JS::Error::NoError)
@@ -10458,7 +10458,7 @@ struct TypeHandlerSet
     to_type.clear();
     while (context.token.value_type != JS::Type::ArrayEnd)
     {
-      T t;
+      T t{};
       error = TypeHandler<T>::to(t, context);
       if (error != JS::Error::NoError)
         break;
-- 
2.43.0


From b68edb984eede6aec3dfbf179b370e20562b52d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:01 +0000
Subject: [PATCH 44/52] fix: members a function argument does not name are not
 left uninitialised

---
 include/json_struct/json_struct.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 1c0390b..b1ee969 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5223,7 +5223,7 @@ struct FunctionCaller
   {
     typedef typename std::remove_reference<Arg>::type NonRefArg;
     typedef typename std::remove_cv<NonRefArg>::type PureArg;
-    PureArg arg;
+    PureArg arg{};
     context.parse_context.error = TypeHandler<PureArg>::to(arg, context.parse_context);
     if (context.parse_context.error != Error::NoError)
       return context.parse_context.error;
@@ -5242,7 +5242,7 @@ struct FunctionCaller<T, U, Ret, Arg, NAME_COUNT, 1>
   {
     typedef typename std::remove_reference<Arg>::type NonRefArg;
     typedef typename std::remove_cv<NonRefArg>::type PureArg;
-    PureArg arg;
+    PureArg arg{};
     context.parse_context.error = TypeHandler<PureArg>::to(arg, context.parse_context);
     if (context.parse_context.error != Error::NoError)
       return context.parse_context.error;
@@ -5263,7 +5263,7 @@ struct FunctionCaller<T, U, Ret, Arg, NAME_COUNT, 2>
   {
     typedef typename std::remove_reference<Arg>::type NonRefArg;
     typedef typename std::remove_cv<NonRefArg>::type PureArg;
-    PureArg arg;
+    PureArg arg{};
     context.parse_context.error = TypeHandler<PureArg>::to(arg, context.parse_context);
     if (context.parse_context.error != Error::NoError)
       return context.parse_context.error;
@@ -5285,7 +5285,7 @@ struct FunctionCaller<T, U, void, Arg, NAME_COUNT, TAKES_CONTEXT>
   {
     typedef typename std::remove_reference<Arg>::type NonRefArg;
     typedef typename std::remove_cv<NonRefArg>::type PureArg;
-    PureArg arg;
+    PureArg arg{};
     context.parse_context.error = TypeHandler<PureArg>::to(arg, context.parse_context);
     if (context.parse_context.error != Error::NoError)
       return context.parse_context.error;
@@ -5303,7 +5303,7 @@ struct FunctionCaller<T, U, void, Arg, NAME_COUNT, 1>
   {
     typedef typename std::remove_reference<Arg>::type NonRefArg;
     typedef typename std::remove_cv<NonRefArg>::type PureArg;
-    PureArg arg;
+    PureArg arg{};
     context.parse_context.error = TypeHandler<PureArg>::to(arg, context.parse_context);
     if (context.parse_context.error != Error::NoError)
       return context.parse_context.error;
@@ -5321,7 +5321,7 @@ struct FunctionCaller<T, U, void, Arg, NAME_COUNT, 2>
   {
     typedef typename std::remove_reference<Arg>::type NonRefArg;
     typedef typename std::remove_cv<NonRefArg>::type PureArg;
-    PureArg arg;
+    PureArg arg{};
     context.parse_context.error = TypeHandler<PureArg>::to(arg, context.parse_context);
     if (context.parse_context.error != Error::NoError)
       return context.parse_context.error;
-- 
2.43.0


From 5280eddcea9013e34cd9f94a3e14e9732ba62f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:06 +0000
Subject: [PATCH 45/52] fix: an error raised by a function does not stay in the
 report of later entries read from recorded tokens

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b1ee969..9a90e55 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1731,6 +1731,7 @@ inline Error Tokenizer::nextToken(Token &next_token)
   }
   if (parsed_data_vector)
   {
+    error_context.clear();
     if (cursor_index >= parsed_data_vector->size())
     {
       cursor_index = 0;
-- 
2.43.0


From 3a672791cfe5681ee4fa862395a119555c4a89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:04 +0000
Subject: [PATCH 46/52] fix: enumerators that begin with an underscore keep
 their name and number

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9a90e55..13c2ee1 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5747,7 +5747,7 @@ void populateEnumNames(std::vector<DataRef> &names, const char (&data)[N])
     switch (state)
     {
     case ParseEnumStringState::FindingNameStart:
-      if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'))
+      if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_')
       {
         name_starts_at = i;
         state = ParseEnumStringState::FindingNameEnd;
-- 
2.43.0


From a9a72f1ff35020546455056fe21a0f086d0fcc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:11 +0000
Subject: [PATCH 47/52] fix: count the tokens of an inner scope in the scopes
 around it

---
 include/json_struct/json_struct.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 13c2ee1..474fd04 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1357,6 +1357,8 @@ struct ScopeCounter
   size_t depth;
   inline void handleType(JS::Type in_type)
   {
+    if (depth == 0)
+      return;
     if (type == JS::Type::ArrayStart || type == JS::Type::ObjectStart)
     {
       if (in_type == type)
@@ -1745,8 +1747,8 @@ inline Error Tokenizer::nextToken(Token &next_token)
       cursor_index = 0;
       parsed_data_vector = nullptr;
     }
-    if (scope_counter.size())
-      scope_counter.back().handleType(next_token.value_type);
+    for (auto &scope : scope_counter)
+      scope.handleType(next_token.value_type);
     return Error::NoError;
   }
   if (JSON_STRUCT_UNLIKELY(data_list.empty()))
@@ -1805,8 +1807,8 @@ inline Error Tokenizer::nextToken(Token &next_token)
       }
       container_stack.pop_back();
     }
-    if (JSON_STRUCT_LIKELY(scope_counter.size()))
-      scope_counter.back().handleType(next_token.value_type);
+    for (auto &scope : scope_counter)
+      scope.handleType(next_token.value_type);
   }
   return error;
 }
-- 
2.43.0


From ffa1d0fd058d0f290c61a50f5587fe218c355c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:29 +0000
Subject: [PATCH 48/52] fix: never allocate in the destructor of
 SerializerContext

---
 include/json_struct/json_struct.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 474fd04..e8e3eb9 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -4807,7 +4807,9 @@ struct SerializerContext
 
   ~SerializerContext()
   {
-    flush();
+    // Only ever shrinks: the string may have been moved away, and growing it could throw
+    if (last_pos + serializer.currentBuffer().used < json_out.size())
+      flush();
   }
 
   template <typename T>
-- 
2.43.0


From 4814effe34d0af9f63e0e07216db95b164137b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:29 +0000
Subject: [PATCH 49/52] fix: let exceptions pass that are thrown while the end
 of the call results is written

---
 include/json_struct/json_struct.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e8e3eb9..14d1ccd 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5573,7 +5573,7 @@ struct RAICallFunctionOnExit
     , after(after)
   {
   }
-  ~RAICallFunctionOnExit()
+  ~RAICallFunctionOnExit() noexcept(false)
   {
     (context.*after)();
   }
@@ -5592,7 +5592,7 @@ struct ArrayEndWriter
   {
   }
 
-  ~ArrayEndWriter()
+  ~ArrayEndWriter() noexcept(false)
   {
     token.value_type = Type::ArrayEnd;
     token.value = DataRef("]");
-- 
2.43.0


From efe7947a213dbc8c010b7ec40b162ee11e657353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:29 +0000
Subject: [PATCH 50/52] fix: leave a JS::Map empty when parsing into it fails

---
 include/json_struct/json_struct.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 14d1ccd..3c43509 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10367,6 +10367,11 @@ struct TypeHandler<Map>
     {
       to_type.meta = metaForTokens(to_type.tokens);
     }
+    else
+    {
+      to_type.tokens.data.clear();
+      to_type.meta.clear();
+    }
 
     return error;
   }
-- 
2.43.0


From a645a964fb7d6e398b119f3306acd0a3dd4a3cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:27 +0000
Subject: [PATCH 51/52] fix: decide numbers next to the middle of two doubles
 exactly

---
 include/json_struct/json_struct.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 3c43509..c3f61ea 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8239,9 +8239,20 @@ inline uint64_t getPow10(uint32_t pow)
   return data[pow];
 }
 
+// Multiplying and dividing by ten drops low bits, together less than this
+inline bool can_be_the_half(const uint64_t (&a)[2], int round_off_bits)
+{
+  const uint64_t lost_bits = uint64_t(1) << 16;
+  const uint64_t half = uint64_t(1) << (round_off_bits - 1);
+  const uint64_t round_off = a[1] & ((half << 1) - 1);
+  return (round_off == half && a[0] == 0) || (round_off == half - 1 && a[0] >= uint64_t(0) - lost_bits);
+}
+
+// close_to_half is set when the result can be one of two neighbours, because the number lies so close to the middle
 template <typename T, typename SignificandType>
-inline T convertToNumber(const parsed_string<SignificandType> &parsed)
+inline T convertToNumber(const parsed_string<SignificandType> &parsed, bool &close_to_half)
 {
+  close_to_half = false;
   if (parsed.significand == 0)
   {
     return make_zero<T>(parsed.negative);
@@ -8300,10 +8311,12 @@ inline T convertToNumber(const parsed_string<SignificandType> &parsed)
   T to_digit;
   if (binary_exponent <= 0)
   {
+    close_to_half = can_be_the_half(a, -binary_exponent + 9);
     float_info<T>::copy_denormal_to_type(a, binary_exponent, parsed.negative, to_digit);
   }
   else if (binary_exponent < (int(1) << float_info<T>::exponent_width()) - 1)
   {
+    close_to_half = can_be_the_half(a, 8);
     float_info<T>::copy_normal_to_type(a, binary_exponent, parsed.negative, to_digit);
   }
   else
@@ -8314,9 +8327,9 @@ inline T convertToNumber(const parsed_string<SignificandType> &parsed)
 }
 
 template <>
-inline float convertToNumber<float, uint64_t>(const parsed_string<uint64_t> &parsed)
+inline float convertToNumber<float, uint64_t>(const parsed_string<uint64_t> &parsed, bool &close_to_half)
 {
-  return float(convertToNumber<double, uint64_t>(parsed));
+  return float(convertToNumber<double, uint64_t>(parsed, close_to_half));
 }
 
 namespace ryu
@@ -8792,9 +8805,10 @@ inline parse_string_error to_ieee_t(const char *str, size_t size, T &target, con
   }
   else
   {
-    target = convertToNumber<T>(ps);
+    bool close_to_half;
+    target = convertToNumber<T>(ps, close_to_half);
     int base10exponent = ps.exp + ps.significand_digit_count - 1;
-    if (ps.significand_truncated && base10exponent <= float_info<T>::max_base10_exponent() &&
+    if ((ps.significand_truncated || close_to_half) && base10exponent <= float_info<T>::max_base10_exponent() &&
         base10exponent >= float_info<T>::min_base10_exponent())
       target = correctly_round_double(str, size, target);
   }
@@ -8813,7 +8827,8 @@ inline parse_string_error to_ieee_t<float>(const char *str, size_t size, float &
   }
   else
   {
-    double d = convertToNumber<double, uint64_t>(ps);
+    bool close_to_half;
+    double d = convertToNumber<double, uint64_t>(ps, close_to_half);
     target = correctly_round_float(str, size, d, float(d));
   }
   return parseResult;
-- 
2.43.0


From ff1dd886db6a26da0776072a2904f6c885a3659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:59 +0000
Subject: [PATCH 52/52] fix: metadata takes time in proportion to the tokens,
 not times their depth

---
 include/json_struct/json_struct.h | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index c3f61ea..b1665e1 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3937,18 +3937,23 @@ static inline std::vector<JsonMeta> metaForTokens(const JsonTokens &tokens)
   std::vector<JsonMeta> meta;
   meta.reserve(tokens.data.size() / 4);
   std::vector<size_t> parent;
+  // What a container has inside is known when it ends; its parent then has it too
+  auto end_container = [&meta, &parent](size_t end) {
+    JsonMeta &ended = meta[parent.back()];
+    ended.size = uint32_t(end - ended.position);
+    ended.skip = uint32_t(meta.size() - parent.back());
+    parent.pop_back();
+    if (ended.has_data && parent.size())
+      meta[parent.back()].has_data = true;
+  };
   for (size_t i = 0; i < tokens.data.size(); i++)
   {
-    for (size_t parent_index : parent)
-    {
-      meta[parent_index].size++;
-    }
     const JS::Token &token = tokens.data.at(i);
     if (token.value_type == Type::ArrayEnd || token.value_type == Type::ObjectEnd)
     {
       assert(parent.size());
       assert(meta[parent.back()].is_array == (token.value_type == Type::ArrayEnd));
-      parent.pop_back();
+      end_container(i + 1);
     }
     else
     {
@@ -3960,22 +3965,18 @@ static inline std::vector<JsonMeta> metaForTokens(const JsonTokens &tokens)
     {
       if (parent.size())
         meta[parent.back()].complex_children++;
-      for (size_t parent_index : parent)
-      {
-        meta[parent_index].skip++;
-      }
       meta.push_back(JsonMeta(i, token.value_type == Type::ArrayStart));
       parent.push_back(meta.size() - 1);
     }
     else if (token.value_type != JS::Type::ArrayEnd && token.value_type != JS::Type::ObjectEnd)
     {
-      for (size_t parent_index : parent)
-      {
-        meta[parent_index].has_data = true;
-      }
+      if (parent.size())
+        meta[parent.back()].has_data = true;
     }
   }
   assert(!parent.size()); // This assert may be triggered when JSON is invalid (e.g. when creating a DiffContext).
+  while (parent.size())
+    end_container(tokens.data.size());
   return meta;
 }
 
-- 
2.43.0


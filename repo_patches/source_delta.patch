From 70eabeed0b09c8859b48a219064b61df29c61fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 01/14] fix: carry rounding overflow of mantissa to the
 exponent (0.99999999999999999 was parsed as 0.5)

---
 include/floaxie/diy_fp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 0a643f4..a2158b7 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -227,7 +227,7 @@ namespace floaxie
 			parts <<= mantissa_bit_size;
 
 			const auto& round(round_up(f, shift_amount));
-			parts |= ((f >> shift_amount) + round.value) & mantissa_mask;
+			parts += ((f >> shift_amount) & mantissa_mask) + round.value; // let the carry go to the exponent
 
 			ret.value = type_punning_cast<FloatType>(parts);
 			ret.is_accurate = round.is_accurate;
-- 
2.43.0


From 280bb43a3b7db8c34a225e6ef8cbd23c47dc4b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 02/14] fix: detect overflow up to the whole width of
 normalized mantissa (2e308 was parsed as NaN with success status)

---
 include/floaxie/diy_fp.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index a2158b7..ce3519a 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -203,7 +203,7 @@ namespace floaxie
 
 			const auto f(m_f);
 
-			if (m_e >= std::numeric_limits<FloatType>::max_exponent)
+			if (m_e + int(my_mantissa_size) > std::numeric_limits<FloatType>::max_exponent)
 			{
 				ret.value = huge_value<FloatType>();
 				ret.status = conversion_status::overflow;
@@ -232,6 +232,9 @@ namespace floaxie
 			ret.value = type_punning_cast<FloatType>(parts);
 			ret.is_accurate = round.is_accurate;
 
+			if (ret.value == huge_value<FloatType>())
+				ret.status = conversion_status::overflow;
+
 			return ret;
 		}
 
-- 
2.43.0


From 43639cc64b76587465cf8aaca315bd11c7910471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 03/14] fix: keep sign of values out of the range of powers of
 ten (-1e500 was parsed as +inf)

---
 include/floaxie/krosh.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index c002459..359eb36 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -575,6 +575,9 @@ namespace floaxie
 						ret.status = conversion_status::overflow;
 					}
 
+					if (!mp.sign)
+						ret.value = -ret.value;
+
 					ret.str_end = ep.str_end;
 					ret.is_accurate = true;
 
-- 
2.43.0


From 5e89955dcd688c26bd40949b3d1b476a8e715a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 04/14] fix: don't flush to zero values not less than a half of
 the minimum denormal (4.9e-324, 8.05086744e-43f)

---
 include/floaxie/diy_fp.h | 2 ++
 include/floaxie/krosh.h  | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index ce3519a..27ede64 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -214,6 +214,8 @@ namespace floaxie
 			{
 				ret.value = FloatType(0);
 				ret.status = conversion_status::underflow;
+				// can't tell, if it's more than a half of the minimum denormal value
+				ret.is_accurate = m_e + int(my_mantissa_size) < std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - 2;
 				return ret;
 			}
 
diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 359eb36..deae7f1 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -579,7 +579,8 @@ namespace floaxie
 						ret.value = -ret.value;
 
 					ret.str_end = ep.str_end;
-					ret.is_accurate = true;
+					// mantissa might be big enough to compensate the lack of decimal exponent
+					ret.is_accurate = b1 || mp.K < powers_ten<FloatType>::boundaries.first - static_cast<int>(decimal_q<FloatType>);
 
 					return ret;
 				}
-- 
2.43.0


From cb8825cd8456d2c5fe2c4dd74ee9f5becb05edc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 05/14] fix: consider rounding unsure within the error of the
 parsed mantissa (9.0110938479372543653e-297 was rounded incorrectly)

---
 include/floaxie/diy_fp.h | 10 ++++++++--
 include/floaxie/krosh.h  | 22 ++++++++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 27ede64..f9ea060 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -181,9 +181,13 @@ namespace floaxie
 		 * and the whole `diy_fp` value is normalized, otherwise the behaviour is
 		 * undefined.
 		 *
+		 * \param error maximum possible error of the current mantissa value in
+		 * units in the last place. If the error can affect the direction of
+		 * rounding, the conversion isn't treated as accurate.
+		 *
 		 * \return result structure with floating point value of the specified type.
 		 */
-		downsample_result downsample()
+		downsample_result downsample(mantissa_storage_type error = 0)
 		{
 			downsample_result ret;
 
@@ -232,7 +236,9 @@ namespace floaxie
 			parts += ((f >> shift_amount) & mantissa_mask) + round.value; // let the carry go to the exponent
 
 			ret.value = type_punning_cast<FloatType>(parts);
-			ret.is_accurate = round.is_accurate;
+			const mantissa_storage_type half(raised_bit<mantissa_storage_type>(shift_amount - 1));
+			const mantissa_storage_type tail(f & mask<mantissa_storage_type>(shift_amount));
+			ret.is_accurate = round.is_accurate && (tail > half ? tail - half : half - tail) > error;
 
 			if (ret.value == huge_value<FloatType>())
 				ret.status = conversion_status::overflow;
diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index deae7f1..66c2292 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -48,6 +48,14 @@ namespace floaxie
 	/** \brief Maximum number of decimal digits in the exponent value. */
 	constexpr std::size_t exponent_decimal_digits(3);
 
+	/** \brief Maximum error of multiplication by cached power (in ULPs). */
+	constexpr unsigned int cached_power_error(3);
+
+	/** \brief Maximum error of the result, when not all the digits of decimal
+	 * mantissa fit into the parsed value (in ULPs).
+	 */
+	constexpr unsigned int truncation_error(12);
+
 	/** \brief Tries to find and eat NaN representation in one of two forms.
 	 *
 	 * Searches for either "NAN" or "NAN(<character sequence>)" form of NaN
@@ -186,7 +194,7 @@ namespace floaxie
 	template<typename FloatType, typename CharType> struct digit_parse_result
 	{
 		/** \brief Pre-initializes members to sane values. */
-		digit_parse_result() : value(), K(0), str_end(nullptr), frac(0), special(), sign(true) { }
+		digit_parse_result() : value(), K(0), str_end(nullptr), frac(0), truncated(false), special(), sign(true) { }
 
 		/** \brief Parsed mantissa value. */
 		typename diy_fp<FloatType>::mantissa_storage_type value;
@@ -202,6 +210,10 @@ namespace floaxie
 		/** \brief Binary numerator of fractional part, to help correct rounding. */
 		unsigned char frac;
 
+		/** \brief Flag indicating that some of significant digits didn't fit
+		 * into the mantissa value. */
+		bool truncated;
+
 		/** \brief Flag of special value possibly occured. */
 		speciality special;
 
@@ -302,6 +314,7 @@ namespace floaxie
 						ret.frac = convert_numerator<fraction_decimal_digits, fraction_binary_digits>(tail);
 
 						frac_calculated = true;
+						ret.truncated = true;
 					}
 
 					pow_gain += !dot_set;
@@ -387,6 +400,10 @@ namespace floaxie
 		/** \brief Pointer to the memory after the parsed part of the buffer. */
 		const CharType* str_end;
 
+		/** \brief Flag indicating that some of significant digits didn't fit
+		 * into the mantissa value. */
+		bool truncated;
+
 		/** \brief Flag of special value. */
 		speciality special;
 
@@ -419,6 +436,7 @@ namespace floaxie
 		ret.special = digits_parts.special;
 		ret.str_end = digits_parts.str_end;
 		ret.sign = digits_parts.sign;
+		ret.truncated = digits_parts.truncated;
 
 		if (digits_parts.special == speciality::no)
 		{
@@ -587,7 +605,7 @@ namespace floaxie
 			}
 
 			w.normalize();
-			const auto& v(w.downsample());
+			const auto& v(w.downsample(mp.truncated ? truncation_error : mp.K ? cached_power_error : 0));
 			ret.value = v.value;
 			ret.str_end = ep.str_end;
 			ret.is_accurate = v.is_accurate;
-- 
2.43.0


From b7b7b8d14859155bee8293eb54174eb362556fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 06/14] fix: parse exponent part by its own rules (1e10000 read
 out of bounds, 1e5.5 and 1e- were misparsed)

---
 include/floaxie/krosh.h | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 66c2292..7139d01 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -45,8 +45,10 @@ namespace floaxie
 	/** \brief Maximum length of input string (2 KB). */
 	constexpr std::size_t maximum_offset = 2048;
 
-	/** \brief Maximum number of decimal digits in the exponent value. */
-	constexpr std::size_t exponent_decimal_digits(3);
+	/** \brief Value of exponent, starting from which further digits of it are
+	 * ignored (it's beyond any range even in case of the longest mantissa).
+	 */
+	constexpr int maximum_exponent(100000);
 
 	/** \brief Maximum error of multiplication by cached power (in ULPs). */
 	constexpr unsigned int cached_power_error(3);
@@ -496,23 +498,30 @@ namespace floaxie
 	template<typename CharType> inline exponent_parse_result<CharType> parse_exponent(const CharType* str)
 	{
 		exponent_parse_result<CharType> ret;
-		if (*str != 'e' && *str != 'E')
-		{
-			ret.value = 0;
-			ret.str_end = str;
-		}
-		else
+
+		// exponent part without digits is not a part of the value
+		ret.value = 0;
+		ret.str_end = str;
+
+		if (*str == 'e' || *str == 'E')
 		{
 			++str;
 
-			const auto& digit_parts(parse_digits<float>(str));
+			const bool negative(*str == '-');
 
-			ret.value = digit_parts.value * seq_pow<int, 10, exponent_decimal_digits>(digit_parts.K);
+			if (*str == '-' || *str == '+')
+				++str;
 
-			if (!digit_parts.sign)
-				ret.value = -ret.value;
+			for (; *str >= '0' && *str <= '9'; ++str)
+			{
+				if (ret.value < maximum_exponent)
+					ret.value = ret.value * 10 + (*str - '0');
 
-			ret.str_end = digit_parts.str_end;
+				ret.str_end = str + 1;
+			}
+
+			if (negative)
+				ret.value = -ret.value;
 		}
 
 		return ret;
-- 
2.43.0


From 6291555e3cf278b649295541b088ff34c17a75a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 07/14] fix: don't consume characters, if there's no value
 (sign, decimal point, 'n' or 'i' alone)

---
 include/floaxie/krosh.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 7139d01..8941193 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -254,6 +254,7 @@ namespace floaxie
 
 		bool dot_set(false);
 		bool sign_set(false);
+		bool digit_set(false);
 		bool frac_calculated(false);
 		std::size_t pow_gain(0);
 		std::size_t zero_substring_length(0), fraction_digits_count(0);
@@ -267,6 +268,8 @@ namespace floaxie
 			switch (c)
 			{
 			case '0':
+				digit_set = true;
+
 				if (!parsed_digits.empty() || dot_set)
 				{
 					++zero_substring_length;
@@ -283,6 +286,8 @@ namespace floaxie
 			case '7':
 			case '8':
 			case '9':
+				digit_set = true;
+
 				if (zero_substring_length && parsed_digits.size() < kappa)
 				{
 					const std::size_t spare_digits { kappa - parsed_digits.size() };
@@ -380,7 +385,8 @@ namespace floaxie
 		for (auto rit = parsed_digits.rbegin(); rit != parsed_digits.rend(); ++rit)
 			ret.value += (*rit) * seq_pow<typename diy_fp<FloatType>::mantissa_storage_type, 10, decimal_q<FloatType>>(pow++);
 
-		ret.str_end = str + (pos - 1);
+		// sign, decimal point or a part of special value's name alone is not a value
+		ret.str_end = digit_set || ret.special != speciality::no ? str + (pos - 1) : str;
 		ret.K = pow_gain - fraction_digits_count;
 
 		return ret;
-- 
2.43.0


From c3bb8cceb57ed813e2230317a77036e57a9a9b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 08/14] fix: consume exponent part of zero value (0e5, 0.0e-1)

---
 include/floaxie/krosh.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 8941193..713a23c 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -644,6 +644,10 @@ namespace floaxie
 			}
 
 			ret.str_end = mp.str_end;
+
+			if (mp.special == speciality::no && mp.str_end != str)
+				ret.str_end = parse_exponent(mp.str_end).str_end;
+
 			ret.is_accurate = true;
 			ret.status = conversion_status::success;
 		}
-- 
2.43.0


From 0568bfd4ecaaa44687692ffe17e758211f0e1675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 09/14] fix: match names of special values independently of
 current locale (infinity wasn't fully matched in Turkish one)

---
 include/floaxie/krosh.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 713a23c..19ceff5 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -18,7 +18,7 @@
 #define FLOAXIE_CROSH_H
 
 #include <vector>
-#include <locale>
+#include <array>
 #include <cstddef>
 #include <cmath>
 #include <cassert>
@@ -58,6 +58,17 @@ namespace floaxie
 	 */
 	constexpr unsigned int truncation_error(12);
 
+	/** \brief Converts ASCII letter to lower case independently of the locale.
+	 *
+	 * Any other character is returned unchanged.
+	 *
+	 * \tparam CharType character type (typically `char` or `wchar_t`) used.
+	 */
+	template<typename CharType> constexpr CharType ascii_lower(CharType c) noexcept
+	{
+		return c >= 'A' && c <= 'Z' ? static_cast<CharType>(c - 'A' + 'a') : c;
+	}
+
 	/** \brief Tries to find and eat NaN representation in one of two forms.
 	 *
 	 * Searches for either "NAN" or "NAN(<character sequence>)" form of NaN
@@ -84,7 +95,7 @@ namespace floaxie
 				do
 					++cp;
 				while ((*cp >= '0' && *cp <= '9') ||
-					   (std::tolower(*cp, std::locale()) >= 'a' && std::tolower(*cp, std::locale()) <= 'z') ||
+					   (ascii_lower(*cp) >= 'a' && ascii_lower(*cp) <= 'z') ||
 						*cp == '_');
 
 				if (*cp == ')')
@@ -121,7 +132,7 @@ namespace floaxie
 				const std::array<CharType, 4> suffix {{ 'n', 'i', 't', 'y' }};
 				auto it = suffix.cbegin();
 
-				while (it != suffix.cend() && std::tolower(*cp, std::locale()) == *it)
+				while (it != suffix.cend() && ascii_lower(*cp) == *it)
 				{
 					++cp;
 					++it;
-- 
2.43.0


From 6fde775f487551c75068add44df44fba6a6084fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 10/14] fix: let std::bad_alloc leave parse_digits() instead of
 terminating the program

---
 include/floaxie/krosh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 19ceff5..6254855 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -254,7 +254,7 @@ namespace floaxie
 	 * \return `digit_parse_result` with the parsing results.
 	 */
 	template<typename FloatType, typename CharType>
-	inline digit_parse_result<FloatType, CharType> parse_digits(const CharType* str) noexcept
+	inline digit_parse_result<FloatType, CharType> parse_digits(const CharType* str)
 	{
 		digit_parse_result<FloatType, CharType> ret;
 
-- 
2.43.0


From 8e19326be1ca58ad9494de8729e8d907cd36387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 11/14] fix: don't report stale errno value as the status of
 fallback conversion

---
 include/floaxie/atof.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/floaxie/atof.h b/include/floaxie/atof.h
index 4181536..065a35f 100644
--- a/include/floaxie/atof.h
+++ b/include/floaxie/atof.h
@@ -17,6 +17,7 @@
 #ifndef FLOAXIE_ATOF_H
 #define FLOAXIE_ATOF_H
 
+#include <cerrno>
 #include <string>
 
 #include <floaxie/krosh.h>
@@ -112,9 +113,16 @@ namespace floaxie
 			}
 			else
 			{
+				// don't treat stale `errno` value as the result of this conversion
+				const int saved_errno(errno);
+				errno = 0;
+
 				result.value = fallback_func(str, str_end);
 				result.status = check_errno(result.value);
 
+				if (errno == 0)
+					errno = saved_errno;
+
 				return result;
 			}
 		}
-- 
2.43.0


From 69cee94fe08d2c071869a1028416f78cc44e3e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 12/14] fix: don't report denormal result of fallback
 conversion as overflow

---
 include/floaxie/default_fallback.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index bd305ef..651e5af 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -17,8 +17,11 @@
 #ifndef FLOAXIE_DEFAULT_FALLBACK_H
 #define FLOAXIE_DEFAULT_FALLBACK_H
 
+#include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cwchar>
+#include <limits>
 
 #include <floaxie/conversion_status.h>
 
@@ -87,7 +90,8 @@ namespace floaxie
 		if (errno != ERANGE)
 			return conversion_status::success;
 
-		return returned_value ? conversion_status::overflow : conversion_status::underflow;
+		// denormals (even if rounded up to the minimum normal) are reported with `ERANGE` as well
+		return std::abs(returned_value) <= std::numeric_limits<FloatType>::min() ? conversion_status::underflow : conversion_status::overflow;
 	}
 }
 
-- 
2.43.0


From d680516376f969b22da276432c5ed203d9c94eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 13/14] fix: define memory wrappers for any character type
 (to_u16string() and to_u32string() failed to link)

---
 include/floaxie/memwrap.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/floaxie/memwrap.h b/include/floaxie/memwrap.h
index 65d0c66..bc0322b 100644
--- a/include/floaxie/memwrap.h
+++ b/include/floaxie/memwrap.h
@@ -19,6 +19,7 @@
 
 #include <cstring>
 #include <cwchar>
+#include <string>
 
 namespace floaxie
 {
@@ -28,7 +29,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		*/
-		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count);
+		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count)
+		{
+			return std::char_traits<CharType>::assign(dest, count, ch);
+		}
 
 		template<> inline char* memset(char* dest, char ch, std::size_t count)
 		{
@@ -44,7 +48,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		 */
-		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count);
+		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count)
+		{
+			return std::char_traits<CharType>::move(dest, src, count);
+		}
 
 		template<> inline char* memmove(char* dest, const char* src, std::size_t count)
 		{
-- 
2.43.0


From cf09c5cf3469d14f089a849928ed2cea40e2d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 14/14] fix: make default fallback conversion independent of
 the current locale (its inputs were cut at '.' in de_DE)

---
 include/floaxie/default_fallback.h | 61 ++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index 651e5af..ebff74d 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -23,10 +23,47 @@
 #include <cwchar>
 #include <limits>
 
+#if defined(__GLIBC__) || defined(__APPLE__) || defined(__FreeBSD__)
+#include <locale.h>
+#ifndef __GLIBC__
+#include <xlocale.h>
+#endif
+#define FLOAXIE_HAS_XLOCALE
+#endif
+
 #include <floaxie/conversion_status.h>
 
 namespace floaxie
 {
+#ifdef FLOAXIE_HAS_XLOCALE
+	/** \brief Owner of "C" locale handle, used to perform conversion in
+	 * independently of the current locale (e.g. of its decimal point).
+	 *
+	 * "C" locale always exists, so obtaining its handle neither allocates nor
+	 * waits in the common implementations.
+	 */
+	class c_locale
+	{
+	public:
+		c_locale() : m_handle(::newlocale(LC_ALL_MASK, "C", static_cast<locale_t>(0))) { }
+
+		~c_locale()
+		{
+			if (m_handle)
+				::freelocale(m_handle);
+		}
+
+		c_locale(const c_locale&) = delete;
+		c_locale& operator=(const c_locale&) = delete;
+
+		/** \brief Returns the handle to be passed to C Standard Library functions. */
+		locale_t get() const noexcept { return m_handle; }
+
+	private:
+		locale_t m_handle;
+	};
+#endif
+
 	/** \brief Function template to wrap C Standard Library floating point
 	 * parse function based on floating-point type and character type (normal
 	 * or wide).
@@ -39,37 +76,61 @@ namespace floaxie
 	/** \brief `float` and `char`. */
 	template<> inline float default_fallback<float, char>(const char* str, char** str_end)
 	{
+#ifdef FLOAXIE_HAS_XLOCALE
+		return ::strtof_l(str, str_end, c_locale().get());
+#else
 		return std::strtof(str, str_end);
+#endif
 	}
 
 	/** \brief `double` and `char`. */
 	template<> inline double default_fallback<double, char>(const char* str, char** str_end)
 	{
+#ifdef FLOAXIE_HAS_XLOCALE
+		return ::strtod_l(str, str_end, c_locale().get());
+#else
 		return std::strtod(str, str_end);
+#endif
 	}
 
 	/** \brief `long double` and `char`. */
 	template<> inline long double default_fallback<long double, char>(const char* str, char** str_end)
 	{
+#ifdef FLOAXIE_HAS_XLOCALE
+		return ::strtold_l(str, str_end, c_locale().get());
+#else
 		return std::strtold(str, str_end);
+#endif
 	}
 
 	/** \brief `float` and `wchar_t`. */
 	template<> inline float default_fallback<float, wchar_t>(const wchar_t* str, wchar_t** str_end)
 	{
+#ifdef FLOAXIE_HAS_XLOCALE
+		return ::wcstof_l(str, str_end, c_locale().get());
+#else
 		return std::wcstof(str, str_end);
+#endif
 	}
 
 	/** \brief `double` and `wchar_t`. */
 	template<> inline double default_fallback<double, wchar_t>(const wchar_t* str, wchar_t** str_end)
 	{
+#ifdef FLOAXIE_HAS_XLOCALE
+		return ::wcstod_l(str, str_end, c_locale().get());
+#else
 		return std::wcstod(str, str_end);
+#endif
 	}
 
 	/** \brief `long double` and `wchar_t`. */
 	template<> inline long double default_fallback<long double, wchar_t>(const wchar_t* str, wchar_t** str_end)
 	{
+#ifdef FLOAXIE_HAS_XLOCALE
+		return ::wcstold_l(str, str_end, c_locale().get());
+#else
 		return std::wcstold(str, str_end);
+#endif
 	}
 
 	/** \brief Returns `conversion_status` based on `errno` value.
-- 
2.43.0


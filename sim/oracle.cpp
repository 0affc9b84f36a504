// Reference models, independent of floaxie: the documented grammar, and the C
// library's correctly rounding conversion in the "C" locale on clean input.
#include "core.h"
#include <cerrno>
#include <cstdlib>
#include <locale.h>

static locale_t cloc;
void oracle_init() { cloc = newlocale(LC_ALL_MASK, "C", static_cast<locale_t>(nullptr)); }

bool bits_nan(std::uint64_t b, int ft)
{
	return ft ? (b & 0x7fffffffffffffffull) > 0x7ff0000000000000ull : (b & 0x7fffffffu) > 0x7f800000u;
}

static std::uint64_t convert(const std::string& s, int ft, bool& range)
{
	errno = 0;
	std::uint64_t r = 0;
	char* e;
	if (ft)
	{
		const double d = strtod_l(s.c_str(), &e, cloc);
		std::memcpy(&r, &d, 8);
	}
	else
	{
		const float f = strtof_l(s.c_str(), &e, cloc);
		std::uint32_t u;
		std::memcpy(&u, &f, 4);
		r = u;
	}
	range = errno == ERANGE;
	errno = 0;
	return r;
}

static bool ieq(const char32_t* s, std::size_t n, std::size_t at, const char* w)
{
	for (std::size_t i = 0; w[i]; ++i)
	{
		if (at + i >= n)
			return false;
		char32_t c = s[at + i];
		if (c >= 'A' && c <= 'Z')
			c += 'a' - 'A';
		if (c != static_cast<char32_t>(w[i]))
			return false;
	}
	return true;
}

static RefRes decode(const char32_t* s, std::size_t n, int ft, bool& range)
{
	RefRes r = RefRes();
	r.statuses = 1;
	range = false;
	std::size_t i = 0;
	bool neg = false;
	auto at = [&](std::size_t k) -> char32_t { return k < n ? s[k] : 0; };
	auto dig = [&](std::size_t k) { return at(k) >= '0' && at(k) <= '9'; };

	if (at(0) == '+' || at(0) == '-')
	{
		neg = at(0) == '-';
		++i;
	}
	const std::uint64_t sign = neg ? (ft ? 1ull << 63 : 1ull << 31) : 0;
	if (ieq(s, n, i, "nan"))
	{
		i += 3;
		if (at(i) == '(')
		{
			std::size_t k = i + 1;
			while (dig(k) || (at(k) >= 'a' && at(k) <= 'z') || (at(k) >= 'A' && at(k) <= 'Z') || at(k) == '_')
				++k;
			if (at(k) == ')')
				i = k + 1;
		}
		r.nan = true;
		r.bits = ft ? 0x7ff8000000000000ull : 0x7fc00000u;
		r.consumed = static_cast<long>(i);
		return r;
	}
	if (ieq(s, n, i, "inf"))
	{
		i += ieq(s, n, i, "infinity") ? 8 : 3;
		r.bits = sign | (ft ? 0x7ff0000000000000ull : 0x7f800000u);
		r.consumed = static_cast<long>(i);
		return r;
	}

	std::string t(neg ? "-" : "");
	bool any = false, nonzero = false;
	while (dig(i)) { any = true; nonzero |= at(i) != '0'; t += static_cast<char>(at(i++)); }
	if (at(i) == '.' && (any || dig(i + 1)))
	{
		t += '.';
		++i;
		while (dig(i)) { any = true; nonzero |= at(i) != '0'; t += static_cast<char>(at(i++)); }
	}
	if (!any)
		return r; // nothing consumed, zero, success
	r.digits = true;
	if (at(i) == 'e' || at(i) == 'E')
	{
		std::size_t k = i + 1;
		std::string x("e");
		if (at(k) == '+' || at(k) == '-')
			x += static_cast<char>(at(k++));
		if (dig(k))
		{
			while (dig(k)) x += static_cast<char>(at(k++));
			t += x;
			i = k;
		}
	}
	r.consumed = static_cast<long>(i);
	r.bits = convert(t, ft, range);
	const std::uint64_t a = ft ? r.bits & ~(1ull << 63) : r.bits & 0x7fffffffu;
	const std::uint64_t inf = ft ? 0x7ff0000000000000ull : 0x7f800000u, mn = ft ? 0x0010000000000000ull : 0x00800000u;
	if (a == inf)
		r.statuses = 4;
	else if (a == 0)
		r.statuses = nonzero ? 2 : 1;
	else
		r.statuses = a <= mn ? 3 : 1;
	return r;
}

RefRes ref_decode(const char32_t* s, std::size_t n, int ft)
{
	bool range;
	return decode(s, n, ft, range);
}

std::uint64_t ref_fallback(int ft, const char32_t* s, std::size_t n, long& consumed, bool& range)
{
	const RefRes r = decode(s, n, ft, range);
	consumed = r.consumed;
	return r.bits;
}

std::string ref_diag(std::uint64_t bits, int exp, int ft)
{
	std::string s("(f = ");
	for (int i = ft ? 63 : 31; i >= 0; --i)
		s += bits >> i & 1 ? '1' : '0';
	return s + ", e = " + std::to_string(exp) + ")";
}

// print_binary() and print_double_presentation()
std::string ref_bits(std::uint64_t bits, int ft, int how)
{
	if (!ft)
		bits &= 0xffffffffu;
	const int n = ft || how == 4 ? 64 : how == 2 ? 32 : 16;
	std::string s;
	for (int i = n - 1; i >= 0; --i)
	{
		s += bits >> i & 1 ? '1' : '0';
		if (ft && how == 2 && (i == 63 || i == 52)) s += ' ';                // sign, exponent, mantissa
		if (how == 4 && (i == 63 || i == 11 || i == 10)) s += ' ';           // hidden bit, mantissa, half, rest
	}
	return s;
}

std::string ref_diag_formatted(std::uint64_t bits, int exp, int ft, int base, bool fancy)
{
	const std::string plain(ref_diag(bits, 0, ft));
	char b[40];
	// what the standard says about operator<<(int): %d with '+', or %o / %X with '#'
	if (base == 10)
		std::snprintf(b, sizeof b, fancy ? "%+d" : "%d", exp);
	else if (base == 16)
		std::snprintf(b, sizeof b, fancy ? "%#X" : "%x", static_cast<unsigned>(exp));
	else
		std::snprintf(b, sizeof b, fancy ? "%#o" : "%o", static_cast<unsigned>(exp));
	return plain.substr(0, plain.size() - 2) + b + ")";
}

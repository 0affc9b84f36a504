// Seeded generation of plans (workload, faults, schedule policy) per property,
// and the text form of plans used by replay files.
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <sstream>

namespace
{
	struct G
	{
		Rng r;
		Plan p;
		SoloFn solo;
		int nextid = 1;
		std::uint64_t idx;
		int focus_ft = -1, focus_ct = -1;
		std::vector<std::pair<std::uint64_t, int>> vals;      // bits, ft
		std::vector<std::pair<std::u32string, int>> texts;    // text, ft
		std::map<int, SoloRes> est;
		G(std::uint64_t s) : r(s) {}
	};

	std::u32string widen(const std::string& s)
	{
		std::u32string u;
		for (char c : s) u += static_cast<unsigned char>(c);
		return u;
	}

	std::uint64_t dbits(double d) { std::uint64_t u; std::memcpy(&u, &d, 8); return u; }
	std::uint64_t fbits(float f) { std::uint32_t u; std::memcpy(&u, &f, 4); return u; }
	double bdouble(std::uint64_t u) { double d; std::memcpy(&d, &u, 8); return d; }
	float bfloat(std::uint64_t b) { std::uint32_t u = static_cast<std::uint32_t>(b); float f; std::memcpy(&f, &u, 4); return f; }

	std::uint64_t to_ft(double d, int ft) { return ft ? dbits(d) : fbits(static_cast<float>(d)); }

	std::uint64_t gen_bits(Rng& r, int ft, bool finite = false)
	{
		const int mb = ft ? 52 : 23;
		const std::uint64_t mm = (1ull << mb) - 1, em = ft ? 0x7ff : 0xff;
		const std::uint64_t sign = r.chance(1, 3) ? (ft ? 1ull << 63 : 1ull << 31) : 0;
		std::uint64_t b;
		switch (r.below(18))
		{
		case 0: case 1: case 2: // anything
			b = (r.below(em) << mb) | (r.next() & mm);
			break;
		case 3: // few mantissa bits
		{
			std::uint64_t m = 0;
			for (int i = r.range(0, 3); i > 0; --i) m |= 1ull << r.below(mb);
			b = (r.below(em) << mb) | m;
			break;
		}
		case 4: // power of two and its neighbours
			b = ((1 + r.below(em - 1)) << mb) + r.below(5) - 2;
			break;
		case 5: // small integers
			b = to_ft(static_cast<double>(r.below(r.chance(1, 2) ? 300 : 100000000)), ft) ;
			break;
		case 6: case 7: // short decimals
		{
			char t[40];
			snprintf(t, sizeof t, "%llue%d", static_cast<unsigned long long>(r.below(r.chance(1, 2) ? 100 : 1000000)), ft ? r.range(-330, 305) : r.range(-50, 34));
			b = ft ? dbits(strtod(t, nullptr)) : fbits(strtof(t, nullptr));
			break;
		}
		case 8: // short decimals around one
		{
			char t[40];
			snprintf(t, sizeof t, "%llue%d", static_cast<unsigned long long>(r.below(1000000)), r.range(-22, 20));
			b = ft ? dbits(strtod(t, nullptr)) : fbits(strtof(t, nullptr));
			break;
		}
		case 9: // powers of ten and neighbours
		{
			char t[40];
			snprintf(t, sizeof t, "1e%d", ft ? r.range(-323, 308) : r.range(-45, 38));
			b = (ft ? dbits(strtod(t, nullptr)) : fbits(strtof(t, nullptr))) + r.below(3) - 1;
			if ((b >> mb) > em - 1) b = 1;
			break;
		}
		case 10: // subnormals
			b = r.chance(1, 3) ? 1 + r.below(64) : (r.next() & mm) >> r.below(mb);
			break;
		case 11: // edges
		{
			const std::uint64_t e[] = {0, 1, mm, mm + 1, mm + 2, (em << mb) - 1, (em << mb) - 2, ((em - 1) << mb), 1ull << mb, 2};
			b = e[r.below(sizeof e / sizeof *e)];
			break;
		}
		case 12: // large integers, all notations' limits
		{
			char t[60];
			const int k = r.range(1, 22);
			std::string s;
			for (int i = 0; i < k; ++i) s += r.chance(1, 3) ? '9' : r.chance(1, 3) ? '0' : static_cast<char>('0' + r.below(10));
			snprintf(t, sizeof t, "%s", s.c_str());
			b = ft ? dbits(strtod(t, nullptr)) : fbits(strtof(t, nullptr));
			break;
		}
		case 13: // runs of nines / ones below a power of ten
		{
			std::string s = std::string(r.chance(1, 2) ? "0." : "");
			s += std::string(r.range(1, 20), "90156"[r.below(5)]) + "e" + std::to_string(r.range(-30, 30));
			b = ft ? dbits(strtod(s.c_str(), nullptr)) : fbits(strtof(s.c_str(), nullptr));
			break;
		}
		case 14: // float values as doubles, halves
			b = ft ? dbits(bfloat(r.next() & 0x7f7fffff)) : fbits(static_cast<float>(r.below(1 << 20)) / 1024);
			break;
		case 15:
			if (!finite)
			{
				const std::uint64_t e[] = {em << mb, (em << mb) | 1ull << (mb - 1), (em << mb) | 1, (em << mb) | mm, 0};
				b = e[r.below(5)];
				break;
			}
			// fall through
		case 16: // exponents of notation switch 1e-17..1e17
			b = to_ft(std::ldexp(1.0 + r.unit(), r.range(-60, 60)), ft);
			break;
		default: // long mantissas with three-digit exponents
			b = (((r.chance(1, 2) ? 0 : em - (ft ? 700 : 30)) + r.below(ft ? 690 : 25)) << mb) | (r.next() & mm);
			break;
		}
		b &= ft ? ~(1ull << 63) : 0x7fffffffull;
		if (finite && (b >> mb) >= em)
			b = 1;
		return b | sign;
	}

	// text of (or next to) the middle between two adjacent values: forces the fallback
	std::string gen_mid(Rng& r, int ft, bool subnormal = false)
	{
		static char t[1400];
		std::string s;
		const bool near = r.chance(1, 3); // as close to the middle as the first digits taken into account tell
		std::uint64_t b = gen_bits(r, ft, true) & (ft ? ~(1ull << 63) : 0x7fffffffull);
		const std::uint64_t sub = subnormal ? r.next() >> (ft ? r.range(12, 62) : r.range(41, 62)) : 0;
		if (ft)
		{
			if (r.chance(1, 2)) b = dbits(std::ldexp(1 + r.unit(), r.range(-80, 80)));
			if (subnormal) b = sub;
			const double d = bdouble(b), n = bdouble(b + 1);
			const long double m = std::isinf(n) ? static_cast<long double>(d) : (static_cast<long double>(d) + static_cast<long double>(n)) / 2;
			snprintf(t, sizeof t, "%.*Le", near ? r.range(17, 21) : r.chance(1, 2) ? 780 : r.range(15, 40), m);
		}
		else
		{
			if (r.chance(1, 2)) b = fbits(static_cast<float>(std::ldexp(1 + r.unit(), r.range(-40, 40))));
			if (subnormal) b = sub;
			const float d = bfloat(b), n = bfloat(b + 1);
			const double m = std::isinf(n) ? static_cast<double>(d) : (static_cast<double>(d) + static_cast<double>(n)) / 2;
			snprintf(t, sizeof t, "%.*e", near ? r.range(7, 11) : r.chance(1, 2) ? 160 : r.range(7, 25), m);
		}
		s = t;
		const std::size_t e = s.find('e');
		std::string man = s.substr(0, e), ex = s.substr(e);
		while (man.size() > 3 && man.back() == '0') man.pop_back();
		switch (near ? 5 : r.below(6))
		{
		case 0: man += "1"; break;
		case 1: man += std::string(r.range(1, 60), '0') + "1"; break;
		case 2: if (man.back() > '0' && man.back() <= '9') --man.back(); man += "9999"; break;
		default: break;
		}
		return man + ex;
	}

	std::string case_mix(Rng& r, std::string s)
	{
		const int m = r.range(0, 3);
		for (char& c : s)
			if (c >= 'a' && c <= 'z' && (m == 1 || (m == 2 && r.chance(1, 2)))) c = static_cast<char>(c - 32);
		return s;
	}

	std::string gen_number(Rng& r, int ft)
	{
		std::string s;
		switch (r.below(10))
		{
		case 0: // special values
		{
			static const char* const w[] = {"nan", "inf", "infinity", "nan(1)", "nan(abc_1)", "nan()", "infinit", "infi", "nan(", "nan(a", "nan(a b)", "na", "in", "n", "i", "infinityx", "nanx", "nan(_)(", "infinitY", "InF"};
			s = case_mix(r, w[r.below(sizeof w / sizeof *w)]);
			if (r.chance(1, 12)) // long payload
			{
				std::string pl;
				for (int i = r.chance(1, 2) ? r.range(5, 80) : r.range(80, 1900); i > 0; --i) pl += "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"[r.below(63)];
				s = case_mix(r, "nan(") + pl + (r.chance(7, 8) ? ")" : r.chance(1, 2) ? "" : "-)");
			}
			break;
		}
		case 1: case 2:
			s = gen_mid(r, ft);
			break;
		case 3: // range limits
		{
			static const char* const d[] = {"1.7976931348623157", "1.797693134862315", "1.7976931348623158079", "1.79769313486231580793728971405301e308", "2e308", "1.8e308", "1e309", "4.9406564584124654", "4.9e-324", "2.4703282292062327e-324",
				"2.4703282292062328e-324", "2.47e-324", "5e-324", "3e-324", "1e-323", "2.2250738585072014e-308", "2.2250738585072011e-308", "2.225073858507201e-308", "1e-400", "1e400", "179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347747978"};
			static const char* const f[] = {"3.4028235e38", "3.4028236e38", "3.40282357e38", "3.4028234664e38", "3.5e38", "1e39", "1e-45", "7e-46", "7.006492321624085e-46", "7.0064923216240854e-46", "1.17549435e-38", "1.1754942e-38", "1.4e-45", "2e-45", "1e-50", "1e45", "340282356779733661637539395458142568447", "1e40", "8.05e-43", "1.1754943e-38"};
			s = ft ? d[r.below(sizeof d / sizeof *d)] : f[r.below(sizeof f / sizeof *f)];
			if (r.chance(1, 4)) s.insert(s.find('e') == std::string::npos ? s.size() : s.find('e'), std::string(1, static_cast<char>('0' + r.below(10))));
			if (s.find('e') == std::string::npos && s.size() < 40) s += ft ? (r.chance(1, 2) ? "e308" : "e-324") : "e38";
			break;
		}
		case 4: // printed by another program
		{
			char t[64];
			const std::uint64_t b = gen_bits(r, ft, true);
			snprintf(t, sizeof t, r.chance(1, 2) ? "%.17g" : r.chance(1, 2) ? "%.15g" : "%.9e", ft ? bdouble(b) : static_cast<double>(bfloat(b)));
			s = t;
			if (!s.empty() && s[0] == '-') s.erase(0, 1);
			break;
		}
		default:
		{
			const int cls = static_cast<int>(r.below(20));
			int n = cls < 6 ? r.range(1, 5) : cls < 12 ? r.range(6, 17) : cls < 17 ? r.range(18, 25) : cls < 19 ? r.range(26, 110) : r.chance(2, 3) ? r.range(100, 800) : r.range(800, 2046);
			std::string d;
			const int style = r.range(0, 4);
			for (int i = 0; i < n; ++i)
				d += style == 0 ? '0' + static_cast<char>(r.below(10)) : style == 1 ? "0009"[r.below(4)] : style == 2 ? "9990"[r.below(4)] : style == 3 ? (i == 0 || i == n - 1 ? '1' + static_cast<char>(r.below(9)) : '0') : '0' + static_cast<char>(r.below(10));
			if (r.chance(1, 6)) d = std::string(r.range(1, r.chance(1, 6) ? (r.chance(3, 4) ? 400 : 1900) : 12), '0') + d;
			if (r.chance(1, 6)) d += std::string(r.range(1, r.chance(1, 6) ? (r.chance(3, 4) ? 400 : 1900) : 12), '0');
			int point = -1;
			if (r.chance(2, 3))
			{
				point = static_cast<int>(r.chance(1, 3) ? r.below(3) : r.below(d.size() + 1));
				point = std::min<int>(point, static_cast<int>(d.size()));
				d.insert(point, ".");
			}
			s = d;
			if (r.chance(3, 5))
			{
				const int mag = r.chance(1, 2) ? (ft ? r.range(-345, 312) : r.range(-55, 42)) : r.range(-30, 30);
				int e = mag - (point < 0 ? n : point);
				if (r.chance(1, 2)) // zeros in front of or behind the digits are made up for by the exponent
				{
					const std::size_t lead = s.find_first_of("123456789"), dot = std::min(s.find('.'), s.size());
					if (lead != std::string::npos)
						e = mag - (static_cast<int>(dot) - static_cast<int>(lead));
				}
				switch (r.below(13))
				{
				case 12: s += (e < 0 ? "e-" : r.chance(1, 2) ? "e+" : "e") + std::string(r.chance(1, 2) ? r.range(3, 40) : r.range(40, 900), '0') + std::to_string(e < 0 ? -e : e); break;
				case 0: s += "e" + std::to_string(r.range(-100000, 100000)); break;
				case 1: s += (r.chance(1, 2) ? "e" : "e-") + std::string(r.chance(1, 4) ? r.range(15, 600) : r.range(1, 15), '0' + static_cast<char>(r.below(10))); break;
				case 2: s += e < 0 ? "e-00" + std::to_string(-e) : "e+00" + std::to_string(e); break;
				case 3: s += e < 0 ? "E" + std::to_string(e) : "E+" + std::to_string(e); break;
				default: s += "e" + std::to_string(e); break;
				}
			}
		}
		}
		if (r.chance(1, 4)) s = "-" + s;
		else if (r.chance(1, 12)) s = "+" + s;
		return s;
	}

	void mutate(Rng& r, std::u32string& s, int ct, int n)
	{
		static const char32_t narrow[] = U"0123456789..eeEE++--nNaAiIfFtTyY()_xX ,\xE9\xB0\xFF\x80\x7F\x01";
		static const char32_t utf16[] = U"0123456789..eeEE++--nNaAiIfFtTyY()_xX ,\xE9\xB0\xFF\x130\x12E\x165\x145\x12D\x12B\x16E\x161\x169\x661\x131\xFF11\x2212\x139";
		static const char32_t wide[] = U"0123456789..eeEE++--nNaAiIfFtTyY()_xX ,\xE9\xB0\xFF\x130\x12E\x165\x145\x12D\x12B\x16E\x161\x169\x1FF10\x10030\x1002E\x661\x131\xFF11\x2212\x139";
		const char32_t* al = ct == 0 ? narrow : ct == 2 ? utf16 : wide;
		const std::size_t na = (ct == 0 ? sizeof narrow : ct == 2 ? sizeof utf16 : sizeof wide) / 4 - 1;
		for (int i = 0; i < n; ++i)
		{
			const std::size_t pos = s.empty() ? 0 : r.below(s.size());
			switch (r.below(6))
			{
			case 0: if (!s.empty()) s[pos] = al[r.below(na)]; break;
			case 1: s.insert(pos, 1, al[r.below(na)]); break;
			case 2: s.resize(pos); break;
			case 3: if (!s.empty()) s.erase(pos, 1); break;
			case 4: s += al[r.below(na)]; break;
			case 5: s.insert(pos, s.substr(pos, 1 + r.below(12))); break;
			}
		}
	}

	std::u32string gen_text(Rng& r, int ft, int ct, int garbage_pct)
	{
		std::u32string s = widen(gen_number(r, ft));
		if (r.below(100) < static_cast<std::uint64_t>(garbage_pct))
			mutate(r, s, ct, r.range(1, 3));
		if (s.size() > 3800) s.resize(3800);
		return s;
	}

	// up to the documented maximum of 2 KB
	void lengthen(Rng& r, std::u32string& s)
	{
		std::size_t k = r.below(s.size() + 1);
		for (std::size_t i = 0; i < s.size(); ++i) // next to a digit
			if (s[(k + i) % s.size()] >= '0' && s[(k + i) % s.size()] <= '9')
			{
				k = (k + i) % s.size();
				break;
			}
		const std::size_t n = r.chance(1, 2) ? r.range(60, 400) : r.range(400, 2040);
		std::u32string d(n, U'0' + static_cast<char32_t>(r.below(10)));
		if (r.chance(1, 2))
			for (char32_t& c : d) c = U'0' + static_cast<char32_t>(r.below(10));
		s.insert(k, d);
		if (s.size() > 2047) s.resize(2047);
	}

	// a sibling of a text: hard to tell apart for anything that caches
	std::u32string sibling(Rng& r, std::u32string s)
	{
		if (s.empty()) return s;
		switch (r.below(6))
		{
		case 0: { for (std::size_t k = s.size(); k-- > 0;) if (s[k] >= '0' && s[k] <= '9') { s[k] = '0' + (s[k] - '0' + 1 + r.below(9)) % 10; break; } break; }
		case 1: for (char32_t& c : s) if (c >= '1' && c <= '9') { c = '1' + (c - '1' + 1 + r.below(8)) % 9; break; } break;
		case 2: { std::size_t k = r.below(s.size()); if (s[k] >= '0' && s[k] <= '9') s[k] = '0' + r.below(10); break; }
		case 3: if (s[0] == '-') s.erase(0, 1); else s = U"-" + s; break;
		case 4: s.resize(s.size() - 1 - r.below(std::min<std::size_t>(s.size(), 3))); break;
		case 5: s += U"e-3"[r.below(3)]; break;
		}
		return s;
	}

	int pick_ft(G& g) { return g.focus_ft >= 0 ? g.focus_ft : g.r.chance(2, 3); }
	int pick_ct(G& g, bool print, bool fb)
	{
		if (g.focus_ct >= 0 && (print || fb || g.focus_ct < 2)) return g.focus_ct;
		const int x = static_cast<int>(g.r.below(10));
		return x < 6 ? 0 : x < 8 ? 1 : 2 + (x & 1);
	}

	std::uint64_t pool_value(G& g, int ft)
	{
		if (g.r.chance(3, 4))
			for (int k = 0; k < 4; ++k)
			{
				auto& v = g.vals[g.r.below(g.vals.size())];
				if (v.second == ft)
					return g.r.chance(1, 8) ? v.first ^ (1ull << g.r.below(ft ? 64 : 32)) : v.first;
			}
		return gen_bits(g.r, ft);
	}
	std::u32string pool_text(G& g, int ft, int ct, int garbage)
	{
		if (g.r.chance(3, 4))
			for (int k = 0; k < 4; ++k)
			{
				auto& v = g.texts[g.r.below(g.texts.size())];
				if (v.second == ft)
					return g.r.chance(1, 4) ? sibling(g.r, v.first) : v.first;
			}
		return gen_text(g.r, ft, ct, garbage);
	}

	Op mk_print(G& g, bool str)
	{
		Op o;
		o.id = g.nextid++;
		o.kind = str ? O_PRINTSTR : O_PRINT;
		o.ft = pick_ft(g);
		o.ct = pick_ct(g, true, false);
		o.bits = pool_value(g, o.ft);
		o.endmode = str && g.r.chance(1, 3);
		if (str) // one in twelve prints the bits of the number
		{
			const std::uint64_t h = mix(o.bits ^ 0xB175, static_cast<std::uint64_t>(o.id));
			const int p = g.p.prop;
			if ((h % 12 == 0 || (p == 12 && h % 4)) && p != 5 && p != 9 && p != 10)
				o.endmode = 2 + static_cast<int>(h >> 8) % 3, o.ct = 0;
		}
		o.slot = g.r.range(0, 2);
		return o;
	}
	Op mk_parse(G& g, int garbage, bool fb)
	{
		Op o;
		o.id = g.nextid++;
		o.kind = g.r.chance(1, 5) ? O_PARSESTR : O_PARSE;
		o.ft = pick_ft(g);
		o.fb = fb ? g.r.range(1, 2) : 0;
		if (fb) o.fbend = g.r.range(0, 2);
		o.ct = pick_ct(g, false, true);
		o.txt = pool_text(g, o.ft, o.ct, garbage);
		o.place = g.r.chance(1, 2);
		o.slot = g.r.chance(2, 3) ? 0 : g.r.range(0, 2);
		o.endmode = g.r.chance(1, 6) ? g.r.range(1, 2) : 0;
		if (o.kind == O_PARSESTR) o.endmode = 1;
		return o;
	}
	Op mk_diag(G& g)
	{
		Op o;
		o.id = g.nextid++;
		o.kind = O_DIAG;
		o.ft = g.r.chance(1, 2);
		o.bits = g.r.next() >> g.r.below(64);
		if (!o.ft) o.bits &= 0xffffffffu;
		const int e[] = {0, 1, -1, 7, 999, 1000, -1074, 2147483647, -2147483647 - 1, 12345678};
		o.exp = g.r.chance(1, 2) ? e[g.r.below(10)] : g.r.range(-1100, 1100);
		o.a = static_cast<int>(g.r.below(4));
		if (!o.a && g.r.chance(1, 6)) o.a = 4;
		const std::uint64_t h = mix(o.bits ^ 0x5e77ull, static_cast<std::uint64_t>(static_cast<unsigned>(o.exp)) << 8 | o.a);
		if (o.a == 4) o.a |= (h & 3) << 3;
		if (h >> 2 & 1) // settings of the stream
			o.a |= static_cast<int>(h >> 3 & h >> 11 & 0xff) << 5;
		if ((o.a & 1024) && (h >> 40 & 1)) o.a |= 2048;
		return o;
	}
	Op mk(G& g, int kind)
	{
		Op o;
		o.id = g.nextid++;
		o.kind = kind;
		return o;
	}

	void pools(G& g, int garbage, int nv, int nt, bool want_mid = false)
	{
		for (int i = 0; i < nv; ++i)
		{
			const int ft = pick_ft(g);
			if (!g.vals.empty() && g.r.chance(1, 4))
				g.vals.push_back({g.vals[g.r.below(g.vals.size())].first ^ (g.r.chance(1, 2) ? 1ull : 1ull << g.r.below(32)), ft});
			else
				g.vals.push_back({gen_bits(g.r, ft), ft});
		}
		for (int i = 0; i < nt; ++i)
		{
			const int ft = pick_ft(g);
			if (!g.texts.empty() && g.r.chance(1, 4))
				g.texts.push_back({sibling(g.r, g.texts[g.r.below(g.texts.size())].first), ft});
			else if (want_mid && g.r.chance(2, 3))
				g.texts.push_back({widen((g.r.chance(1, 4) ? "-" : "") + gen_mid(g.r, ft)), ft});
			else
				g.texts.push_back({gen_text(g.r, ft, g.focus_ct >= 0 ? g.focus_ct : 0, garbage), ft});
		}
	}

	// slots have one type each: unify ops of one thread's slot
	void unify_slots(G& g)
	{
		for (auto& t : g.p.threads)
		{
			int ft[3] = {-1, -1, -1}, ct[3] = {-1, -1, -1};
			for (Op& o : t)
				if (o.kind == O_PRINT || (o.kind == O_SEND && !o.b))
				{
					if (ft[o.slot] < 0) { ft[o.slot] = o.ft; ct[o.slot] = o.ct; }
					if (o.ft != ft[o.slot])
					{
						o.ft = ft[o.slot];
						o.bits = gen_bits(g.r, o.ft);
					}
					o.ct = ct[o.slot];
				}
		}
	}

	SoloRes est(G& g, const Op& o)
	{
		auto it = g.est.find(o.id);
		if (it != g.est.end()) return it->second;
		SoloRes s = g.solo(o, g.p.nested);
		g.est[o.id] = s;
		return s;
	}

	// drops ops which do not even complete alone (someone else's business)
	void drop_dead(G& g)
	{
		for (auto& t : g.p.threads)
			t.erase(std::remove_if(t.begin(), t.end(), [&](const Op& o) { return (is_lib(o.kind) || o.kind == O_SEND) && est(g, o).viol; }), t.end());
		for (Op& o : g.p.nested)
			if (is_lib(o.kind) && est(g, o).viol)
			{
				// keep the numbering
				o.kind = O_IDLE;
				o.b = 0;
			}
	}

	std::uint64_t total_steps(G& g)
	{
		std::uint64_t n = 0;
		for (auto& t : g.p.threads)
			for (Op& o : t)
				n += is_lib(o.kind) || o.kind == O_SEND ? est(g, o).steps * o.rep + 3 : 20 + o.b;
		return n;
	}

	bool pick_libop(G& g, int& tid, Op*& op)
	{
		for (int k = 0; k < 20; ++k)
		{
			tid = static_cast<int>(g.r.below(g.p.threads.size()));
			auto& t = g.p.threads[tid];
			if (t.empty()) continue;
			op = &t[g.r.below(t.size())];
			if (is_lib(op->kind)) return true;
		}
		return false;
	}

	void step_fault(G& g, int kind, std::int64_t a = 0, std::int64_t b = 0)
	{
		int tid;
		Op* o;
		if (!pick_libop(g, tid, o)) return;
		Fault f;
		f.kind = kind;
		f.tid = tid;
		f.op = o->id;
		f.at = 1 + g.r.below(est(g, *o).steps * o->rep + 4);
		f.a = a;
		f.b = b;
		g.p.faults.push_back(f);
	}

	void policy(G& g, bool preempt = true)
	{
		Plan& p = g.p;
		p.pol_seed = g.r.next();
		const int x = static_cast<int>(g.r.below(100));
		if (!preempt)
		{
			p.policy = x < 50 ? P_SEQ : P_OPS;
			return;
		}
		if (x < 3) p.policy = P_SEQ;
		else if (x < 8) p.policy = P_OPS;
		else if (x < 28)
		{
			p.policy = P_RAND;
			const int ps[] = {1, 3, 8, 20, 60, 200};
			p.pol_a = ps[g.r.below(6)];
		}
		else if (x < 48)
		{
			p.policy = P_PCT;
			p.pol_a = total_steps(g) << 3 | g.r.below(6);
		}
		else if (x < 55)
		{
			p.policy = P_RR;
			const int q[] = {0, 1, 2, 3, 5, 11, 23};
			p.pol_a = q[g.r.below(7)];
		}
		else if (x < 78)
		{
			p.policy = P_WIN;
			for (int i = g.r.range(1, 6); i > 0; --i)
			{
				int tid;
				Op* o;
				if (pick_libop(g, tid, o))
					p.switches.push_back(Switch{tid, o->id, 1 + g.r.below(est(g, *o).steps * o->rep + 2), -2, 0});
			}
		}
		else
		{
			p.policy = P_SHARED;
			const int ps[] = {20, 100, 500, 1000000};
			p.pol_a = ps[g.r.below(4)];
		}
	}

	void focus(G& g)
	{
		if (g.r.chance(7, 10)) g.focus_ft = g.r.chance(3, 5);
		if (g.r.chance(7, 10))
		{
			const int x = static_cast<int>(g.r.below(10));
			g.focus_ct = x < 6 ? 0 : x < 8 ? 1 : 2 + (x & 1);
		}
	}

	int stale(Rng& r)
	{
		const int e[] = {ERANGE, ERANGE, ERANGE, EDOM, EINTR, ENOMEM, EINVAL, EAGAIN, 0, 0, 0};
		return e[r.below(11)];
	}
}

Plan gen_plan(int prop, std::uint64_t seed, std::uint64_t idx, SoloFn solo)
{
	// four runs share a workload (whose calls alone are run once) but have faults and schedules of their own
	// (where the workload itself is what varies, each run has its own)
	const std::uint64_t workload = prop == 2 || prop == 8 || prop == 12 ? idx : idx / 32 * 8 + idx % 8;
	G g(mix(seed, workload * 16 + static_cast<std::uint64_t>(prop)));
	g.solo = solo;
	auto reseed = [&]() { g.r = Rng(mix(mix(seed, 0x5EED), idx * 16 + static_cast<std::uint64_t>(prop))); };
	g.idx = idx;
	Rng& r = g.r;
	Plan& p = g.p;
	p.prop = prop;
	p.seed = seed;
	p.idx = idx;
	p.fill = mix(seed, idx);

	switch (prop)
	{
	case 1:
	{
		focus(g);
		pools(g, 15, 4, 4, r.chance(1, 3));
		int nt = r.range(2, 5);
		const std::uint64_t crowd = mix(seed ^ 0xC20FD, workload);
		if (crowd % 20 == 0) // many threads with a call or two each
			nt = crowd >> 8 & 3 ? 9 + static_cast<int>(crowd >> 16 & 15) : 9 + static_cast<int>((crowd >> 16) % 70);
		int mode = static_cast<int>(r.below(5)); // 0: prints, 1: parses, else mixed
		const bool duel = crowd % 20 == 2 || crowd % 20 == 3; // all decide how to round next to the middle of two numbers, some of which are subnormal
		if (duel)
		{
			mode = 1;
			if (g.focus_ft < 0 && r.chance(3, 4)) g.focus_ft = r.chance(3, 5);
			g.texts.clear();
			for (int i = 0; i < 8; ++i)
			{
				const int ft = pick_ft(g);
				g.texts.push_back({widen((r.chance(1, 4) ? "-" : "") + gen_mid(r, ft, i % 2)), ft});
			}
		}
		for (int t = 0; t < nt; ++t)
		{
			p.threads.emplace_back();
			for (int i = nt > 8 ? r.range(1, 2) : r.range(2, 5); i > 0; --i)
			{
				Op o;
				const int k = static_cast<int>(r.below(20));
				if (mode == 0 || (mode > 1 && k < 9)) o = mk_print(g, r.chance(1, 3));
				else if (k == 19) o = mk_diag(g);
				else o = mk_parse(g, 15, duel || r.chance(1, 6));
				if (duel && is_lib(o.kind)) o.fb = 1;
				p.threads.back().push_back(o);
			}
		}
		const bool busy = crowd % 20 == 1; // one more thread makes many calls while others are stalled in the middle of theirs
		if (busy)
		{
			const int n = r.range(1, 4);
			for (int i = 0; i < n; ++i)
			{
				Op o = mode == 0 || (mode > 1 && r.chance(1, 2)) ? mk_print(g, r.chance(1, 4)) : mk_parse(g, 15, false);
				if (o.txt.size() > 60) o.txt.resize(60);
				o.slot = 0;
				p.nested.push_back(o);
			}
			Op o = mk(g, O_REPEAT);
			o.slot = n;
			o.b = r.chance(1, 6) ? r.range(300, 1100) : r.range(20, 300);
			o.bits = r.next();
			p.threads.emplace_back(1, o);
		}
		unify_slots(g);
		drop_dead(g);
		if (busy)
			for (const Op& x : p.nested)
				if (!is_lib(x.kind)) { p.threads.back().clear(); break; }
		reseed();
		if (busy) for (int i = r.range(1, 3); i > 0; --i) step_fault(g, F_STALL, 1 << 24);
		if (r.chance(1, 3)) for (int i = r.range(1, 2); i > 0; --i) step_fault(g, F_KILL);
		if (r.chance(2, 5)) for (int i = r.range(1, 3); i > 0; --i) step_fault(g, F_STALL, 1 << r.range(4, 24));
		policy(g);
		break;
	}
	case 2:
	{
		focus(g);
		pools(g, 20, r.range(2, 4), r.range(2, 5), r.chance(1, 2));
		if (mix(seed ^ 0x3A4A, idx) % 250 == 0)
		{
			// many distinct calls, and all of them again
			const int per[] = {70, 140, 300, 300, 600, 1100, 1100, 2100, 4200, 8300};
			const int n = r.range(1, 5), kind = r.range(0, 2);
			for (int i = 0; i < n; ++i)
			{
				Op o = kind == 0 || (kind == 2 && i % 2) ? mk_print(g, r.chance(1, 4)) : mk_parse(g, 5, false);
				if (o.txt.size() > 60) o.txt.resize(60);
				o.slot = 0;
				p.nested.push_back(o);
			}
			for (Op& o : p.nested) if (est(g, o).viol) { o.txt = U"1"; g.est.erase(o.id); }
			Op o = mk(g, O_REPEAT);
			o.slot = n;
			o.exp = per[r.below(10)];
			o.b = o.exp * 2 + r.range(0, 20);
			o.bits = r.next();
			o.fbend = 1;
			p.threads.push_back({o});
			drop_dead(g);
			for (const Op& x : p.nested)
				if (!is_lib(x.kind)) p.threads[0].clear();
			p.policy = P_SEQ;
			break;
		}
		if (r.chance(1, 400))
		{
			// marathon
			const int n = r.range(3, 6);
			g.focus_ft = r.chance(1, 2);
			g.focus_ct = 0;
			for (int i = 0; i < n; ++i)
			{
				Op o = i % 2 ? mk_parse(g, 10, false) : mk_print(g, r.chance(1, 4));
				if (o.txt.size() > 40) o.txt.resize(40);
				o.ct = 0;
				o.slot = 0;
				p.nested.push_back(o);
			}
			for (Op& o : p.nested) if (est(g, o).viol) { o.txt = U"1"; g.est.erase(o.id); }
			Op o = mk(g, O_REPEAT);
			o.a = 0;
			o.slot = n;
			o.b = r.chance(1, 4) ? 67000 : r.range(200, 6000);
			o.bits = r.next();
			p.threads.push_back({o});
			for (int i = 0; i < 4; ++i) p.threads[0].push_back(i % 2 ? mk_parse(g, 10, false) : mk_print(g, true));
			drop_dead(g);
			p.policy = P_SEQ;
			break;
		}
		const int nt = r.chance(2, 3) ? 1 : r.range(2, 3);
		for (int t = 0; t < nt; ++t)
		{
			p.threads.emplace_back();
			for (int i = r.range(5, 18); i > 0; --i)
			{
				Op o;
				if (r.chance(2, 5)) o = mk_print(g, r.chance(1, 3));
				else
				{
					o = mk_parse(g, 20, r.chance(1, 4));
					o.place = r.chance(4, 5);
					if (o.fb)
					{
						const int sc[] = {FB_EXACT, FB_EXACT, FB_THROW, FB_RANGE, FB_EINVAL, FB_ODD};
						o.fbs = sc[r.below(6)];
						o.fbval = gen_bits(r, o.ft, true);
						o.fbend = r.range(0, 3);
						o.exp = 0;
					}
				}
				o.err = stale(r);
				p.threads.back().push_back(o);
				if (r.chance(1, 4)) // the very same call again, now or later
				{
					o.id = g.nextid++;
					o.err = stale(r);
					auto& v = p.threads.back();
					v.insert(v.begin() + r.below(v.size() + 1), o);
				}
			}
		}
		unify_slots(g);
		drop_dead(g);
		reseed();
		if (r.chance(1, 3))
			for (int i = r.range(1, 3); i > 0; --i)
			{
				int tid;
				Op* o;
				if (pick_libop(g, tid, o) && est(g, *o).allocs)
					p.faults.push_back(Fault{F_OOM, tid, o->id, 1 + r.below(est(g, *o).allocs), r.chance(1, 2), 0});
			}
		policy(g, nt > 1);
		break;
	}
	case 3:
	{
		focus(g);
		pools(g, 20, 4, 5, r.chance(3, 4));
		for (auto& t : g.texts)
			if (r.chance(1, 4))
			{
				static const char* const w[] = {"infinity", "INFINITY", "-Infinity", "nan", "NAN(I)", "1,5", "1.234.567,5", "1.5", "-0.25e1", "i", "inf\xB9nity", "1e5,7", "9007199254740993", "1.00000005960464477539062", "9007199254740993.5"};
				t.first = widen(w[r.below(sizeof w / sizeof *w)]);
			}
		const int nt = r.range(1, 3);
		for (int t = 0; t < nt; ++t)
		{
			p.threads.emplace_back();
			if (r.chance(1, 2)) { Op o = mk(g, O_USELOC); o.a = static_cast<int>(r.below(N_LOC + 1)); p.threads.back().push_back(o); }
			if (r.chance(1, 2)) { Op o = mk(g, O_SETLOC); o.a = static_cast<int>(r.below(N_LOC)); p.threads.back().push_back(o); }
			if (r.chance(1, 2)) { Op o = mk(g, O_CPPLOC); o.a = static_cast<int>(r.below(N_CPPLOC)); p.threads.back().push_back(o); }
			for (int i = r.range(2, 5); i > 0; --i)
				p.threads.back().push_back(r.chance(1, 4) ? mk_print(g, r.chance(1, 3)) : mk_parse(g, 20, false));
		}
		for (int t = r.range(0, 2); t > 0; --t)
		{
			p.threads.emplace_back();
			for (int i = r.range(2, 8); i > 0; --i)
			{
				const int ks[] = {O_SETLOC, O_CPPLOC, O_USELOC, O_OBSERVE, O_OBSERVE};
				Op o = mk(g, ks[r.below(5)]);
				o.a = static_cast<int>(r.below(o.kind == O_SETLOC ? N_LOC : N_CPPLOC));
				p.threads.back().push_back(o);
				if (r.chance(1, 2)) { Op w = mk(g, O_IDLE); w.b = r.range(1, 300); p.threads.back().push_back(w); }
			}
		}
		unify_slots(g);
		drop_dead(g);
		reseed();
		if (r.chance(2, 3)) for (int i = r.range(1, 4); i > 0; --i) step_fault(g, F_LOCALE, r.below(3), r.below(6));
		if (r.chance(1, 5)) step_fault(g, F_STALL, 1 << r.range(4, 20));
		policy(g);
		break;
	}
	case 4:
	{
		focus(g);
		pools(g, 20, 3, 4, r.chance(1, 2));
		const int nt = r.chance(1, 2) ? 1 : r.range(2, 3);
		for (int t = 0; t < nt; ++t)
		{
			p.threads.emplace_back();
			for (int i = r.range(2, 5); i > 0; --i)
			{
				const int k = static_cast<int>(r.below(20));
				Op o = k < 8 ? mk_print(g, k < 7) : mk_parse(g, 20, r.chance(1, 5));
				if (r.chance(2, 3)) o.rep = 4;
				o.err = stale(r);
				p.threads.back().push_back(o);
			}
		}
		unify_slots(g);
		drop_dead(g);
		reseed();
		for (int t = 0; t < nt; ++t)
			for (Op& o : p.threads[t])
			{
				if (!r.chance(3, 4)) continue;
				const std::uint32_t n = est(g, o).allocs;
				p.faults.push_back(Fault{F_OOM, t, o.id, 1 + r.below(n + (r.chance(1, 4) ? 1 : 0) + (n == 0)), r.chance(1, 2), 0});
				if (r.chance(1, 6)) p.faults.push_back(Fault{F_OOM, t, o.id, 1 + r.below(n + 2), 0, 0});
				if (nt == 1 && r.chance(1, 10))
				{
					o.newh = 2;
					o.exp = -1;
				}
			}
		if (r.chance(1, 6)) step_fault(g, F_STALL, 1 << r.range(4, 16));
		policy(g, nt > 1);
		break;
	}
	case 5:
	{
		focus(g);
		pools(g, 20, 5, 2);
		const int nt = r.range(2, 5);
		for (int t = 0; t < nt; ++t)
		{
			p.threads.emplace_back();
			for (int i = r.range(2, 6); i > 0; --i)
				p.threads.back().push_back(r.chance(1, 12) ? mk_parse(g, 10, false) : mk_print(g, r.chance(1, 15)));
		}
		unify_slots(g);
		drop_dead(g);
		reseed();
		if (r.chance(1, 3)) for (int i = r.range(1, 2); i > 0; --i) step_fault(g, F_STALL, 1 << r.range(4, 20));
		if (r.chance(1, 5)) step_fault(g, F_KILL);
		if (r.chance(1, 4))
		{
			Op n = mk_print(g, false);
			p.nested.push_back(n);
			if (!est(g, n).viol)
				for (int i = r.range(1, 3); i > 0; --i) step_fault(g, F_INTR, 0);
		}
		policy(g);
		break;
	}
	case 6:
	{
		focus(g);
		pools(g, 50, 2, 6, r.chance(1, 3));
		const int nt = r.range(1, 3);
		for (int t = 0; t < nt; ++t)
		{
			p.threads.emplace_back();
			for (int i = r.range(3, 8); i > 0; --i)
			{
				Op o = r.chance(1, 12) ? mk_print(g, r.chance(1, 3)) : mk_parse(g, 50, r.chance(1, 8));
				if (o.kind == O_PARSESTR) { o.kind = O_PARSE; o.endmode = 0; }
				p.threads.back().push_back(o);
			}
		}
		if (r.chance(1, 2))
		{
			p.threads.emplace_back();
			for (int i = r.range(2, 10); i > 0; --i)
			{
				Op o = mk(g, O_TAILW);
				o.a = static_cast<int>(r.below(nt));
				o.b = r.range(1, 40);
				p.threads.back().push_back(o);
				if (r.chance(1, 3)) { Op w = mk(g, O_IDLE); w.b = r.range(1, 100); p.threads.back().push_back(w); }
			}
		}
		unify_slots(g);
		reseed();
		// ops which crash alone stay: a fault at the guard page is this property's business
		if (r.chance(1, 5)) step_fault(g, F_STALL, 1 << r.range(4, 12));
		policy(g);
		if (p.threads.size() > static_cast<std::size_t>(nt) && r.chance(1, 2))
		{
			p.policy = P_RAND;
			p.switches.clear();
			p.pol_a = r.range(1, 30);
		}
		break;
	}
	case 13:
	{
		focus(g);
		pools(g, 15, 4, 5, r.chance(1, 2));
		const int nn = r.range(1, 3);
		for (int i = 0; i < nn; ++i) p.nested.push_back(mk_print(g, false)); // signal handlers
		const int c0 = nn, cn = 2;
		p.nested.push_back(mk_parse(g, 15, false)); // callbacks
		p.nested.push_back(mk_print(g, true));
		const int nt = r.range(1, 3);
		for (int t = 0; t < nt; ++t)
		{
			p.threads.emplace_back();
			for (int i = r.range(2, 6); i > 0; --i)
			{
				Op o = r.chance(2, 5) ? mk_print(g, r.chance(1, 3)) : mk_parse(g, 15, r.chance(2, 3));
				if (o.fb)
				{
					const int sc[] = {FB_EXACT, FB_EXACT, FB_NEST, FB_THROW, FB_RANGE, FB_ODD};
					o.fbs = sc[r.below(6)];
					const std::uint64_t inf = o.ft ? 0x7ff0000000000000ull : 0x7f800000ull, mn = o.ft ? 0x0010000000000000ull : 0x00800000ull;
					const std::uint64_t ed[] = {0, 1, inf, inf | (o.ft ? 1ull << 63 : 1ull << 31), inf - 1, mn, mn - 1, inf | (o.ft ? 0x8000000001234ull : 0x401234u)};
					o.fbval = r.chance(1, 2) ? ed[r.below(8)] : gen_bits(r, o.ft, true);
					o.fbend = r.range(0, 3);
					o.exp = o.fbs == FB_NEST ? c0 + static_cast<int>(r.below(cn)) : 0;
				}
				o.fpm = static_cast<int>(r.chance(1, 6) ? 0 : r.below(8));
				p.threads.back().push_back(o);
				if (r.chance(1, 3)) // the very same call in another environment
				{
					o.id = g.nextid++;
					o.fpm = static_cast<int>(r.below(8));
					p.threads.back().push_back(o);
				}
			}
		}
		unify_slots(g);
		drop_dead(g);
		for (Op& o : p.nested) o.fpm = static_cast<int>(r.below(8));
		for (std::vector<Op>& v : p.threads)
			for (Op& o : v)
				if (is_lib(o.kind) && o.kind != O_DIAG && mix(seed ^ 0x7A9, workload * 512 + static_cast<std::uint64_t>(o.id)) % 4 == 0) o.fpm |= 8;
		for (Op& o : p.nested) if (o.kind != O_DIAG && mix(seed ^ 0x7AA, workload * 512 + static_cast<std::uint64_t>(o.id)) % 8 == 0) o.fpm |= 8;
		reseed();
		if (r.chance(1, 3)) for (int i = r.range(1, 3); i > 0; --i) step_fault(g, F_INTR, r.below(nn));
		if (r.chance(1, 3))
		{
			int tid;
			Op* o;
			if (pick_libop(g, tid, o) && est(g, *o).allocs)
			{
				if (nt == 1 && r.chance(1, 2) && !(o->fb && o->fbs == FB_NEST))
				{
					o->newh = r.range(1, 2);
					o->exp = c0 + static_cast<int>(r.below(cn));
				}
				p.faults.push_back(Fault{F_OOM, tid, o->id, 1 + r.below(est(g, *o).allocs), r.chance(1, 2), 0});
			}
		}
		if (r.chance(1, 6)) step_fault(g, F_STALL, 1 << r.range(4, 16));
		policy(g, nt > 1);
		break;
	}
	case 14:
	{
		focus(g);
		pools(g, 20, 4, 5, r.chance(1, 2));
		if (idx % 8 < 6)
		{
			// a program start of its own: which phases of its life make conversions, and which
			p.threads.emplace_back();
			for (int i = r.range(3, 16); i > 0; --i)
			{
				const int k = static_cast<int>(r.below(12));
				Op o = k < 5 ? mk_print(g, r.chance(1, 2)) : k < 11 ? mk_parse(g, 20, r.chance(1, 3)) : mk_diag(g);
				if (o.kind == O_DIAG) o.a = 0;
				if (o.txt.size() > 1000) o.txt.resize(1000);
				p.threads[0].push_back(o);
				if (r.chance(1, 4)) // the same call again, at another time
				{
					o.id = g.nextid++;
					p.threads[0].push_back(o);
				}
			}
			drop_dead(g);
			reseed();
			std::vector<int> ph;
			if (r.chance(1, 8)) for (int i = 0; i < PH_KINDS; ++i) ph.push_back(i);
			else for (int i = r.range(1, 6); i > 0; --i) ph.push_back(static_cast<int>(r.below(PH_KINDS)));
			for (Op& o : p.threads[0]) o.slot = ph[r.below(ph.size())];
			if (r.chance(1, 3))
				for (Op& o : p.threads[0])
					if (est(g, o).allocs && r.chance(1, 4))
						p.faults.push_back(Fault{F_OOM, 0, o.id, 1 + r.below(est(g, o).allocs), r.chance(1, 2), 0});
			p.policy = P_LIFE;
			p.pol_a = p.pol_seed = 0;
			break;
		}
		// threads which convert while one of them forks
		const int nn = r.range(2, 5);
		for (int i = 0; i < nn; ++i) p.nested.push_back(r.chance(2, 5) ? mk_print(g, r.chance(1, 3)) : mk_parse(g, 20, r.chance(1, 3)));
		const int nt = r.range(2, 4);
		for (int t = 0; t < nt; ++t)
		{
			p.threads.emplace_back();
			for (int i = r.range(2, 6); i > 0; --i)
			{
				if (r.chance(1, 3))
				{
					Op f = mk(g, O_FORK);
					f.a = static_cast<int>(r.below(nn));
					f.b = r.range(1, nn - f.a);
					p.threads.back().push_back(f);
				}
				p.threads.back().push_back(r.chance(2, 5) ? mk_print(g, r.chance(1, 3)) : mk_parse(g, 20, r.chance(1, 4)));
			}
		}
		unify_slots(g);
		drop_dead(g);
		reseed();
		if (r.chance(1, 2)) for (int i = r.range(1, 2); i > 0; --i) step_fault(g, F_STALL, 1 << r.range(4, 24));
		if (r.chance(1, 6)) step_fault(g, F_KILL);
		if (r.chance(1, 4))
		{
			int tid;
			Op* o;
			if (pick_libop(g, tid, o) && est(g, *o).allocs)
				p.faults.push_back(Fault{F_OOM, tid, o->id, 1 + r.below(est(g, *o).allocs), r.chance(1, 2), 0});
		}
		policy(g);
		break;
	}
	case 15:
	{
		focus(g);
		pools(g, 20, 4, 5, r.chance(1, 2));
		if (r.chance(1, 3)) // long texts
			for (auto& v : g.texts)
				if (r.chance(1, 2)) lengthen(r, v.first);
		const int nn = r.range(2, 4);
		for (int i = 0; i < nn; ++i) p.nested.push_back(r.chance(2, 5) ? mk_print(g, r.chance(1, 2)) : mk_parse(g, 20, false));
		const int nt = r.range(1, 3);
		for (int t = 0; t < nt; ++t)
		{
			p.threads.emplace_back();
			for (int i = r.range(2, 7); i > 0; --i)
			{
				const int k = static_cast<int>(r.below(12));
				Op o = k < 5 ? mk_print(g, r.chance(1, 2)) : k < 11 ? mk_parse(g, 20, r.chance(1, 2)) : mk_diag(g);
				if (o.fb)
				{
					const int sc[] = {FB_EXACT, FB_NEST, FB_THROW, FB_THROW};
					o.fbs = sc[r.below(4)];
					o.exp = o.fbs == FB_NEST ? static_cast<int>(r.below(nn)) : 0;
				}
				if (r.chance(1, 4)) o.rep = 4;
				p.threads.back().push_back(o);
			}
			if (r.chance(1, 4))
			{
				Op o = mk(g, O_REPEAT);
				o.a = static_cast<int>(r.below(nn));
				o.slot = r.range(1, nn - o.a);
				o.b = r.chance(1, 4) ? 600 : 40;
				o.bits = r.next();
				o.fbend = 1;
				p.threads.back().push_back(o);
			}
		}
		unify_slots(g);
		drop_dead(g);
		for (auto& t : p.threads) // marathons of calls which do not complete alone
			t.erase(std::remove_if(t.begin(), t.end(), [&](const Op& o)
			{
				if (o.kind != O_REPEAT) return false;
				for (int i = 0; i < o.slot; ++i) if (!is_lib(p.nested[o.a + i].kind)) return true;
				return false;
			}), t.end());
		reseed();
		if (r.chance(1, 2))
			for (auto& t : p.threads)
				for (Op& o : t)
					if (is_lib(o.kind) && est(g, o).allocs && r.chance(1, 3))
						p.faults.push_back(Fault{F_OOM, static_cast<int>(&t - p.threads.data()), o.id, 1 + r.below(est(g, o).allocs), r.chance(1, 2), 0});
		if (r.chance(1, 3)) for (int i = r.range(1, 3); i > 0; --i) step_fault(g, F_INTR, r.below(nn));
		if (r.chance(1, 4)) step_fault(g, F_STALL, 1 << r.range(4, 20));
		policy(g, nt > 1);
		break;
	}
	case 7:
	{
		focus(g);
		pools(g, 15, 4, 4, r.chance(1, 2));
		const int nn = r.range(1, 4);
		for (int i = 0; i < nn; ++i) p.nested.push_back(mk_print(g, false)); // signal handlers
		const int c0 = nn, cn = r.range(1, 3);
		const int deep = mix(seed ^ 0xDEE9, workload) % 4 ? 0 : 1 + static_cast<int>(mix(seed, workload) % 7);
		for (int i = 0; i < cn; ++i) // callbacks
		{
			const int k = static_cast<int>(r.below(4));
			Op o = k == 0 ? mk_print(g, true) : k == 1 ? mk_print(g, false) : mk_parse(g, 15, k == 3);
			if (o.fb) { o.fbs = r.chance(1, 3) ? FB_NEST : FB_EXACT; o.exp = r.range(0, nn - 1); }
			if (deep && o.fb) { o.fbs = FB_NEST; o.exp = c0 + (deep + i) % cn; } // up to the limit, and down again
			p.nested.push_back(o);
		}
		const int nt = r.chance(2, 3) ? 1 : 2;
		for (int t = 0; t < nt; ++t)
		{
			p.threads.emplace_back();
			for (int i = r.range(2, 5); i > 0; --i)
			{
				Op o = r.chance(2, 5) ? mk_print(g, r.chance(1, 3)) : mk_parse(g, 15, r.chance(1, 2));
				if (o.fb)
				{
					o.fbs = r.chance(3, 4) ? FB_NEST : r.chance(1, 2) ? FB_THROW : FB_EXACT;
					o.exp = c0 + static_cast<int>(r.below(cn));
				}
				p.threads.back().push_back(o);
			}
		}
		unify_slots(g);
		drop_dead(g);
		reseed();
		for (int i = r.range(1, 5); i > 0; --i) step_fault(g, F_INTR, r.below(nn));
		for (int i = 0; i < static_cast<int>(p.nested.size()); ++i) // interrupts of nested conversions
			if (r.chance(1, 3) && is_lib(p.nested[i].kind))
				for (int t = 0; t < nt; ++t)
					p.faults.push_back(Fault{F_INTR, t, p.nested[i].id, 1 + r.below(est(g, p.nested[i]).steps + 1), static_cast<std::int64_t>(r.below(nn)), 0});
		if (nt == 1 && r.chance(1, 4))
			for (Op& o : p.threads[0])
				if (o.kind != O_PRINT && !(o.fb && o.fbs == FB_NEST) && est(g, o).allocs && r.chance(1, 2))
				{
					o.newh = r.range(1, 2);
					o.exp = c0 + static_cast<int>(r.below(cn));
					p.faults.push_back(Fault{F_OOM, 0, o.id, 1 + r.below(est(g, o).allocs), 1, 0});
				}
		policy(g, nt > 1);
		break;
	}
	case 8:
	{
		focus(g);
		pools(g, 15, 3, 4, true);
		const int nn = 2;
		p.nested.push_back(mk_parse(g, 10, false));
		p.nested.push_back(mk_print(g, true));
		const int nt = r.chance(2, 3) ? 1 : 2;
		for (int t = 0; t < nt; ++t)
		{
			p.threads.emplace_back();
			for (int i = r.range(3, 9); i > 0; --i)
			{
				Op o;
				if (r.chance(1, 8)) o = mk_print(g, r.chance(1, 2));
				else
				{
					o = mk_parse(g, 15, r.chance(7, 8));
					if (o.fb)
					{
						o.fbs = static_cast<int>(r.below(FB_KINDS));
						if (o.fbs == FB_RANGE0) o.fbs = FB_RANGE;
						o.exp = static_cast<int>(r.below(nn));
						o.fbend = static_cast<int>(r.chance(1, 2) ? r.below(4) : r.below(o.txt.size() + 1));
						const std::uint64_t mn = o.ft ? 0x0010000000000000ull : 0x00800000ull, sg = o.ft ? 1ull << 63 : 1ull << 31;
						const std::uint64_t ed[] = {0, sg, 1, sg | 1, mn, mn - 1, mn + 1, sg | mn, sg | (mn + 1), o.ft ? 0x7ff0000000000000ull : 0x7f800000ull, o.ft ? 0xfff0000000000000ull : 0xff800000ull, o.ft ? 0x7fefffffffffffffull : 0x7f7fffffull,
							o.ft ? 0x7ff8000000001234ull : 0x7fc01234ull, o.ft ? 0xfff800000000beefull : 0xffc0beefull};
						o.fbval = r.chance(2, 3) ? ed[r.below(14)] : gen_bits(r, o.ft, true);
						if (o.fbs == FB_THROW && r.chance(1, 2)) o.rep = 4;
					}
				}
				o.err = stale(r);
				p.threads.back().push_back(o);
			}
		}
		unify_slots(g);
		drop_dead(g);
		reseed();
		for (int t = 0; t < nt; ++t)
			for (Op& o : p.threads[t])
				if (o.fbs == FB_OOMNEST)
					p.faults.push_back(Fault{F_OOM, t, p.nested[0].id, 1, 1, 0});
		policy(g, nt > 1);
		break;
	}
	case 9:
	case 10:
	{
		reseed();
		const int np = r.range(1, prop == 9 ? 2 : 2);
		const bool noisy = r.chance(1, 2);
		for (int k = 0; k < np; ++k)
		{
			PipeCfg c;
			const int cs[] = {1, 7, 40, 400, 4000};
			c.cap = cs[r.below(5)];
			c.wmax = cs[r.below(4)];
			c.rmax = cs[r.below(4)];
			p.pipes.push_back(c);
			const int ft = r.chance(3, 5);
			const int x = static_cast<int>(r.below(10));
			const int ct = x < 6 ? 0 : x < 8 ? 1 : 2 + (x & 1);
			p.threads.emplace_back();
			const int nrec = r.range(10, 60);
			for (int i = 0; i < nrec; ++i)
			{
				Op o = mk(g, O_SEND);
				o.a = k;
				o.ft = ft;
				o.ct = ct;
				if (prop == 10 && r.chance(1, 2))
				{
					o.kind = O_SENDTXT;
					o.txt = widen(gen_number(r, ft));
					if (o.txt.size() > 2047) o.txt.resize(2047);
				}
				else
				{
					o.bits = gen_bits(r, ft);
					o.b = r.chance(1, 5);
					o.slot = 0;
				}
				if (noisy) o.err = stale(r);
				p.threads.back().push_back(o);
				if (noisy && r.chance(1, 30))
				{
					Op l = mk(g, r.chance(1, 3) ? O_SETLOC : r.chance(1, 2) ? O_CPPLOC : O_USELOC);
					l.a = static_cast<int>(r.below(N_LOC));
					p.threads.back().push_back(l);
				}
				if (prop == 10 && r.chance(1, 2))
					for (int d = r.range(1, 2); d > 0; --d)
						p.faults.push_back(Fault{F_PIPE, k, 0, static_cast<std::uint64_t>(i), static_cast<std::int64_t>(r.chance(1, 3) ? 0 : r.below(12)), static_cast<std::int64_t>(r.below(1u << 31))});
				if (noisy && r.chance(1, 25))
					p.faults.push_back(Fault{F_OOM, 2 * k, o.id, 1 + r.below(2), r.chance(1, 2), 0});
				if (noisy && r.chance(1, 40))
					p.faults.push_back(Fault{F_STALL, 2 * k, o.id, 1 + r.below(300), 1 << r.range(4, 16), 0});
			}
			Op c1 = mk(g, O_CLOSE);
			c1.a = k;
			p.threads.back().push_back(c1);
			p.threads.emplace_back();
			Op o = mk(g, O_RECV);
			o.a = k;
			o.ft = ft;
			o.ct = ct;
			o.b = prop == 10 ? r.chance(1, 2) : 0;
			o.place = r.chance(1, 2);
			if (noisy) o.err = stale(r);
			p.threads.back().push_back(o);
			if (noisy)
			{
				for (int i = r.range(0, 3); i > 0; --i)
					p.faults.push_back(Fault{F_STALL, 2 * k + 1, o.id, 1 + r.below(3000), 1 << r.range(4, 16), 0});
				if (r.chance(1, 4)) p.faults.push_back(Fault{F_OOM, 2 * k + 1, o.id, 1, 1, 0});
				for (int i = r.range(0, 2); i > 0; --i)
					p.faults.push_back(Fault{F_LOCALE, 2 * k + 1, o.id, 1 + r.below(8000), static_cast<std::int64_t>(r.below(3)), static_cast<std::int64_t>(r.below(6))});
			}
			if (r.chance(1, 8)) // producer dies
				p.faults.push_back(Fault{F_KILL, 2 * k, p.threads[2 * k][r.below(p.threads[2 * k].size())].id, 1 + r.below(400), 0, 0});
		}
		p.pol_seed = r.next();
		const int x = static_cast<int>(r.below(10));
		if (x < 3) p.policy = P_OPS;
		else if (x < 8)
		{
			p.policy = P_RAND;
			const int ps[] = {20, 100, 500, 3000};
			p.pol_a = ps[r.below(4)];
		}
		else
		{
			p.policy = P_PCT;
			p.pol_a = 60000ull << 3 | r.below(6);
		}
		break;
	}
	case 11:
	{
		focus(g);
		pools(g, 40, 3, 5, r.chance(1, 3));
		const std::uint64_t crowd = mix(seed ^ 0xC20F11, workload);
		const bool many = crowd % 20 == 0, failures = crowd % 20 == 1; // many victims, many failures in a row
		const int nt = many ? 9 + static_cast<int>(crowd >> 8 & 63) : failures ? 2 + static_cast<int>(crowd >> 8 & 1) : r.range(2, 5);
		for (int t = 0; t < nt; ++t)
		{
			p.threads.emplace_back();
			if (failures && !t)
				for (int i = r.range(10, 80); i > 0; --i)
				{
					Op o = (crowd >> 16 & 1 ? crowd >> 17 & 1 : r.chance(1, 2)) ? mk_print(g, r.chance(5, 6)) : mk_parse(g, 40, r.chance(2, 3));
					if (o.fb && r.chance(9, 10)) o.fbs = FB_THROW;
					p.threads.back().push_back(o);
					if (r.chance(4, 5)) p.faults.push_back(Fault{F_OOM, t, o.id, 1, 1, 0});
				}
			for (int i = many ? 1 : r.range(2, 5); i > 0; --i)
			{
				Op o = (many && crowd >> 16 & 1 ? crowd >> 17 & 1 : r.chance(2, 5)) ? mk_print(g, r.chance(1, 3)) : mk_parse(g, 40, r.chance(1, 5));
				if (o.fb && r.chance(1, 3)) o.fbs = FB_THROW;
				p.threads.back().push_back(o);
			}
		}
		unify_slots(g);
		reseed();
		if (many)
		{
			const int q = r.range(2, 10); // most of them may die in the middle of their call
			for (int t = r.range(0, 2); t < nt; ++t)
				if (r.chance(q, 10))
					for (const Op& o : p.threads[t])
						if (is_lib(o.kind))
							p.faults.push_back(Fault{F_KILL, t, o.id, 1 + r.below(est(g, o).steps), 0, 0});
		}
		for (int i = r.range(1, 3); i > 0; --i)
			if (r.chance(1, 2)) step_fault(g, F_KILL);
			else step_fault(g, F_STALL, 1ll << r.range(10, 40));
		if (r.chance(1, 3))
		{
			int tid;
			Op* o;
			if (pick_libop(g, tid, o))
				p.faults.push_back(Fault{F_OOM, tid, o->id, 1, 1, 0});
		}
		policy(g);
		break;
	}
	case 12:
	{
		pools(g, 10, 2, 2);
		const int nt = r.range(1, 3);
		for (int t = 0; t < nt; ++t)
		{
			p.threads.emplace_back();
			for (int i = r.range(1, 4); i > 0; --i)
			{
				const bool bits = mix(seed ^ 0xB175, workload * 64 + static_cast<std::uint64_t>(g.nextid)) % 8 == 0;
				Op o = bits ? mk_print(g, true) : mk_diag(g);
				const std::size_t len = bits ? 0 : ref_diag(o.bits, o.exp, o.ft).size();
				if (!bits && r.chance(1, 2)) o.rep = 4;
				p.threads.back().push_back(o);
				const SoloRes s = est(g, o);
				if (!bits && r.chance(3, 5))
					p.faults.push_back(Fault{F_SINK, t, o.id, r.below(len + 1), static_cast<int>(r.chance(1, 3)) + 2 * static_cast<int>(r.chance(1, 3)), 0});
				if (r.chance(1, 3))
					p.faults.push_back(Fault{F_OOM, t, o.id, 1 + r.below(s.allocs + 1), r.chance(1, 2), 0});
			}
		}
		if (r.chance(1, 6)) step_fault(g, F_STALL, 1 << r.range(4, 16));
		if (nt > 1 && r.chance(1, 8)) step_fault(g, F_KILL);
		policy(g, nt > 1);
		break;
	}
	}
	return p;
}

// ================================================================ text form
static void put_op(std::ostringstream& o, const char* tag, const Op& x)
{
	o << tag << ' ' << x.id << ' ' << op_names[x.kind] << ' ' << x.ft << ' ' << x.ct << ' ' << x.endmode << ' ' << x.fb << ' ' << x.fbs << ' ' << x.fbend << ' ' << x.a << ' ' << x.b << ' '
	  << x.place << ' ' << x.slot << ' ' << x.err << ' ' << x.newh << ' ' << x.exp << ' ' << x.rep << ' ' << x.fpm << ' ' << std::hex << x.bits << ' ' << x.fbval << ' ';
	if (x.txt.empty()) o << '-';
	for (std::size_t i = 0; i < x.txt.size(); ++i) o << (i ? "." : "") << static_cast<std::uint32_t>(x.txt[i]);
	o << std::dec << "   # ";
	for (char32_t c : x.txt.substr(0, 60)) o << (c >= 32 && c < 127 ? static_cast<char>(c) : '?');
	o << '\n';
}

std::string Plan::to_text() const
{
	std::ostringstream o;
	o << "prop C" << (prop < 10 ? "0" : "") << prop << "\nseed " << seed << "\nrun " << idx << "\nfill " << fill << "\npolicy " << policy_names[policy] << ' ' << pol_a << ' ' << pol_seed << '\n';
	for (const PipeCfg& c : pipes) o << "pipe " << c.cap << ' ' << c.wmax << ' ' << c.rmax << '\n';
	for (const Op& x : nested) put_op(o, "nested", x);
	for (std::size_t t = 0; t < threads.size(); ++t)
	{
		o << "thread " << t << '\n';
		for (const Op& x : threads[t]) put_op(o, "op", x);
	}
	for (const Fault& f : faults) o << "fault " << fault_names[f.kind] << " thread/pipe " << f.tid << " op " << f.op << " at " << f.at << " args " << f.a << ' ' << f.b << '\n';
	for (const Switch& s : switches) o << "switch thread " << s.tid << " op " << s.op << " step " << s.step << " to " << s.to << ' ' << (s.forced ? "forced" : "preempt") << '\n';
	return o.str();
}

bool Plan::from_text(const std::string& text, std::string& err)
{
	std::istringstream in(text);
	std::string line;
	*this = Plan();
	auto name_index = [](const char* const* v, int n, const std::string& s) { for (int i = 0; i < n; ++i) if (s == v[i]) return i; return -1; };
	while (std::getline(in, line))
	{
		std::istringstream l(line);
		std::string k, w;
		if (!(l >> k) || k[0] == '#') continue;
		if (k == "prop") { l >> w; prop = std::stoi(w.substr(1)); }
		else if (k == "seed") l >> seed;
		else if (k == "run") l >> idx;
		else if (k == "fill") l >> fill;
		else if (k == "policy") { l >> w >> pol_a >> pol_seed; policy = name_index(policy_names, P_KINDS, w); if (policy < 0) { err = line; return false; } }
		else if (k == "pipe") { PipeCfg c; l >> c.cap >> c.wmax >> c.rmax; pipes.push_back(c); }
		else if (k == "thread") threads.emplace_back();
		else if (k == "op" || k == "nested")
		{
			Op x;
			std::string t;
			l >> x.id >> w >> x.ft >> x.ct >> x.endmode >> x.fb >> x.fbs >> x.fbend >> x.a >> x.b >> x.place >> x.slot >> x.err >> x.newh >> x.exp >> x.rep >> x.fpm >> std::hex >> x.bits >> x.fbval >> t;
			x.kind = name_index(op_names, O_KINDS, w);
			if (!l || x.kind < 0) { err = line; return false; }
			if (t != "-")
			{
				std::istringstream ts(t);
				std::string c;
				while (std::getline(ts, c, '.')) x.txt += static_cast<char32_t>(std::stoul(c, nullptr, 16));
			}
			if (k == "nested") nested.push_back(x);
			else if (threads.empty()) { err = line; return false; }
			else threads.back().push_back(x);
		}
		else if (k == "fault")
		{
			Fault f;
			std::string d;
			l >> w >> d >> f.tid >> d >> f.op >> d >> f.at >> d >> f.a >> f.b;
			f.kind = name_index(fault_names, F_KINDS, w);
			if (!l || f.kind < 0) { err = line; return false; }
			faults.push_back(f);
		}
		else if (k == "switch")
		{
			Switch s;
			std::string d;
			l >> d >> s.tid >> d >> s.op >> d >> s.step >> d >> s.to >> w;
			if (!l) { err = line; return false; }
			s.forced = w == "forced";
			switches.push_back(s);
		}
	}
	return true;
}

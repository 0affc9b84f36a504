#include "sys.h"

#include <cstring>
#include <new>
#include <ostream>
#include <string>

#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
#include <floaxie/print.h>

#if defined(__clang__)
#define RAW __attribute__((no_sanitize("thread"), noinline))
#else
#define RAW __attribute__((no_sanitize_thread, noinline))
#endif

namespace
{
	template<typename F> struct bits_of;
	template<> struct bits_of<float> { typedef std::uint32_t type; };
	template<> struct bits_of<double> { typedef std::uint64_t type; };

	template<typename F> RAW F from_bits(std::uint64_t b)
	{
		typename bits_of<F>::type u = static_cast<typename bits_of<F>::type>(b);
		F f;
		std::memcpy(&f, &u, sizeof f);
		return f;
	}

	template<typename F> RAW std::uint64_t to_bits(F f)
	{
		typename bits_of<F>::type u;
		std::memcpy(&u, &f, sizeof f);
		return u;
	}

	template<typename F> constexpr int ft_of() { return sizeof(F) == 8; }
	template<typename C> struct ct_of;
	template<> struct ct_of<char> { enum { value = 0 }; };
	template<> struct ct_of<wchar_t> { enum { value = 1 }; };
	template<> struct ct_of<char16_t> { enum { value = 2 }; };
	template<> struct ct_of<char32_t> { enum { value = 3 }; };

	template<typename F, typename C> RAW F fb_function(const C* s, C** e)
	{
		return from_bits<F>(fb_call(ft_of<F>(), ct_of<C>::value, s, reinterpret_cast<void**>(e)));
	}

	template<typename F, typename C> struct FbObject
	{
		int payload[3];
		RAW F operator()(const C* s, C** e) const
		{
			return fb_function<F, C>(s, e);
		}
	};

	// runs f() as a library call and classifies what leaves it
	template<typename Fn> RAW int guarded(Fn&& f)
	{
		int exc = EXC_NONE;
		lib_enter();
		try { f(); }
		catch (const std::bad_alloc&) { exc = EXC_BADALLOC; }
		catch (const UserExc&) { exc = EXC_USER; }
		catch (const std::exception&) { exc = EXC_STD; }
		catch (...) { exc = EXC_OTHER; }
		lib_exit();
		return exc;
	}

	// default fallback exists for char and wchar_t only
	template<typename F, typename C, bool has_default> struct Parser;

	template<typename F, typename C> struct Parser<F, C, true>
	{
		static RAW void dflt(const LibReq& q, const C* s, C** e, floaxie::value_and_status<F>& v)
		{
			if (q.endmode == 1)
				v = floaxie::atof<F>(s, nullptr);
			else
				v = floaxie::atof<F>(s, e);
		}
		static RAW void dflt_str(const std::basic_string<C>& s, floaxie::value_and_status<F>& v)
		{
			v = floaxie::from_string<F>(s);
		}
	};

	template<typename F, typename C> struct Parser<F, C, false>
	{
		static RAW void dflt(const LibReq& q, const C* s, C** e, floaxie::value_and_status<F>& v)
		{
			if (q.endmode == 1)
				v = floaxie::atof<F>(s, nullptr, fb_function<F, C>);
			else
				v = floaxie::atof<F>(s, e, fb_function<F, C>);
		}
		static RAW void dflt_str(const std::basic_string<C>& s, floaxie::value_and_status<F>& v)
		{
			v = floaxie::from_string<F>(s, fb_function<F, C>);
		}
	};

	template<typename F, typename C> RAW void do_parse(const LibReq& q, LibRes& r)
	{
		const C* s = static_cast<const C*>(q.buf);
		C sentinel[2];
		C* e = sentinel;
		C** pe = q.endmode ? nullptr : &e;
		floaxie::value_and_status<F> v;
		typedef Parser<F, C, ct_of<C>::value < 2> P;

		fb_expect(s, pe);
		r.exc = guarded([&]() RAW
		{
			if (q.fb == 1)
			{
				const FbObject<F, C> fb = {{1, 2, 3}};
				if (q.endmode == 1)
					v = floaxie::atof<F>(s, nullptr, fb);
				else
					v = floaxie::atof<F>(s, pe, fb);
			}
			else if (q.fb == 2)
			{
				if (q.endmode == 1)
					v = floaxie::atof<F>(s, nullptr, fb_function<F, C>);
				else
					v = floaxie::atof<F>(s, pe, fb_function<F, C>);
			}
			else
				P::dflt(q, s, pe, v);
		});

		r.bits = to_bits<F>(v.value);
		r.status = static_cast<int>(v.status);
		r.end = e == sentinel ? -1 : (e >= s && e < s + 100000 ? e - s : -2);
		if (r.exc == EXC_NONE && to_bits<F>(static_cast<F>(v)) != r.bits)
			r.status = 99; // conversion operator disagrees with the value
	}

	template<typename F, typename C> RAW void do_parsestr(const LibReq& q, LibRes& r)
	{
		const std::basic_string<C> s(static_cast<const C*>(q.buf));
		floaxie::value_and_status<F> v;
		typedef Parser<F, C, ct_of<C>::value < 2> P;

		fb_expect(s.c_str(), nullptr);
		r.exc = guarded([&]() RAW
		{
			if (q.fb == 1)
			{
				const FbObject<F, C> fb = {{1, 2, 3}};
				v = floaxie::from_string<F>(s, fb);
			}
			else if (q.fb == 2)
				v = floaxie::from_string<F>(s, fb_function<F, C>);
			else
				P::dflt_str(s, v);
		});

		r.bits = to_bits<F>(v.value);
		r.status = static_cast<int>(v.status);
		r.end = -1;
	}

	template<typename C> RAW void copy_text(LibRes& r, const C* p, std::size_t n)
	{
		r.ntext = 0;
		while (r.ntext < MAX_TEXT && static_cast<std::size_t>(r.ntext) < n)
		{
			r.text[r.ntext] = static_cast<std::uint32_t>(p[r.ntext]);
			++r.ntext;
		}
	}

	template<typename F, typename C> RAW void do_print(const LibReq& q, LibRes& r)
	{
		C* b = static_cast<C*>(q.buf);
		const F v(from_bits<F>(q.bits));
		std::size_t n = 0;

		r.exc = guarded([&]() RAW { n = floaxie::ftoa(v, b); });

		r.ret = n;
		// text up to the terminator, which must be inside the slot
		const std::size_t cap = sys_slot_chars(ft_of<F>());
		std::size_t len = 0;
		while (len < cap && b[len] != C(0))
			++len;
		copy_text(r, b, len);
		r.end = len == cap ? -2 : 0;
	}

	template<typename F, typename C> struct StrCall
	{
		static RAW std::basic_string<C> call(F v) { return floaxie::to_basic_string<F, C>(v); }
	};
	template<typename F> struct StrCall<F, char>
	{
		static RAW std::string call(F v) { return floaxie::to_string(v); }
	};
	template<typename F> struct StrCall<F, wchar_t>
	{
		static RAW std::wstring call(F v) { return floaxie::to_wstring(v); }
	};
	template<typename F> struct StrCall<F, char16_t>
	{
		static RAW std::u16string call(F v) { return floaxie::to_u16string(v); }
	};
	template<typename F> struct StrCall<F, char32_t>
	{
		static RAW std::u32string call(F v) { return floaxie::to_u32string(v); }
	};

	RAW std::string call_bits(int how, std::uint64_t bits, double v)
	{
		return how == 2 ? floaxie::print_binary(v) : how == 3 ? floaxie::print_binary(bits) : floaxie::print_double_presentation(bits);
	}
	RAW std::string call_bits(int how, std::uint64_t bits, float)
	{
		return how == 2 ? floaxie::print_binary(static_cast<std::uint32_t>(bits)) : how == 3 ? floaxie::print_binary(static_cast<std::uint16_t>(bits)) : floaxie::print_double_presentation(static_cast<std::uint32_t>(bits));
	}

	template<typename F, typename C> RAW void do_printstr(const LibReq& q, LibRes& r)
	{
		const F v(from_bits<F>(q.bits));
		if (q.endmode > 1)
		{
			r.exc = guarded([&]() RAW
			{
				const std::string s(call_bits(q.endmode, q.bits, v));
				r.ret = s.size();
				copy_text(r, s.data(), s.size());
			});
			return;
		}
		r.exc = guarded([&]() RAW
		{
			const std::basic_string<C> s(q.endmode == 1 ? floaxie::to_basic_string<F, C>(v) : StrCall<F, C>::call(v));
			r.ret = s.size();
			copy_text(r, s.data(), s.size());
		});
	}

	template<typename F> RAW void do_diag(const LibReq& q, LibRes& r)
	{
		typedef typename floaxie::diy_fp<F>::mantissa_storage_type M;
		const floaxie::diy_fp<F> v(static_cast<M>(q.bits), q.exp);
		r.exc = guarded([&]() RAW { *q.os << v; });
	}

	template<typename F, typename C> RAW void dispatch(const LibReq& q, LibRes& r)
	{
		switch (q.kind)
		{
		case LK_PRINT: do_print<F, C>(q, r); break;
		case LK_PRINTSTR: do_printstr<F, C>(q, r); break;
		case LK_PARSE: do_parse<F, C>(q, r); break;
		case LK_PARSESTR: do_parsestr<F, C>(q, r); break;
		case LK_DIAG: do_diag<F>(q, r); break;
		}
	}

	template<typename F> RAW void dispatch_ct(const LibReq& q, LibRes& r)
	{
		switch (q.ct)
		{
		case 0: dispatch<F, char>(q, r); break;
		case 1: dispatch<F, wchar_t>(q, r); break;
		case 2: dispatch<F, char16_t>(q, r); break;
		case 3: dispatch<F, char32_t>(q, r); break;
		}
	}
}

RAW void sys_call(const LibReq& q, LibRes& r)
{
	r = LibRes();
	if (q.ft)
		dispatch_ct<double>(q, r);
	else
		dispatch_ct<float>(q, r);
}

RAW std::size_t sys_slot_chars(int ft)
{
	return ft ? floaxie::max_buffer_size<double>() : floaxie::max_buffer_size<float>();
}

const char* sys_variant() { return FSIM_VARIANT; }

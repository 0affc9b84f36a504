// Interface between the simulator and the library calls ("system under test").
// sys.cpp is the only file which includes floaxie headers; it is compiled with
// memory-access instrumentation, everything else is not.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iosfwd>

enum { LK_PRINT, LK_PRINTSTR, LK_PARSE, LK_PARSESTR, LK_DIAG };
enum { EXC_NONE, EXC_BADALLOC, EXC_USER, EXC_STD, EXC_OTHER };

struct UserExc { int tag; };   // what the simulated fallback and sink throw

struct LibReq
{
	int kind, ft, ct;      // ft: 0 float, 1 double; ct: 0 char, 1 wchar_t, 2 char16_t, 3 char32_t
	int endmode;           // 0: &end, 1: literal nullptr, 2: typed null pointer; when printing to a string: 2, 3, 4: bits of the number
	int fb;                // 0: default, 1: function object, 2: function pointer
	std::uint64_t bits;    // value to print / mantissa for LK_DIAG
	int exp;               // exponent for LK_DIAG
	void* buf;             // output slot or text
	std::ostream* os;
};

enum { MAX_TEXT = 72 };
struct LibRes
{
	int exc;
	std::uint64_t bits;    // parsed value
	int status;            // conversion_status
	long end;              // consumed characters; -1: end pointer not touched; -2: garbage
	std::size_t ret;       // ftoa() result / string length
	int ntext;
	std::uint32_t text[MAX_TEXT];
};

void sys_call(const LibReq&, LibRes&);
std::size_t sys_slot_chars(int ft);
const char* sys_variant();

// provided by the simulator
void lib_enter();
void lib_exit();
std::uint64_t fb_call(int ft, int ct, const void* str, void** str_end);
void fb_expect(const void* str, const void* end);

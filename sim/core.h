// Deterministic simulator: plans, scheduler, seams, run results.
#pragma once
#include "sys.h"
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <vector>

// ---------------------------------------------------------------- random
struct Rng
{
	std::uint64_t s;
	explicit Rng(std::uint64_t seed = 0) : s(seed) {}
	std::uint64_t next()
	{
		std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	std::uint64_t below(std::uint64_t n) { return n ? static_cast<std::uint64_t>((static_cast<unsigned __int128>(next()) * n) >> 64) : 0; }
	int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<std::uint64_t>(hi - lo + 1))); }
	bool chance(int num, int den) { return below(den) < static_cast<std::uint64_t>(num); }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
	Rng r(a * 0xD6E8FEB86659FD93ull ^ (b + 0x632BE59BD9B4E019ull));
	r.next();
	return r.next();
}
inline std::uint64_t hash_bytes(std::uint64_t h, const void* p, std::size_t n)
{
	const unsigned char* c = static_cast<const unsigned char*>(p);
	for (std::size_t i = 0; i < n; ++i)
		h = (h ^ c[i]) * 0x100000001B3ull;
	return h ^ (h >> 29);
}

// ---------------------------------------------------------------- plan
enum OpKind
{
	// library calls
	O_PRINT, O_PRINTSTR, O_PARSE, O_PARSESTR, O_DIAG,
	// environment actions of caller threads
	O_SETLOC,   // setlocale(LC_ALL, locale[a])
	O_USELOC,   // uselocale(locale[a]) for this thread
	O_CPPLOC,   // std::locale::global(variant a)
	O_OBSERVE,  // check that the ambient locale is what was last set
	O_TAILW,    // producer: write behind the terminator in pad a, b characters
	O_SEND,     // print a value and push the record into pipe a
	O_SENDTXT,  // push a given text record into pipe a
	O_RECV,     // receive and parse up to b records from pipe a
	O_CLOSE,    // close pipe a for writing
	O_REPEAT,   // marathon: run library op [a] of plan.nested b times
	O_IDLE,     // a scheduling point
	O_FORK,     // fork: the child, a process with this thread only, runs ops [a, a+b) of plan.nested
	O_KINDS
};
enum FaultKind
{
	F_KILL,     // thread stops forever at step `at` of the op
	F_STALL,    // thread does not run for `a` ticks
	F_INTR,     // run nested op `a` at that step, as a signal handler would
	F_OOM,      // allocation number `at` of the op fails; a=1: all later ones as well
	F_LOCALE,   // locale switched under the feet of the op at step `at` (a: kind, b: index)
	F_SINK,     // stream sink fails after `at` characters; a: 0 error, 1 exception, +2: just once
	F_PIPE,     // record number `at` of pipe `tid` is damaged: a kind, b position/argument
	F_ERRNO,    // errno found by the op (set before it)
	F_FB,       // (counted only) fallback did something unusual
	F_NEWH,     // (counted only) new-handler invoked
	F_SHORTIO,  // (counted only) short read/write of a pipe
	F_FPENV,    // (counted only) call made with another rounding mode or raised exception flags
	F_FORK,     // (counted only) child process forked
	F_LIFE,     // (counted only) conversions in a special phase of a process's life
	F_KINDS
};
extern const char* const fault_names[F_KINDS];
extern const char* const op_names[O_KINDS];

enum FbScript // what the user's fallback does
{
	FB_EXACT,     // right value, right end
	FB_ODD,       // value fbval, end after fbend characters, errno untouched
	FB_RANGE,     // value fbval, errno = ERANGE
	FB_THROW,     // throws
	FB_NEST,      // converts nested op, then FB_EXACT
	FB_EINVAL,    // right value, errno = EINVAL
	FB_NOEND,     // right value, end pointer left alone
	FB_RANGE0,    // sets ERANGE and then 0 again, right value
	FB_OOMNEST,   // nested conversion runs out of memory inside the fallback
	FB_KINDS
};

struct Op
{
	int id = 0, kind = 0, ft = 1, ct = 0, endmode = 0, fb = 0, fbs = 0, fbend = 0, a = 0, b = 0;
	int place = 0;        // 0: terminator before the guard page, 1: at the front with a tail behind
	int slot = 0;         // slot / pad index within the thread
	int err = 0;          // errno before the call
	int newh = 0;         // new-handler script: 0 none, 1 re-entrant then gives up, 2 frees memory
	int exp = 0, rep = 1;
	int fpm = 0;          // floating-point environment of the call: rounding mode, +4: all exception flags raised
	std::uint64_t bits = 0, fbval = 0;
	std::u32string txt;
};

struct Fault { int kind = 0, tid = 0, op = 0; std::uint64_t at = 0; std::int64_t a = 0, b = 0; };
struct Switch { int tid, op; std::uint64_t step; int to; int forced; };

enum Policy { P_SEQ, P_OPS, P_RAND, P_PCT, P_RR, P_WIN, P_SHARED, P_EXPLICIT, P_LIFE, P_KINDS };
// P_LIFE: a program run of its own (life.cpp); Op::slot is the phase, in order of execution
enum Phase { PH_FIRST, PH_MAIN, PH_THREAD, PH_TLS, PH_KEY, PH_AFTER, PH_FORK, PH_MAINTLS, PH_ATEXIT, PH_STATIC, PH_SURVIVOR, PH_FINI, PH_KINDS };
extern const char* const phase_names[PH_KINDS];
extern const char* const policy_names[P_KINDS];

struct PipeCfg { int cap = 64, wmax = 8, rmax = 8; };

struct Plan
{
	int prop = 1;
	std::uint64_t seed = 0, idx = 0;
	int policy = P_SEQ;
	std::uint64_t pol_a = 0, pol_seed = 0;
	std::uint64_t fill = 0;              // fresh memory pattern
	std::vector<std::vector<Op>> threads;
	std::vector<Op> nested;
	std::vector<Fault> faults;
	std::vector<Switch> switches;        // P_EXPLICIT / window points of P_WIN
	std::vector<PipeCfg> pipes;
	std::string to_text() const;
	bool from_text(const std::string&, std::string& err);
};

// ---------------------------------------------------------------- results
enum ViolKind
{
	V_NONE, V_RESULT, V_REF, V_WRITE, V_TEXTWRITE, V_READ, V_HEAP, V_NUL, V_NEIGHBOUR, V_LEAK, V_EXC, V_CRASH, V_SEGV,
	V_ALLOC, V_RETRY, V_ERRNO, V_LOCALE, V_STUCK, V_BUDGET, V_FBCALL, V_STATUS, V_STREAM, V_ENDPTR, V_PIPE, V_FPENV, V_MEMORY, V_KINDS
};
extern const char* const viol_names[V_KINDS];
enum { NPROP = 15 };
std::uint32_t viol_mask(int prop);

enum Probe
{
	PR_FALLBACK, PR_DENORMAL, PR_OVERFLOW, PR_UNDERFLOW, PR_NAN, PR_INF, PR_SCI, PR_DEC, PR_REJECT, PR_PARTIAL, PR_LONG,
	PR_PREEMPT, PR_INFLIGHT2, PR_INFLIGHT3, PR_NEST2, PR_NEST4, PR_KILLED_IN_OP, PR_STALLED_IN_OP, PR_OOM_THROWN, PR_OOM_SURVIVED, PR_RETRY_OK, PR_GUARD,
	PR_TAILRACE, PR_LOCALE_IN_OP, PR_FB_THROW, PR_FB_RANGE, PR_SINK_SHORT, PR_SINK_THROW, PR_SINK_PREFAIL, PR_SINK_SETTINGS, PR_SINK_SYNC, PR_SPLIT_READ, PR_SPLIT_WRITE, PR_DAMAGED,
	PR_GLOBALRW, PR_LOCK, PR_ATOMIC, PR_WIDE, PR_UTF, PR_FLOAT, PR_DOUBLE, PR_MARATHON, PR_SAMEBUF, PR_STALE_ERRNO, PR_TRUNC_RUN, PR_FP_PRINT, PR_FP_PARSE, PR_FP_FALLBACK, PR_FORK_INFLIGHT, PR_FORK_LOCK, PR_VARIED, PR_CAPPED, PR_MANYTHR, PR_ENVLOC, PR_BITS, PR_FPTRAP,
	PR_LIFE, PR_LIFE_LAST = PR_LIFE + PH_KINDS - 1, PR_KINDS
};
extern const char* const probe_names[PR_KINDS];

void name_locale_of_environment(std::uint64_t fill);

struct SoloRes
{
	LibRes r;
	std::uint64_t steps = 0;
	std::uint32_t allocs = 0;
	int viol = 0;          // V_CRASH, V_STUCK ...
	int fbcalls = 0, dflcalls = 0;
	std::uint64_t stack = 0, heap = 0; // taken
};

enum { MAX_TRACE = 200000, MAX_LOG = 1 << 20 };
struct Shared // filled by the run's process
{
	volatile int finished;
	int viol;
	int internal;               // simulator trouble (never a verdict)
	char detail[1500];
	std::uint64_t loghash, schedhash;
	std::uint64_t ticks, idle_ticks, nswitch, libops, maxops, maxstack, maxheap, maxheld;
	std::uint64_t fired[F_KINDS], probes[PR_KINDS];
	std::uint64_t other_viol[V_KINDS];
	SoloRes solo;
	std::uint32_t ntrace;
	Switch trace[MAX_TRACE];
	std::uint32_t loglen;
	char log[MAX_LOG];
};
extern Shared* shm;

struct Cap { std::uint64_t stack = 0, heap = 0; };
struct Solos
{
	std::map<int, SoloRes> byid; // by op id
	std::map<int, Cap> caps;     // what conversions of short texts take
};

// core.cpp
void core_init(const char* locdir);
void run_child(const Plan&, const Solos&, bool verbose) __attribute__((noreturn));
void solo_child(const Op&, const std::vector<Op>& nested) __attribute__((noreturn));
const char* locale_name(int i);
std::string describe_op(const Op&);
std::string describe_res(const LibRes&);
bool same_res(const LibRes&, const LibRes&);
enum { N_LOC = 5, N_CPPLOC = 5 };

// oracle.cpp
struct RefRes { long consumed; std::uint64_t bits; bool nan; unsigned statuses; bool digits; };
RefRes ref_decode(const char32_t* s, std::size_t n, int ft);
std::string ref_diag(std::uint64_t bits, int exp, int ft);
std::string ref_bits(std::uint64_t bits, int ft, int how);
std::string ref_diag_formatted(std::uint64_t bits, int exp, int ft, int base, bool fancy);
std::uint64_t ref_fallback(int ft, const char32_t* s, std::size_t n, long& consumed, bool& range);
void oracle_init();
bool bits_nan(std::uint64_t b, int ft);

// gen.cpp
typedef SoloRes (*SoloFn)(const Op&, const std::vector<Op>&);
Plan gen_plan(int prop, std::uint64_t seed, std::uint64_t idx, SoloFn);
bool is_lib(int kind);

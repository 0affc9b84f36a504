#include "core.h"
#include "life.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cfenv>
#include <climits>
#include <clocale>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cwchar>
#include <deque>
#include <dlfcn.h>
#include <exception>
#include <locale.h>
#include <locale>
#include <memory>
#include <new>
#include <ostream>
#include <stdexcept>
#include <pthread.h>
#include <semaphore.h>
#include <streambuf>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <unistd.h>

// ================================================================ names
const char* const fault_names[F_KINDS] = {"kill", "stall", "interrupt", "alloc_fail", "locale_switch", "sink_fail", "pipe_damage", "stale_errno", "odd_fallback", "new_handler", "short_io", "fp_environment", "fork", "life_phase"};
const char* const op_names[O_KINDS] = {"print", "printstr", "parse", "parsestr", "diag", "setlocale", "uselocale", "cpplocale", "observe", "tailwrite", "send", "sendtext", "recv", "close", "repeat", "idle", "fork"};
const char* const policy_names[P_KINDS] = {"seq", "ops", "random", "pct", "roundrobin", "window", "shared", "explicit", "life"};
const char* const viol_names[V_KINDS] = {"none", "wrong-result", "wrong-value", "stray-write", "text-modified", "stray-read", "heap-misuse", "bad-length", "neighbour-changed", "leak", "wrong-exception", "process-ended", "bad-memory-access",
	"unexpected-allocation", "retry-failed", "error-number-changed", "locale-changed", "no-progress", "step-budget", "fallback-call", "wrong-status", "stream-protocol", "end-pointer", "pipe-record", "fp-environment", "memory-budget"};
const char* const probe_names[PR_KINDS] = {"fallback_consulted", "subnormal_value", "overflow_status", "underflow_status", "nan", "inf", "exponent_notation", "decimal_notation", "rejected_text", "partly_consumed_text", "text_over_100_chars",
	"preempted_inside_conversion", "two_conversions_in_flight", "three_conversions_in_flight", "nested_depth_2", "nested_depth_4", "killed_inside_conversion", "stalled_inside_conversion", "bad_alloc_reached_caller", "alloc_failure_survived", "retry_after_alloc_failure_ok", "text_ends_at_guard_page",
	"write_behind_terminator_during_parse", "locale_switched_inside_conversion", "fallback_threw", "fallback_range_error", "sink_failed", "sink_threw", "stream_failed_before", "stream_settings_not_default", "stream_sync_failed", "record_split_by_read", "record_split_by_write", "damaged_record_parsed",
	"writable_global_accessed", "lock_used", "atomic_used", "wide_char", "utf16_32", "float", "double", "marathon", "same_buffer_new_text", "stale_errno_at_call", "run_cut_by_tick_limit", "printed_in_odd_fp_environment", "parsed_in_odd_fp_environment", "default_fallback_in_odd_fp_environment", "forked_while_other_conversions_in_flight", "forked_while_a_lock_was_held", "marathon_of_distinct_calls", "long_text_compared_with_short_ones", "more_than_eight_threads", "environment_names_a_locale", "bits_of_a_number", "floating_point_traps_enabled",
	"life_before_other_static_objects", "life_main", "life_thread", "life_thread_local_destructor", "life_thread_key_destructor", "life_after_threads", "life_forked_child", "life_main_thread_local_destructor",
	"life_exit_handler", "life_last_static_destructor", "life_thread_outliving_exit", "life_fini_function"};

std::uint32_t viol_mask(int prop)
{
#define M(x) (1u << (x))
	const std::uint32_t dead = M(V_CRASH) | M(V_SEGV);
	switch (prop)
	{
	case 1: return M(V_RESULT) | M(V_STUCK) | dead;
	case 2: return M(V_RESULT) | M(V_ERRNO) | dead;
	case 3: return M(V_RESULT) | M(V_LOCALE) | dead;
	case 4: return M(V_RESULT) | M(V_LEAK) | M(V_EXC) | M(V_ALLOC) | M(V_RETRY) | M(V_HEAP) | M(V_ENDPTR) | M(V_STUCK) | dead;
	case 5: return M(V_WRITE) | M(V_NUL) | M(V_NEIGHBOUR) | M(V_SEGV) | M(V_RESULT);
	case 6: return M(V_READ) | M(V_TEXTWRITE) | M(V_WRITE) | M(V_HEAP) | M(V_SEGV) | M(V_RESULT);
	case 7: return M(V_RESULT) | M(V_STUCK) | dead;
	case 8: return M(V_FBCALL) | M(V_STATUS) | M(V_LEAK) | M(V_EXC) | M(V_RESULT) | M(V_STUCK) | dead;
	case 9: return M(V_PIPE) | M(V_STUCK) | dead;
	case 10: return M(V_REF) | dead;
	case 11: return M(V_BUDGET) | M(V_STUCK);
	case 12: return M(V_STREAM) | M(V_LEAK) | M(V_STUCK) | dead;
	case 13: return M(V_RESULT) | M(V_FPENV) | M(V_STUCK) | dead;
	case 15: return M(V_MEMORY) | M(V_LEAK) | M(V_ALLOC) | M(V_STUCK) | dead;
	case 14: return M(V_RESULT) | M(V_HEAP) | M(V_STUCK) | dead;
	}
	return 0;
#undef M
}

bool is_lib(int k) { return k <= O_DIAG; }

// ================================================================ state
Shared* shm;

enum { T_RUN, T_STALL, T_BLOCK, T_DONE, T_DEAD };
enum { MAXT = 80, FEWT = 8, MAXDEPTH = 6, RXPAD = 4, NESTPAD = 3, GUARDED = 5, NPAD = GUARDED + MAXDEPTH - 1, NESTSLOT = 3, NSLOT = NESTSLOT + MAXDEPTH };
enum { C_PLAIN, C_GLOBAL, C_ATOMIC, C_LOCK, C_ALLOC, C_SIM, C_CALLER };

struct Ctx
{
	const Op* op = nullptr;
	Ctx* up = nullptr;
	std::uint64_t step = 0, callstart = 0, budget = ~0ull;
	std::uint32_t nalloc = 0, serial = 0;
	const char* sp0 = nullptr;                // stack at the call
	std::size_t stack = 0, heap = 0, heappeak = 0;
	int live = 0;
	bool inlib = false, nested = false;
	char *slo = nullptr, *shi = nullptr;      // output slot
	char *tlo = nullptr, *thi = nullptr;      // text incl. terminator
	int csize = 1;
	std::vector<Fault> fl;                    // step faults, ascending
	std::size_t fnext = 0;
	std::vector<Fault> oom;
	bool oomoff = false, oomfired = false, sinkfired = false;
	// fallback bookkeeping
	int fbcalls = 0, dflcalls = 0;
	unsigned fpctl = 0;                       // floating-point control words of the call
	fenv_t fpsave;                            // those of the simulator
	const void* xstr = nullptr;
	const void* xend = nullptr;
	std::uint64_t fbbits = 0;
	long fbend = -1;
	bool fbrange = false, fbthrew = false, fbodd = false, fbuser = false;
};

struct Thr
{
	int id = 0, state = T_RUN;
	std::uint64_t wake = 0, steps = 0;
	int fut = 0;
	volatile int inop = 0;
	Ctx* ctx = nullptr;
	const void* blocked_on = nullptr;
	bool timed = false, expired = false;      // the wait has a time limit, which has been reached
	long live_total = 0, live_bytes = 0;
	double prio = 0;
	locale_t expect_use = LC_GLOBAL_LOCALE;
	int depth = 0;
	pthread_t pt;
	std::uint64_t lastpadtext[NPAD] = {};
};

struct PipeSt
{
	std::deque<char32_t> q;
	bool closed = false, broken = false;
	int nrec = 0, reader = -1, writer = -1;
	std::deque<std::pair<std::uint64_t, std::size_t>> sent; // bits, length of the record
	std::deque<bool> dam;
};

namespace
{
	thread_local Thr* self __attribute__((tls_model("initial-exec"))) = nullptr;

	struct World
	{
		const Plan* plan = nullptr;
		const Solos* solos = nullptr;
		bool verbose = false, solo = false;
		std::uint32_t mask = 0;
		Thr thr[MAXT];
		int nthr = 0;
		Rng pol;
		std::uint64_t countdown = 0, solocap = 3000000;
		std::uint64_t tickcap = 4000000;
		std::vector<std::uint64_t> pct; std::size_t pctnext = 0; double lowprio = -1;
		std::map<std::pair<std::uint64_t, std::uint64_t>, std::deque<int>> explicit_sw; // (tid,op),step -> targets
		std::vector<PipeSt> pipes;
		int expect_loc = 0;
		int expect_cpp = 0;
		std::uint32_t serial = 0;
		int window_other = 0;
	};
	World* W;

	// ------------------------------------------------------------ arena
	char* const ARENA = reinterpret_cast<char*>(0x200000000000ull);
	const std::size_t PAGE = 4096, PADDATA = 4 * PAGE, PADSZ = 5 * PAGE;
	char* const PADS = ARENA;
	const std::size_t PADS_SZ = MAXT * NPAD * PADSZ;
	char* const SLOTS = PADS + PADS_SZ;               // [red page][data pages][guard]
	const std::size_t SLOTS_SZ = 18 * PAGE;
	char* const HEAP = SLOTS + SLOTS_SZ;
	const std::size_t HEAP_SZ = 64u << 20;
	const std::size_t ARENA_SZ = PADS_SZ + SLOTS_SZ + HEAP_SZ;
	char* const SHADOW = reinterpret_cast<char*>(0x210000000000ull);
	char* const STACKS = reinterpret_cast<char*>(0x220000000000ull);
	const std::size_t STACK_SZ = 8u << 20;
	std::size_t heap_top;

	struct SlotInfo { char* lo = nullptr; std::size_t n = 0; bool busy = false; std::string mirror; };
	SlotInfo slots[MAXT][NSLOT];

	char* pad_addr(int tid, int i) { return PADS + (tid * NPAD + i) * PADSZ; }

	extern "C" char __data_start[], _end[];

	// ------------------------------------------------------------ log
	void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	void logf(const char* fmt, ...)
	{
		if (!W->verbose || shm->loglen > MAX_LOG - 3000)
			return;
		va_list ap;
		va_start(ap, fmt);
		int n = vsnprintf(shm->log + shm->loglen, 2900, fmt, ap);
		va_end(ap);
		if (n > 2899)
			n = 2899;
		shm->loglen += n;
		shm->log[shm->loglen++] = '\n';
	}
	void loghash(std::uint64_t a, std::uint64_t b, std::uint64_t c)
	{
		std::uint64_t v[3] = {a, b, c};
		shm->loghash = hash_bytes(shm->loghash, v, sizeof v);
	}

	void finish() __attribute__((noreturn));
	void finish()
	{
		shm->finished = 1;
		_exit(0);
	}

	void internal(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
	void internal(const char* fmt, ...)
	{
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(shm->detail, sizeof shm->detail, fmt, ap);
		va_end(ap);
		shm->internal = 1;
		finish();
	}

	// records a violation; returns only if it is none of this property's business
	void viol(int kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	void viol(int kind, const char* fmt, ...)
	{
		char buf[1200];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		if (W->solo)
		{
			if (!shm->viol && (kind == V_CRASH || kind == V_SEGV || kind == V_STUCK))
			{
				shm->viol = kind;
				finish();
			}
			return;
		}
		Thr* t = self;
		const int oid = t && t->ctx && t->ctx->op ? t->ctx->op->id : -1;
		if (W->mask & (1u << kind))
		{
			if (t) t->inop = 0;
			shm->viol = kind;
			snprintf(shm->detail, sizeof shm->detail, "%s: thread %d op %d step %llu: %s", viol_names[kind], t ? t->id : -1, oid,
				static_cast<unsigned long long>(t && t->ctx ? t->ctx->step : 0), buf);
			loghash(kind, t ? t->id : 99, oid);
			logf("VIOLATION %s", shm->detail);
			finish();
		}
		++shm->other_viol[kind];
		logf("(outside this property) %s: %s", viol_names[kind], buf);
		if (kind == V_CRASH || kind == V_SEGV || kind == V_STUCK)
			finish();
	}

	void probe(int p) { ++shm->probes[p]; }
	void fired(int f) { ++shm->fired[f]; }

	// ------------------------------------------------------------ handoff
	void fwait(int* p)
	{
		while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
			syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
		__atomic_store_n(p, 0, __ATOMIC_RELEASE);
	}
	void fwake(int* p)
	{
		__atomic_store_n(p, 1, __ATOMIC_RELEASE);
		syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
	}

	void wake_stalled()
	{
		for (int i = 0; i < W->nthr; ++i)
			if (W->thr[i].state == T_STALL && W->thr[i].wake <= shm->ticks + shm->idle_ticks)
			{
				W->thr[i].state = T_RUN;
				W->thr[i].expired = W->thr[i].timed;
			}
	}

	int runnable(int except, int* out)
	{
		int n = 0;
		for (int i = 0; i < W->nthr; ++i)
			if (i != except && W->thr[i].state == T_RUN)
				out[n++] = i;
		return n;
	}

	void record_switch(Thr* t, int to, bool forced)
	{
		++shm->nswitch;
		const int oid = t->ctx && t->ctx->op ? t->ctx->op->id : -1;
		const std::uint64_t st = t->ctx ? t->ctx->step : 0;
		if (shm->ntrace < MAX_TRACE)
			shm->trace[shm->ntrace++] = Switch{t->id, oid, st, to, forced};
		std::uint64_t v[3] = {static_cast<std::uint64_t>(t->id) << 32 | static_cast<std::uint32_t>(oid), st, static_cast<std::uint64_t>(to)};
		shm->schedhash = hash_bytes(shm->schedhash, v, sizeof v);
		loghash(v[0], v[1], v[2]);
		if (t->ctx && t->ctx->inlib && t->state != T_DONE)
			probe(PR_PREEMPT);
		int fl = 0;
		for (int i = 0; i < W->nthr; ++i)
			for (Ctx* c = W->thr[i].ctx; c; c = c->up)
				if (c->inlib)
				{
					++fl;
					break;
				}
		if (fl >= 2) probe(PR_INFLIGHT2);
		if (fl >= 3) probe(PR_INFLIGHT3);
	}

	void switch_to(Thr* t, int to, bool forced = false)
	{
		if (to == t->id && !forced)
			return;
		record_switch(t, to, forced);
		if (to == t->id)
			return;
		const int io = t->inop;
		t->inop = 0;
		logf("  [%llu] T%d -> T%d (op %d step %llu)", static_cast<unsigned long long>(shm->ticks), t->id, to, t->ctx && t->ctx->op ? t->ctx->op->id : -1,
			static_cast<unsigned long long>(t->ctx ? t->ctx->step : 0));
		fwake(&W->thr[to].fut);
		fwait(&t->fut);
		t->inop = io;
	}

	int explicit_target(Thr* t, bool forced = false)
	{
		const int oid = t->ctx && t->ctx->op ? t->ctx->op->id : -1;
		auto it = W->explicit_sw.find({static_cast<std::uint64_t>(t->id) << 32 | static_cast<std::uint32_t>(oid), (t->ctx ? t->ctx->step : 0) * 2 + forced});
		if (it == W->explicit_sw.end() || it->second.empty())
			return -1;
		const int to = it->second.front();
		it->second.pop_front();
		return to;
	}

	// current thread cannot go on: choose another one (or end the run)
	void switch_away(Thr* t)
	{
		for (;;)
		{
			wake_stalled();
			int r[MAXT];
			int n = runnable(-1, r);
			if (n)
			{
				int to = r[0];
				switch (W->plan->policy)
				{
				case P_EXPLICIT:
				{
					const int x = explicit_target(t, true);
					for (int i = 0; i < n; ++i)
						if (r[i] == x)
							to = x;
					break;
				}
				case P_PCT:
					for (int i = 0; i < n; ++i)
						if (W->thr[r[i]].prio > W->thr[to].prio)
							to = r[i];
					break;
				case P_SEQ:
					break;
				case P_RR:
					to = r[0];
					for (int i = 0; i < n; ++i)
						if (r[i] > t->id)
						{
							to = r[i];
							break;
						}
					break;
				default:
					to = r[W->pol.below(n)];
				}
				switch_to(t, to, true);
				return;
			}
			// nobody runnable: let the simulated clock jump to the end of the first stall
			std::uint64_t best = ~0ull;
			for (int i = 0; i < W->nthr; ++i)
				if (W->thr[i].state == T_STALL)
					best = std::min(best, W->thr[i].wake);
			if (best != ~0ull)
			{
				const std::uint64_t now = shm->ticks + shm->idle_ticks;
				shm->idle_ticks += best > now ? best - now : 0;
				continue;
			}
			for (int i = 0; i < W->nthr; ++i)
				if (W->thr[i].state == T_BLOCK)
				{
					Thr* b = &W->thr[i];
					self = b;
					viol(V_STUCK, "conversion waits for something only a stalled, killed or interrupted conversion could provide");
					finish();
				}
			finish();
		}
	}

	void decide(Thr* t, int cls)
	{
		if (W->nthr < 2)
			return;
		int r[MAXT], n;
		switch (W->plan->policy)
		{
		case P_SEQ:
			return;
		case P_OPS:
			if (cls != C_SIM || !W->pol.chance(1, 2))
				return;
			break;
		case P_RAND:
			if (W->countdown-- > 0)
				return;
			W->countdown = W->pol.below(2 * W->plan->pol_a + 1);
			break;
		case P_RR:
			if (W->countdown-- > 0)
				return;
			W->countdown = W->plan->pol_a;
			wake_stalled();
			n = runnable(t->id, r);
			if (n)
			{
				int to = r[0];
				for (int i = 0; i < n; ++i)
					if (r[i] > t->id)
					{
						to = r[i];
						break;
					}
				switch_to(t, to);
			}
			return;
		case P_SHARED:
			if (cls == C_GLOBAL || cls == C_ATOMIC || cls == C_LOCK)
			{
				if (!W->pol.chance(1, 2))
					return;
			}
			else if (cls == C_SIM)
			{
				if (!W->pol.chance(1, 3))
					return;
			}
			else
			{
				if (W->countdown-- > 0)
					return;
				W->countdown = W->pol.below(2 * W->plan->pol_a + 1);
			}
			break;
		case P_WIN:
			if (explicit_target(t) == -2)
				break;
			if (cls == C_SIM && W->pol.chance(1, 4))
				break;
			return;
		case P_PCT:
		{
			wake_stalled();
			while (W->pctnext < W->pct.size() && W->pct[W->pctnext] <= shm->ticks)
			{
				t->prio = W->lowprio;
				W->lowprio -= 1;
				++W->pctnext;
			}
			n = runnable(-1, r);
			int to = t->id;
			for (int i = 0; i < n; ++i)
				if (W->thr[r[i]].prio > W->thr[to].prio)
					to = r[i];
			switch_to(t, to);
			return;
		}
		case P_EXPLICIT:
		{
			for (;;)
			{
				const int to = explicit_target(t);
				if (to < 0)
					return;
				wake_stalled();
				if (to < W->nthr && to != t->id && W->thr[to].state == T_RUN)
				{
					switch_to(t, to);
					return; // resumed: the rest of targets of this step belong to later visits
				}
			}
		}
		}
		wake_stalled();
		n = runnable(t->id, r);
		if (n)
			switch_to(t, r[W->pol.below(n)]);
	}

	void run_nested(Thr* t, int idx, bool interrupt);
	void switch_locale(int kind, int i);

	// one tick of simulated time
	void point(Thr* t, int cls)
	{
		Ctx* c = t->ctx;
		++shm->ticks;
		++t->steps;
		if (!c)
		{
			if (!W->solo)
				decide(t, cls);
			return;
		}
		++c->step;
		if (W->solo)
		{
			if (c->step > W->solocap)
				viol(V_STUCK, "does not finish");
			return;
		}
		while (c->fnext < c->fl.size() && c->fl[c->fnext].at <= c->step)
		{
			const Fault f = c->fl[c->fnext++];
			loghash(1000 + f.kind, t->id, c->step);
			logf("  [%llu] fault %s T%d op %d step %llu", static_cast<unsigned long long>(shm->ticks), fault_names[f.kind], t->id, c->op->id, static_cast<unsigned long long>(c->step));
			switch (f.kind)
			{
			case F_KILL:
				fired(F_KILL);
				if (c->inlib) probe(PR_KILLED_IN_OP);
				t->state = T_DEAD;
				for (auto& p : W->pipes)
				{
					if (p.writer == t->id) p.closed = true;
					if (p.reader == t->id) p.broken = true;
				}
				for (int i = 0; i < W->nthr; ++i) // wake those who wait for a pipe end
					if (W->thr[i].state == T_BLOCK && W->thr[i].blocked_on && *static_cast<const char*>(W->thr[i].blocked_on) == 'P')
						W->thr[i].state = T_RUN;
				switch_away(t);
				internal("dead thread resumed");
			case F_STALL:
				fired(F_STALL);
				if (c->inlib) probe(PR_STALLED_IN_OP);
				t->state = T_STALL;
				t->wake = shm->ticks + shm->idle_ticks + f.a;
				switch_away(t);
				break;
			case F_INTR:
				fired(F_INTR);
				run_nested(t, static_cast<int>(f.a), true);
				break;
			case F_LOCALE:
				fired(F_LOCALE);
				if (c->inlib) probe(PR_LOCALE_IN_OP);
				switch_locale(static_cast<int>(f.a), static_cast<int>(f.b));
				break;
			}
		}
		if (c->inlib && c->step - c->callstart > c->budget)
		{
			c->budget = ~0ull;
			viol(V_BUDGET, "%s takes more than %llu steps", op_names[c->op->kind], static_cast<unsigned long long>(c->step - c->callstart));
		}
		if (c->inlib && c->step - c->callstart > W->solocap)
			viol(V_STUCK, "%s has not finished after %llu steps of its own", op_names[c->op->kind], static_cast<unsigned long long>(c->step - c->callstart));
		if (shm->ticks > W->tickcap)
		{
			probe(PR_TRUNC_RUN);
			finish();
		}
		if (c->inlib && c->step - c->callstart > 200000 && (c->step & 1023) == 0)
		{
			// perhaps busy waiting: let the others go on
			wake_stalled();
			int r[MAXT];
			const int n = runnable(t->id, r);
			if (n)
				switch_to(t, r[(c->step >> 10) % n]);
			return;
		}
		decide(t, cls);
	}

	// ------------------------------------------------------------ footprint
	int classify(Thr* t, const char* p, std::size_t n, bool w)
	{
		if (p >= ARENA && p < ARENA + ARENA_SZ)
		{
			Ctx* c = t->ctx;
			if (p >= HEAP)
			{
				for (std::size_t i = 0; i < n; ++i)
					if (SHADOW[p + i - HEAP] != 1)
					{
						viol(V_HEAP, "%s of %zu bytes at heap block offset, byte %zu is %s", w ? "write" : "read", n, i, SHADOW[p + i - HEAP] ? "freed" : "outside any block");
						break;
					}
				return C_PLAIN;
			}
			if (p >= SLOTS)
			{
				const bool own = c->slo && p >= c->slo && p + n <= c->shi;
				if (!own && w)
					viol(V_WRITE, "write of %zu bytes at offset %ld of the output slot of %ld bytes", n, c->slo ? static_cast<long>(p - c->slo) : -1L, c->slo ? static_cast<long>(c->shi - c->slo) : 0L);
				return C_CALLER;
			}
			const bool own = c->tlo && p >= c->tlo && p + n <= c->thi;
			if (w && own)
				viol(V_TEXTWRITE, "write of %zu bytes at offset %ld of the text", n, static_cast<long>(p - c->tlo));
			else if (w)
				viol(V_WRITE, "write of %zu bytes to caller's memory (offset %ld from the text)", n, c->tlo ? static_cast<long>(p - c->tlo) : -1L);
			else if (!own)
				viol(V_READ, "read of %zu bytes at offset %ld; the text incl. terminator has %ld bytes", n, c->tlo ? static_cast<long>(p - c->tlo) : -1L, c->tlo ? static_cast<long>(c->thi - c->tlo) : 0L);
			return C_CALLER;
		}
		if (p >= __data_start && p < _end)
		{
			probe(PR_GLOBALRW);
			return C_GLOBAL;
		}
		return C_PLAIN;
	}

	// what a call may take of the stack (its own frames and those of inline library code) and of the heap
	enum { STACK_BUDGET = 4096, HEAP_BUDGET = 1024, HELD_BUDGET = 32768 };

	__attribute__((noinline)) void access(Thr* t, const void* p, std::size_t n, bool w, int cls = C_PLAIN)
	{
		const int e = errno;
		t->inop = 0;
		Ctx* const c = t->ctx;
		const char* const sp = static_cast<const char*>(__builtin_frame_address(0));
		if (c->sp0 && sp < c->sp0 && static_cast<std::size_t>(c->sp0 - sp) > c->stack)
		{
			c->stack = c->sp0 - sp;
			if (c->stack > STACK_BUDGET)
			{
				const std::size_t s = c->stack;
				c->stack = ~std::size_t(0) >> 1;
				viol(V_MEMORY, "%s uses more than %zu bytes of stack", op_names[c->op->kind], s);
			}
		}
		const int k = n ? classify(t, static_cast<const char*>(p), n, w) : C_PLAIN;
		point(t, cls == C_PLAIN ? k : cls);
		t->inop = 1;
		errno = e;
	}

	// ------------------------------------------------------------ heap
	struct Hdr { std::size_t n; std::uint32_t serial; int tid; Thr* owner; std::uint64_t magic; };
	const std::uint64_t MAGIC = 0xF10A51E5A110C8EDull;

	void* heap_alloc(Thr* t, std::size_t n, std::size_t align)
	{
		if (align < 16) align = 16;
		std::size_t at = (heap_top + sizeof(Hdr) + 32 + align - 1) / align * align;
		if (n > HEAP_SZ || at + n + 64 > HEAP_SZ)
			return nullptr;
		char* p = HEAP + at;
		Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
		h->n = n;
		h->serial = t->ctx ? t->ctx->serial : 0;
		h->tid = t->id;
		h->owner = t;
		h->magic = MAGIC;
		const unsigned char pat = static_cast<unsigned char>(W->plan->fill);
		std::memset(p, pat, n);
		std::memset(SHADOW + at, 1, n);
		heap_top = at + n;
		++t->live_total;
		t->live_bytes += static_cast<long>(n);
		if (Ctx* c = t->ctx)
		{
			++c->live;
			c->heap += n;
			if (c->heap > c->heappeak)
				c->heappeak = c->heap;
		}
		return p;
	}

	bool in_heap(const void* p) { return p >= HEAP && p < HEAP + HEAP_SZ; }

	void heap_free(void* p)
	{
		const std::size_t at = static_cast<char*>(p) - HEAP;
		Hdr* h = static_cast<Hdr*>(p) - 1;
		if (at < sizeof(Hdr) || h->magic != MAGIC)
		{
			viol(V_HEAP, "release of something which isn't a block");
			return;
		}
		if (SHADOW[at] == 2 && h->n)
		{
			viol(V_HEAP, "double release");
			return;
		}
		std::memset(SHADOW + at, 2, h->n);
		std::memset(p, 0xDD, h->n);
		--h->owner->live_total;
		h->owner->live_bytes -= static_cast<long>(h->n);
		Thr* t = self;
		if (t && t->ctx && t->ctx->serial == h->serial)
		{
			--t->ctx->live;
			t->ctx->heap -= h->n;
		}
	}

	// returns nullptr if the allocation is to fail
	void* lib_alloc(Thr* t, std::size_t n, std::size_t align)
	{
		t->inop = 0;
		const int e = errno;
		Ctx* c = t->ctx;
		++c->nalloc;
		point(t, C_ALLOC);
		void* r = nullptr;
		bool fail = false;
		if (!c->oomoff)
			for (const Fault& f : c->oom)
				if (c->nalloc == f.at || (f.a && c->nalloc > f.at))
					fail = true;
		if (fail)
		{
			c->oomfired = true;
			fired(F_OOM);
			loghash(2000, t->id, c->nalloc);
			logf("  [%llu] fault alloc_fail T%d op %d allocation %u (%zu bytes)", static_cast<unsigned long long>(shm->ticks), t->id, c->op->id, c->nalloc, n);
		}
		else
			r = heap_alloc(t, n, align);
		errno = e;
		t->inop = 1;
		return r;
	}

	void nh_body();

	void* do_new(std::size_t n, std::size_t align, bool nothrow)
	{
		Thr* t = self;
		if (life_on)
		{
			void* p = life_alloc(n);
			if (!p && !nothrow) throw std::bad_alloc();
			return p;
		}
		if (!t || !t->inop)
		{
			void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
			if (!p)
			{
				if (nothrow) return nullptr;
				throw std::bad_alloc();
			}
			return p;
		}
		for (;;)
		{
			if (void* p = lib_alloc(t, n, align))
				return p;
			std::new_handler h = std::get_new_handler();
			if (!h)
			{
				if (nothrow) return nullptr;
				throw std::bad_alloc();
			}
			try
			{
				h();
			}
			catch (const std::bad_alloc&)
			{
				if (nothrow) return nullptr;
				throw;
			}
		}
	}
}

void* operator new(std::size_t n) { return do_new(n, 0, false); }
void* operator new[](std::size_t n) { return do_new(n, 0, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, true); }
void* operator new(std::size_t n, std::align_val_t a) { return do_new(n, static_cast<std::size_t>(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return do_new(n, static_cast<std::size_t>(a), false); }

// The malloc family is replaced for the whole process, libc and libstdc++ included.
extern "C"
{
	void* __libc_malloc(std::size_t);
	void* __libc_calloc(std::size_t, std::size_t);
	void* __libc_realloc(void*, std::size_t);
	void __libc_free(void*);

	void* malloc(std::size_t n) noexcept
	{
		if (life_on)
			return life_alloc(n);
		Thr* t = self;
		return t && t->inop ? lib_alloc(t, n, 0) : __libc_malloc(n);
	}
	void* calloc(std::size_t a, std::size_t b) noexcept
	{
		Thr* t = self;
		if (!life_on && (!t || !t->inop))
			return __libc_calloc(a, b);
		std::size_t n;
		if (__builtin_mul_overflow(a, b, &n))
			return nullptr;
		void* p = life_on ? life_alloc(n) : lib_alloc(t, n, 0);
		if (p)
			std::memset(p, 0, n);
		return p;
	}
	void free(void* p) noexcept
	{
		if (life_on)
			life_free(p);
		else if (p && in_heap(p))
			heap_free(p);
		else
			__libc_free(p);
	}
	void* realloc(void* p, std::size_t n) noexcept
	{
		if (life_on)
			return life_realloc(p, n);
		Thr* t = self;
		if (p && !in_heap(p))
			return __libc_realloc(p, n);
		if (!(t && t->inop) && !p)
			return __libc_realloc(p, n);
		void* r = t && t->inop ? lib_alloc(t, n, 0) : __libc_malloc(n);
		if (r && p)
		{
			const std::size_t old = (static_cast<Hdr*>(p) - 1)->n;
			std::memcpy(r, p, old < n ? old : n);
			heap_free(p);
		}
		return r;
	}
}

static void do_delete(void* p)
{
	if (!p)
		return;
	if (life_on)
	{
		life_free(p);
		return;
	}
	if (in_heap(p))
	{
		Thr* t = self;
		if (t && t->inop)
		{
			const int e = errno;
			t->inop = 0;
			heap_free(p);
			point(t, C_ALLOC);
			t->inop = 1;
			errno = e;
		}
		else
			heap_free(p);
	}
	else
		__libc_free(p);
}
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, std::size_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { do_delete(p); }

// ================================================================ instrumentation hooks
// the C library's conversions raise exceptions of their own
struct NoTraps
{
	const int on = fegetexcept();
	NoTraps() { if (on) fedisableexcept(FE_ALL_EXCEPT); }
	~NoTraps() { if (on) { feclearexcept(FE_ALL_EXCEPT); feenableexcept(on); } }
};
static void dfl() { Thr* t = self; if (t && t->inop) ++t->ctx->dflcalls; }
#define HOOK(p, n, w) do { Thr* t_ = self; if (t_ && t_->inop) access(t_, p, n, w); else if (life_on) life_access(p, n); } while (0)
extern "C"
{
	void __tsan_init() {}
	void __tsan_func_entry(void*) { HOOK(nullptr, 0, false); }
	void __tsan_func_exit() {}
#define RW(n) \
	void __tsan_read##n(void* p) { HOOK(p, n, false); } \
	void __tsan_write##n(void* p) { HOOK(p, n, true); } \
	void __tsan_unaligned_read##n(void* p) { HOOK(p, n, false); } \
	void __tsan_unaligned_write##n(void* p) { HOOK(p, n, true); } \
	void __tsan_volatile_read##n(void* p) { HOOK(p, n, false); } \
	void __tsan_volatile_write##n(void* p) { HOOK(p, n, true); } \
	void __tsan_unaligned_volatile_read##n(void* p) { HOOK(p, n, false); } \
	void __tsan_unaligned_volatile_write##n(void* p) { HOOK(p, n, true); } \
	void __tsan_read_write##n(void* p) { HOOK(p, n, true); } \
	void __tsan_unaligned_read_write##n(void* p) { HOOK(p, n, true); }
	RW(1) RW(2) RW(4) RW(8) RW(16)
	void __tsan_read_range(void* p, std::size_t n) { HOOK(p, n, false); }
	void __tsan_write_range(void* p, std::size_t n) { HOOK(p, n, true); }
	void __tsan_vptr_read(void** p) { HOOK(p, 8, false); }
	void __tsan_vptr_update(void** p, void*) { HOOK(p, 8, true); }
	void* __tsan_memcpy(void* d, const void* s, std::size_t n)
	{
		HOOK(s, n, false);
		HOOK(d, n, true);
		return memmove(d, s, n);
	}
	void* __tsan_memmove(void* d, const void* s, std::size_t n)
	{
		HOOK(s, n, false);
		HOOK(d, n, true);
		return memmove(d, s, n);
	}
	void* __tsan_memset(void* d, int c, std::size_t n)
	{
		HOOK(d, n, true);
		return memset(d, c, n);
	}
	// calls which the compiler leaves as plain calls
	wchar_t* __real_wmemset(wchar_t*, wchar_t, std::size_t);
	wchar_t* __wrap_wmemset(wchar_t* d, wchar_t c, std::size_t n)
	{
		HOOK(d, n * sizeof(wchar_t), true);
		return __real_wmemset(d, c, n);
	}
	wchar_t* __wrap_wmemmove(wchar_t* d, const wchar_t* s, std::size_t n)
	{
		HOOK(s, n * sizeof(wchar_t), false);
		HOOK(d, n * sizeof(wchar_t), true);
		return static_cast<wchar_t*>(memmove(d, s, n * sizeof(wchar_t)));
	}
	wchar_t* __wrap_wmemcpy(wchar_t* d, const wchar_t* s, std::size_t n) { return __wrap_wmemmove(d, s, n); }
#ifdef WRAP_MEM
	void* __real_memmove(void*, const void*, std::size_t);
#endif
}

#define ATOMIC_POINT(p, n, w) do { Thr* t_ = self; if (t_ && t_->inop) { probe(PR_ATOMIC); access(t_, p, n, w, C_ATOMIC); } } while (0)
extern "C"
{
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* a, int) { ATOMIC_POINT(const_cast<T*>(a), sizeof(T), false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile T* a, T v, int) { ATOMIC_POINT(const_cast<T*>(a), sizeof(T), true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { ATOMIC_POINT(const_cast<T*>(a), sizeof(T), true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { ATOMIC_POINT(const_cast<T*>(a), sizeof(T), true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { ATOMIC_POINT(const_cast<T*>(a), sizeof(T), true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { ATOMIC_POINT(const_cast<T*>(a), sizeof(T), true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { ATOMIC_POINT(const_cast<T*>(a), sizeof(T), true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { ATOMIC_POINT(const_cast<T*>(a), sizeof(T), true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { ATOMIC_POINT(const_cast<T*>(a), sizeof(T), true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { ATOMIC_POINT(const_cast<T*>(a), sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { ATOMIC_POINT(const_cast<T*>(a), sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { ATOMIC_POINT(const_cast<T*>(a), sizeof(T), true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
	AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
	void __tsan_atomic_thread_fence(int) { HOOK(nullptr, 0, false); }
	void __tsan_atomic_signal_fence(int) { HOOK(nullptr, 0, false); }
}

// ================================================================ cooperative locks
namespace
{
	struct Lock { char tag = 'L'; int owner = -1; int depth = 0; int readers = 0; };
	std::map<const void*, Lock>* locks;
	struct Guarded // leaves library mode while the simulator works
	{
		Thr* t; int io, e;
		Guarded() : t(self), io(t ? t->inop : 0), e(errno) { if (t) t->inop = 0; }
		~Guarded() { if (t) t->inop = io; errno = e; }
	};
	bool simulated() { return self && self->inop && !W->solo; }

	void unblock(const void* l)
	{
		for (int i = 0; i < W->nthr; ++i)
			if ((W->thr[i].state == T_BLOCK || (W->thr[i].state == T_STALL && W->thr[i].timed)) && W->thr[i].blocked_on == l)
			{
				W->thr[i].state = T_RUN;
				W->thr[i].timed = false;
			}
	}
	void block_on(Thr* t, const void* l)
	{
		t->state = T_BLOCK;
		t->blocked_on = l;
		switch_away(t);
	}
	// a wait with a time limit; false: the limit has been reached
	bool block_timed(Thr* t, const void* l)
	{
		t->blocked_on = l;
		t->timed = true;
		t->expired = false;
		t->wake = shm->ticks + shm->idle_ticks + 20000;
		t->state = T_STALL;
		switch_away(t);
		t->timed = false;
		if (t->expired && t->ctx && t->ctx->inlib)
			viol(V_BUDGET, "%s has waited for another thread until its time limit", op_names[t->ctx->op->kind]);
		return !t->expired;
	}
	Lock& lock_of(const void* m) { return (*locks)[m]; }

	int lock_ex(const void* m, bool rec, bool tryonly, bool timed = false)
	{
		Guarded g;
		probe(PR_LOCK);
		point(g.t, C_LOCK);
		Lock& l = lock_of(m);
		while (l.owner >= 0 || l.readers)
		{
			if (rec && l.owner == g.t->id)
			{
				++l.depth;
				return 0;
			}
			if (tryonly)
				return EBUSY;
			if (!timed)
				block_on(g.t, &l);
			else if (!block_timed(g.t, &l))
				return ETIMEDOUT;
		}
		l.owner = g.t->id;
		l.depth = 1;
		return 0;
	}
	int lock_sh(const void* m, bool tryonly, bool timed = false)
	{
		Guarded g;
		probe(PR_LOCK);
		point(g.t, C_LOCK);
		Lock& l = lock_of(m);
		while (l.owner >= 0)
		{
			if (tryonly)
				return EBUSY;
			if (!timed)
				block_on(g.t, &l);
			else if (!block_timed(g.t, &l))
				return ETIMEDOUT;
		}
		++l.readers;
		return 0;
	}
	void release(Lock& l)
	{
		if (l.owner >= 0)
		{
			if (--l.depth == 0)
				l.owner = -1;
		}
		else if (l.readers)
			--l.readers;
		unblock(&l);
	}
	int unlock_any(const void* m)
	{
		Guarded g;
		release(lock_of(m));
		point(g.t, C_LOCK);
		return 0;
	}

	// condition variables: the mutex is given up and the wait begins in one step
	int cond_wait(const void* c, pthread_mutex_t* m, bool timed)
	{
		Guarded g;
		probe(PR_LOCK);
		point(g.t, C_LOCK);
		Lock& l = lock_of(c);
		release(lock_of(m));
		bool in_time = true;
		if (timed)
			in_time = block_timed(g.t, &l);
		else
			block_on(g.t, &l);
		lock_ex(m, false, false);
		return in_time ? 0 : ETIMEDOUT;
	}
	int cond_wake(const void* c, bool all)
	{
		Guarded g;
		probe(PR_LOCK);
		point(g.t, C_LOCK);
		Lock& l = lock_of(c);
		for (int i = 0; i < W->nthr; ++i)
			if ((W->thr[i].state == T_BLOCK || (W->thr[i].state == T_STALL && W->thr[i].timed)) && W->thr[i].blocked_on == &l)
			{
				W->thr[i].state = T_RUN;
				W->thr[i].timed = false;
				if (!all)
					break;
			}
		point(g.t, C_LOCK);
		return 0;
	}
	int sem_take(sem_t* s, bool timed);

	template<class F> F real_fn(F, const char* name, const char* version)
	{
		void* p = dlvsym(RTLD_NEXT, name, version);
		if (!p)
			p = dlsym(RTLD_NEXT, name);
		return reinterpret_cast<F>(p);
	}
}

extern "C"
{
#define REAL1(name, T) int __real_##name(T*);
	REAL1(pthread_mutex_lock, pthread_mutex_t) REAL1(pthread_mutex_trylock, pthread_mutex_t) REAL1(pthread_mutex_unlock, pthread_mutex_t)
	REAL1(pthread_rwlock_rdlock, pthread_rwlock_t) REAL1(pthread_rwlock_wrlock, pthread_rwlock_t) REAL1(pthread_rwlock_tryrdlock, pthread_rwlock_t)
	REAL1(pthread_rwlock_trywrlock, pthread_rwlock_t) REAL1(pthread_rwlock_unlock, pthread_rwlock_t)
	int __real_pthread_spin_lock(pthread_spinlock_t*);
	int __real_pthread_spin_trylock(pthread_spinlock_t*);
	int __real_pthread_spin_unlock(pthread_spinlock_t*);
	int __real_pthread_once(pthread_once_t*, void (*)());

	int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return simulated() ? lock_ex(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, false) : __real_pthread_mutex_lock(m); }
	int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return simulated() ? lock_ex(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, true) : __real_pthread_mutex_trylock(m); }
	int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return simulated() ? unlock_any(m) : __real_pthread_mutex_unlock(m); }
	int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return simulated() ? lock_sh(m, false) : __real_pthread_rwlock_rdlock(m); }
	int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return simulated() ? lock_sh(m, true) : __real_pthread_rwlock_tryrdlock(m); }
	int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return simulated() ? lock_ex(m, false, false) : __real_pthread_rwlock_wrlock(m); }
	int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return simulated() ? lock_ex(m, false, true) : __real_pthread_rwlock_trywrlock(m); }
	int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return simulated() ? unlock_any(m) : __real_pthread_rwlock_unlock(m); }
	int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { return simulated() ? lock_ex(const_cast<const int*>(m), false, false) : __real_pthread_spin_lock(m); }
	int __wrap_pthread_spin_trylock(pthread_spinlock_t* m) { return simulated() ? lock_ex(const_cast<const int*>(m), false, true) : __real_pthread_spin_trylock(m); }
	int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { return simulated() ? unlock_any(const_cast<const int*>(m)) : __real_pthread_spin_unlock(m); }

	// these are called from inside the C++ library as well, so they replace those of the C library
#define REAL(name, version) real_fn(&name, #name, version)
	int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return simulated() ? cond_wait(c, m, false) : REAL(pthread_cond_wait, "GLIBC_2.3.2")(c, m); }
	int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { return simulated() ? cond_wait(c, m, true) : REAL(pthread_cond_timedwait, "GLIBC_2.3.2")(c, m, ts); }
	int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) { return simulated() ? cond_wait(c, m, true) : REAL(pthread_cond_clockwait, "GLIBC_2.34")(c, m, k, ts); }
	int pthread_cond_signal(pthread_cond_t* c) noexcept { return simulated() ? cond_wake(c, false) : REAL(pthread_cond_signal, "GLIBC_2.3.2")(c); }
	int pthread_cond_broadcast(pthread_cond_t* c) noexcept { return simulated() ? cond_wake(c, true) : REAL(pthread_cond_broadcast, "GLIBC_2.3.2")(c); }
	int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) noexcept { return simulated() ? lock_ex(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, false, true) : REAL(pthread_mutex_timedlock, "GLIBC_2.34")(m, ts); }
	int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const timespec* ts) noexcept { return simulated() ? lock_ex(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, false, true) : REAL(pthread_mutex_clocklock, "GLIBC_2.34")(m, k, ts); }
	int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const timespec* ts) noexcept { return simulated() ? lock_sh(m, false, true) : REAL(pthread_rwlock_timedrdlock, "GLIBC_2.34")(m, ts); }
	int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const timespec* ts) noexcept { return simulated() ? lock_ex(m, false, false, true) : REAL(pthread_rwlock_timedwrlock, "GLIBC_2.34")(m, ts); }
	int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t k, const timespec* ts) noexcept { return simulated() ? lock_sh(m, false, true) : REAL(pthread_rwlock_clockrdlock, "GLIBC_2.34")(m, k, ts); }
	int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t k, const timespec* ts) noexcept { return simulated() ? lock_ex(m, false, false, true) : REAL(pthread_rwlock_clockwrlock, "GLIBC_2.34")(m, k, ts); }
	int sem_wait(sem_t* s) { return simulated() ? sem_take(s, false) : REAL(sem_wait, "GLIBC_2.34")(s); }
	int sem_timedwait(sem_t* s, const timespec* ts) { return simulated() ? sem_take(s, true) : REAL(sem_timedwait, "GLIBC_2.34")(s, ts); }
	int sem_clockwait(sem_t* s, clockid_t k, const timespec* ts) { return simulated() ? sem_take(s, true) : REAL(sem_clockwait, "GLIBC_2.34")(s, k, ts); }
	int sem_trywait(sem_t* s) noexcept
	{
		if (simulated())
		{
			Guarded g;
			probe(PR_LOCK);
			point(g.t, C_LOCK);
		}
		return REAL(sem_trywait, "GLIBC_2.34")(s);
	}
	int sem_post(sem_t* s) noexcept
	{
		const int r = REAL(sem_post, "GLIBC_2.34")(s);
		if (simulated())
		{
			Guarded g;
			probe(PR_LOCK);
			unblock(&lock_of(s));
			point(g.t, C_LOCK);
		}
		return r;
	}
#undef REAL

	int __wrap_pthread_once(pthread_once_t* o, void (*f)())
	{
		if (!simulated())
			return __real_pthread_once(o, f);
		if (*o == 2)
			return 0;
		lock_ex(o, false, false);
		if (*o != 2)
		{
			try { f(); }
			catch (...) { unlock_any(o); throw; }
			*o = 2;
		}
		unlock_any(o);
		return 0;
	}

}
namespace
{
	int sem_take(sem_t* s, bool timed)
	{
		Guarded g;
		probe(PR_LOCK);
		point(g.t, C_LOCK);
		Lock& l = lock_of(s);
		while (real_fn(&sem_trywait, "sem_trywait", "GLIBC_2.34")(s))
			if (!timed)
				block_on(g.t, &l);
			else if (!block_timed(g.t, &l))
			{
				g.e = ETIMEDOUT;
				return -1;
			}
		return 0;
	}
}
extern "C"
{
	int __wrap___cxa_guard_acquire(std::uint64_t* g)
	{
		char* b = reinterpret_cast<char*>(g);
		if (b[0])
			return 0;
		if (simulated())
		{
			lock_ex(g, false, false);
			if (b[0])
			{
				unlock_any(g);
				return 0;
			}
		}
		b[1] = 1;
		return 1;
	}
	void __wrap___cxa_guard_release(std::uint64_t* g)
	{
		char* b = reinterpret_cast<char*>(g);
		b[0] = 1;
		b[1] = 0;
		if (simulated())
			unlock_any(g);
	}
	void __wrap___cxa_guard_abort(std::uint64_t* g)
	{
		reinterpret_cast<char*>(g)[1] = 0;
		if (simulated())
			unlock_any(g);
	}

	// time and yields of the library, if it ever had any
	int __wrap_sched_yield() { HOOK(nullptr, 0, false); return 0; }
	int __wrap_usleep(unsigned) { HOOK(nullptr, 0, false); return 0; }
	int __wrap_nanosleep(const timespec*, timespec*) { HOOK(nullptr, 0, false); return 0; }

	// locale and conversions of the C library: scheduling points before and after
	char* __real_setlocale(int, const char*);
	char* __wrap_setlocale(int c, const char* l)
	{
		HOOK(nullptr, 0, true);
		char* r = __real_setlocale(c, l);
		HOOK(nullptr, 0, true);
		return r;
	}
	locale_t __real_uselocale(locale_t);
	locale_t __wrap_uselocale(locale_t l)
	{
		HOOK(nullptr, 0, true);
		locale_t r = __real_uselocale(l);
		HOOK(nullptr, 0, true);
		return r;
	}
#define STRTO(name, F, C, EXTRA, ARG) \
	F __real_##name(const C*, C** EXTRA); \
	F __wrap_##name(const C* s, C** e EXTRA ARG) 
	double __real_strtod(const char*, char**);
	double __wrap_strtod(const char* s, char** e) { dfl(); HOOK(nullptr, 0, false); NoTraps nt; return __real_strtod(s, e); }
	float __real_strtof(const char*, char**);
	float __wrap_strtof(const char* s, char** e) { dfl(); HOOK(nullptr, 0, false); NoTraps nt; return __real_strtof(s, e); }
	double __real_wcstod(const wchar_t*, wchar_t**);
	double __wrap_wcstod(const wchar_t* s, wchar_t** e) { dfl(); HOOK(nullptr, 0, false); NoTraps nt; return __real_wcstod(s, e); }
	float __real_wcstof(const wchar_t*, wchar_t**);
	float __wrap_wcstof(const wchar_t* s, wchar_t** e) { dfl(); HOOK(nullptr, 0, false); NoTraps nt; return __real_wcstof(s, e); }
	double __real_strtod_l(const char*, char**, locale_t);
	double __wrap_strtod_l(const char* s, char** e, locale_t l) { dfl(); HOOK(nullptr, 0, false); double r; { NoTraps nt; r = __real_strtod_l(s, e, l); } HOOK(nullptr, 0, false); return r; }
	float __real_strtof_l(const char*, char**, locale_t);
	float __wrap_strtof_l(const char* s, char** e, locale_t l) { dfl(); HOOK(nullptr, 0, false); float r; { NoTraps nt; r = __real_strtof_l(s, e, l); } HOOK(nullptr, 0, false); return r; }
	double __real_wcstod_l(const wchar_t*, wchar_t**, locale_t);
	double __wrap_wcstod_l(const wchar_t* s, wchar_t** e, locale_t l) { dfl(); HOOK(nullptr, 0, false); double r; { NoTraps nt; r = __real_wcstod_l(s, e, l); } HOOK(nullptr, 0, false); return r; }
	float __real_wcstof_l(const wchar_t*, wchar_t**, locale_t);
	float __wrap_wcstof_l(const wchar_t* s, wchar_t** e, locale_t l) { dfl(); HOOK(nullptr, 0, false); float r; { NoTraps nt; r = __real_wcstof_l(s, e, l); } HOOK(nullptr, 0, false); return r; }
}

// ================================================================ library boundary
namespace { std::string describe(const Op& o); }
static unsigned fp_control()
{
	unsigned m;
	unsigned short w;
	__asm__ volatile("stmxcsr %0" : "=m"(m));
	__asm__ volatile("fnstcw %0" : "=m"(w));
	return (m & 0xffc0u) | static_cast<unsigned>(w) << 16;
}
static bool nan_involved(const Op& o)
{
	const auto nan = [&o](std::uint64_t b) { return o.ft ? (b & ~(1ull << 63)) > 0x7ff0000000000000ull : (b & 0x7fffffffu) > 0x7f800000u; };
	if (o.kind == O_PRINT || o.kind == O_PRINTSTR)
		return nan(o.bits);
	return (o.fb && nan(o.fbval)) || o.txt.find_first_of(U"nN") != std::u32string::npos;
}
void lib_enter()
{
	if (life_on)
	{
		life_lib(true);
		return;
	}
	Thr* t = self;
	Ctx* c = t->ctx;
	c->inlib = true;
	c->callstart = c->step;
	c->nalloc = 0;
	c->sp0 = static_cast<const char*>(__builtin_frame_address(0));
	c->stack = c->heap = c->heappeak = 0;
	fegetenv(&c->fpsave);
	if (c->op->fpm)
	{
		static const int modes[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
		fesetround(modes[c->op->fpm & 3]);
		if (c->op->fpm & 8)
		{
			// the caller has the process interrupted by invalid operations and the like
			feclearexcept(FE_ALL_EXCEPT);
			feenableexcept(FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW | (nan_involved(*c->op) ? 0 : FE_INVALID));
			if (!W->solo)
				probe(PR_FPTRAP);
		}
		else if (c->op->fpm & 4)
			feraiseexcept(FE_ALL_EXCEPT);
		if (!W->solo)
			fired(F_FPENV);
	}
	c->fpctl = fp_control();
	t->inop = 1;
	HOOK(nullptr, 0, false);
}
void lib_exit()
{
	if (life_on)
	{
		life_lib(false);
		return;
	}
	Thr* t = self;
	t->inop = 0;
	Ctx* c = t->ctx;
	c->inlib = false;
	const unsigned now = fp_control();
	fesetenv(&c->fpsave);
	if (now != c->fpctl)
		viol(V_FPENV, "%s: floating-point control words were %08x before the call and are %08x after it", describe(*c->op).c_str(), c->fpctl, now);
}

// user's code which is called by the library: it sees the caller's floating-point environment
struct InUserCode
{
	fenv_t e;
	explicit InUserCode(const char* who)
	{
		Ctx* c = self->ctx;
		const unsigned now = fp_control();
		fegetenv(&e);
		fesetround(FE_TONEAREST);
		fedisableexcept(FE_ALL_EXCEPT);
		if (c->inlib && now != c->fpctl)
			viol(V_FPENV, "%s: %s finds the floating-point control words %08x, the caller had set %08x", describe(*c->op).c_str(), who, now, c->fpctl);
	}
	~InUserCode() { fesetenv(&e); }
};

void fb_expect(const void* s, const void* e)
{
	if (life_on)
		return;
	Ctx* c = self->ctx;
	c->xstr = s;
	c->xend = e;
}

// ================================================================ locales
namespace
{
	const char* loc_names[N_LOC] = {"C", "de_DE.utf8", "tr_TR.utf8", "fa_IR.utf8", "ps_AF.utf8"};
	locale_t loc_objs[N_LOC];
	std::string loc_point[N_LOC], loc_cname[N_LOC];

	template<typename C> struct CommaPunct : std::numpunct<C>
	{
		C do_decimal_point() const override { return ','; }
		C do_thousands_sep() const override { return '.'; }
		std::string do_grouping() const override { return "\3"; }
		std::basic_string<C> do_truename() const override { return std::basic_string<C>(1, '1'); }
	};
	struct OddCtype : std::ctype<char>
	{
		char do_tolower(char c) const override { return c == 'I' ? 'y' : c == 'N' ? 'q' : c; }
		char do_toupper(char c) const override { return c == 'i' ? 'I' - 1 : static_cast<char>(c ^ 1); }
		const char* do_tolower(char* b, const char* e) const override { for (; b < e; ++b) *b = do_tolower(*b); return e; }
		const char* do_toupper(char* b, const char* e) const override { for (; b < e; ++b) *b = do_toupper(*b); return e; }
		static const mask* tab()
		{
			static mask m[table_size];
			for (auto& x : m) x = alpha | digit | alnum;
			return m;
		}
		OddCtype() : std::ctype<char>(tab()) {}
	};
	struct OddWctype : std::ctype<wchar_t>
	{
		wchar_t do_tolower(wchar_t c) const override { return c == L'I' ? L'\u0131' : c + 1; }
		wchar_t do_toupper(wchar_t c) const override { return c == L'i' ? L'\u0130' : c + 1; }
		bool do_is(mask, wchar_t c) const override { return c > L'5'; }
		char do_narrow(wchar_t, char d) const override { return d; }
	};
	struct ThrowCtype : std::ctype<char>
	{
		char do_tolower(char) const override { throw UserExc{77}; }
		char do_toupper(char) const override { throw UserExc{77}; }
	};
	std::locale* cpplocs[N_CPPLOC];

	void switch_locale(int kind, int i)
	{
		if (kind == 0)
		{
			__real_setlocale(LC_ALL, loc_names[i % N_LOC]);
			W->expect_loc = i % N_LOC;
		}
		else if (kind == 1)
		{
			Thr* t = self;
			t->expect_use = i % (N_LOC + 1) == N_LOC ? LC_GLOBAL_LOCALE : loc_objs[i % N_LOC];
			__real_uselocale(t->expect_use);
		}
		else
		{
			std::locale::global(*cpplocs[i % N_CPPLOC]);
			W->expect_cpp = i % N_CPPLOC;
			if (W->expect_cpp == 0)
				W->expect_loc = 0; // a named locale becomes the C library's as well
		}
	}

	void observe(Thr* t, const char* who)
	{
		const char* n = __real_setlocale(LC_ALL, nullptr);
		if (loc_cname[W->expect_loc] != n)
			viol(V_LOCALE, "%s: process locale is \"%s\", was set to \"%s\"", who, n, loc_cname[W->expect_loc].c_str());
		locale_t u = __real_uselocale(nullptr);
		if (u != t->expect_use)
			viol(V_LOCALE, "%s: locale of thread %d has changed", who, t->id);
		if (u == LC_GLOBAL_LOCALE && loc_point[W->expect_loc] != localeconv()->decimal_point)
			viol(V_LOCALE, "%s: decimal point is \"%s\"", who, localeconv()->decimal_point);
		if (!(std::locale() == *cpplocs[W->expect_cpp]))
			viol(V_LOCALE, "%s: global C++ locale has changed", who);
	}
}
const char* locale_name(int i) { return loc_names[i]; }

// ================================================================ executing operations
namespace
{
	std::string show(const std::uint32_t* p, int n)
	{
		std::string s;
		for (int i = 0; i < n; ++i)
		{
			char b[16];
			if (p[i] >= 32 && p[i] < 127) s += static_cast<char>(p[i]);
			else { snprintf(b, sizeof b, "\\x{%x}", p[i]); s += b; }
		}
		return s;
	}
	std::string show(const std::u32string& s, std::size_t max = 120)
	{
		std::string r = show(reinterpret_cast<const std::uint32_t*>(s.data()), static_cast<int>(std::min(s.size(), max)));
		if (s.size() > max)
			r += "...(" + std::to_string(s.size()) + " characters)";
		return r;
	}
	std::string describe(const LibRes& r)
	{
		char b[200];
		static const char* const ex[] = {"", " bad_alloc", " user-exception", " std::exception", " unknown-exception"};
		snprintf(b, sizeof b, "bits=%016llx status=%d end=%ld ret=%zu%s text=", static_cast<unsigned long long>(r.bits), r.status, r.end, r.ret, ex[r.exc]);
		return b + ("\"" + show(r.text, r.ntext) + "\"");
	}
	std::string describe(const Op& o)
	{
		char b[200];
		snprintf(b, sizeof b, "%s<%s,%s> bits=%016llx exp=%d fb=%d/%d endmode=%d text=", op_names[o.kind], o.ft ? "double" : "float",
			o.ct == 0 ? "char" : o.ct == 1 ? "wchar_t" : o.ct == 2 ? "char16_t" : "char32_t", static_cast<unsigned long long>(o.bits), o.exp, o.fb, o.fbs, o.endmode);
		return b + ("\"" + show(o.txt) + "\"");
	}

	bool same(const LibRes& a, const LibRes& b)
	{
		return a.exc == b.exc && a.bits == b.bits && a.status == b.status && a.end == b.end && a.ret == b.ret && a.ntext == b.ntext &&
			!std::memcmp(a.text, b.text, a.ntext * sizeof(std::uint32_t));
	}

	int csize(int ct) { return ct == 0 ? 1 : ct == 2 ? 2 : 4; }

	void put_char(char* p, int cs, char32_t c)
	{
		if (cs == 1) *p = static_cast<char>(c);
		else if (cs == 2) { char16_t x = static_cast<char16_t>(c); std::memcpy(p, &x, 2); }
		else std::memcpy(p, &c, 4);
	}
	char32_t get_char(const char* p, int cs)
	{
		if (cs == 1) return static_cast<unsigned char>(*p);
		if (cs == 2) { char16_t x; std::memcpy(&x, p, 2); return x; }
		char32_t c;
		std::memcpy(&c, p, 4);
		return c;
	}

	__attribute__((noinline)) void pollute(std::uint64_t pat)
	{
		volatile std::uint64_t a[1024];
		for (int i = 0; i < 1024; ++i)
			a[i] = pat;
		__asm__ volatile("" : : "r"(a) : "memory");
	}

	class SimBuf : public std::streambuf
	{
	public:
		std::string got;
		long limit = -1;
		int mode = 0;
		bool unbuffered_burst = false;
		bool syncfail = false;

	protected:
		int sync() override
		{
			Outside o;
			if (!syncfail)
				return 0;
			Ctx* c = self->ctx;
			if (!c->sinkfired)
			{
				c->sinkfired = true;
				fired(F_SINK);
				probe(PR_SINK_SYNC);
			}
			return -1;
		}
		bool room()
		{
			if (limit >= 0 && static_cast<long>(got.size()) >= limit)
			{
				Ctx* c = self->ctx;
				if (!c->sinkfired)
				{
					c->sinkfired = true;
					fired(F_SINK);
					probe(mode & 1 ? PR_SINK_THROW : PR_SINK_SHORT);
				}
				if (mode & 2) // just once
					limit = -1;
				if (mode & 1)
					throw UserExc{5};
				return false;
			}
			return true;
		}
		struct Outside
		{
			Thr* t; int io; int e;
			InUserCode fp;
			Outside() : t(self), io(t->inop), e(errno), fp("the stream's sink") { t->inop = 0; if (io) point(t, C_SIM); }
			~Outside() { t->inop = io; errno = e; }
		};
		int_type overflow(int_type ch) override
		{
			Outside o;
			if (ch == traits_type::eof())
				return 0;
			if (!room())
				return traits_type::eof();
			got.push_back(static_cast<char>(ch));
			return ch;
		}
		std::streamsize xsputn(const char* s, std::streamsize n) override
		{
			Outside o;
			std::streamsize i = 0;
			for (; i < n; ++i)
			{
				if (!room())
					break;
				got.push_back(s[i]);
			}
			return i;
		}
	};

	// everything about a stream which output leaves alone
	struct Settings
	{
		std::ios::fmtflags flags;
		std::ios::iostate exc;
		std::streamsize prec, width;
		char fill;
		std::streambuf* buf;
		std::ostream* tie;
		bool classic;
		bool operator==(const Settings& o) const
		{
			return flags == o.flags && exc == o.exc && prec == o.prec && width == o.width && fill == o.fill && buf == o.buf && tie == o.tie && classic == o.classic;
		}
	};
	Settings settings(const std::ostream& os)
	{
		return Settings{os.flags(), os.exceptions(), os.precision(), os.width(), os.fill(), os.rdbuf(), os.tie(), os.getloc() == std::locale::classic()};
	}

	void prepare_ctx(Thr* t, Ctx& c, const Op& op, bool nested)
	{
		c.op = &op;
		c.up = t->ctx;
		c.serial = ++W->serial;
		c.nested = nested;
		c.csize = csize(op.ct);
		for (const Fault& f : W->plan->faults)
		{
			if (f.kind == F_PIPE || f.tid != t->id || f.op != op.id)
				continue;
			if (f.kind == F_OOM)
				c.oom.push_back(f);
			else if (f.kind != F_SINK)
				c.fl.push_back(f);
		}
		std::stable_sort(c.fl.begin(), c.fl.end(), [](const Fault& a, const Fault& b) { return a.at < b.at; });
		t->ctx = &c;
	}

	// value of the text which is in a pad or string right now
	char* place_text(Thr* t, Ctx& c, const Op& op, const std::u32string& txt, int padidx)
	{
		char* pad = pad_addr(t->id, padidx);
		const int cs = c.csize;
		const std::size_t room = PADDATA / cs;
		std::size_t n = std::min(txt.size(), room - 1);
		char* at = op.place == 0 ? pad + PADDATA - (n + 1) * cs : pad;
		if (op.place == 0) probe(PR_GUARD);
		for (std::size_t i = 0; i < n; ++i)
			put_char(at + i * cs, cs, txt[i]);
		put_char(at + n * cs, cs, 0);
		if (op.place == 1)
		{
			// what lies behind the terminator looks like more of a number
			static const char32_t tails[4][9] = {U"77777777", U"e5e5e5e5", U"inityinf", U".9.9(_)9"};
			for (std::size_t i = 0; i < 64 && n + 1 + i < room; ++i)
				put_char(at + (n + 1 + i) * cs, cs, tails[(W->plan->fill >> 8) & 3][i % 8]);
			const std::uint64_t h = hash_bytes(7, txt.data(), txt.size() * 4);
			if (t->lastpadtext[padidx] && t->lastpadtext[padidx] != h)
				probe(PR_SAMEBUF);
			t->lastpadtext[padidx] = h;
		}
		c.tlo = at;
		c.thi = at + (n + 1) * cs;
		return at;
	}

	void check_neighbours(Thr* t)
	{
		for (int i = 0; i < W->nthr; ++i)
			for (int k = 0; k < NSLOT; ++k)
			{
				SlotInfo& s = slots[i][k];
				if (s.lo && !s.busy && std::memcmp(s.lo, s.mirror.data(), s.n))
				{
					viol(V_NEIGHBOUR, "finished output of thread %d (slot %d) was changed while thread %d printed", i, k, t->id);
					s.mirror.assign(s.lo, s.n);
				}
			}
	}

	struct CallInfo { int err_before, err_after; std::u32string txt; std::string sink; bool sinkgood; };

	// one library call with its buffers, under the current context
	void call_lib(Thr* t, Ctx& c, const Op& op, const std::u32string* txt, int padidx, LibRes& r, CallInfo& ci)
	{
		LibReq q = LibReq();
		q.kind = op.kind == O_SEND ? (op.b ? LK_PRINTSTR : LK_PRINT) : op.kind == O_RECV ? LK_PARSE : op.kind;
		q.ft = op.ft; q.ct = op.ct; q.endmode = op.kind == O_RECV ? 0 : op.endmode; q.fb = op.fb; q.bits = op.bits; q.exp = op.exp;
		SlotInfo* s = nullptr;
		SimBuf sb;
		SimBuf tiedbuf;
		Settings before{};
		std::unique_ptr<std::ostream> os, tied;
		c.oomfired = c.sinkfired = false;
		c.fbcalls = c.dflcalls = 0;
		c.fbrange = c.fbthrew = c.fbodd = c.fbuser = false;
		c.fbend = -1;
		c.budget = ~0ull;

		switch (q.kind)
		{
		case LK_PRINT:
			s = &slots[t->id][c.nested ? NESTSLOT + std::max(t->depth - 1, 0) : op.slot];
			if (!s->lo)
				internal("no slot for op %d", op.id);
			s->busy = true;
			{
				Rng f(W->plan->fill ^ (c.serial * 0x9E37ull));
				const int style = static_cast<int>(W->plan->fill % 4);
				for (std::size_t i = 0; i < s->n; ++i)
					s->lo[i] = style == 0 ? 0 : style == 1 ? '7' : style == 2 ? static_cast<char>(0xFF) : static_cast<char>(f.next());
			}
			c.slo = s->lo;
			c.shi = s->lo + s->n;
			q.buf = s->lo;
			c.budget = 5000;
			break;
		case LK_PARSE:
			q.buf = place_text(t, c, op, *txt, padidx);
			c.budget = 6000 + 80 * txt->size();
			break;
		case LK_PARSESTR:
			// the string is built by the caller from a private pad
			q.buf = place_text(t, c, op, *txt, padidx);
			c.tlo = c.thi = nullptr;
			c.budget = 6000 + 80 * txt->size();
			break;
		case LK_PRINTSTR:
			c.budget = 8000;
			break;
		case LK_DIAG:
			for (const Fault& f : W->plan->faults)
				if (f.kind == F_SINK && f.tid == t->id && f.op == op.id && !W->solo && !c.oomoff)
				{
					sb.limit = static_cast<long>(f.at);
					sb.mode = static_cast<int>(f.a);
				}
			os.reset(new std::ostream(&sb));
			os->imbue(std::locale::classic());
			if (op.a & 1) os->exceptions(std::ios::badbit);
			if (op.a & 2) os->exceptions(os->exceptions() | std::ios::failbit);
			if (op.a & 32) os->setf(op.a & 64 ? std::ios::oct : std::ios::hex, std::ios::basefield);
			if (op.a & 128) os->setf(std::ios::showpos | std::ios::showbase | std::ios::uppercase | std::ios::boolalpha);
			if (op.a & 256) os->setf(std::ios::left, std::ios::adjustfield), os->setf(std::ios::scientific, std::ios::floatfield);
			if (op.a & 512) os->fill('*'), os->precision(3);
			if (op.a & 1024) os->setf(std::ios::unitbuf);
			if ((op.a & 2048) && (op.a & 1024) && !(op.a & 7) && !W->solo) sb.syncfail = true;
			if (op.a & 4096) tied.reset(new std::ostream(&tiedbuf)), os->tie(tied.get());
			if (op.a & 4) // failed before, exceptions are off then
				switch (op.a >> 3 & 3)
				{
				case 0: os->setstate(std::ios::badbit); break;
				case 1: os->setstate(std::ios::failbit); break;
				case 2: os->setstate(std::ios::eofbit); break;
				default: os->rdbuf(nullptr);
				}
			if (op.a & ~31) probe(PR_SINK_SETTINGS);
			before = settings(*os);
			q.os = os.get();
			break;
		}

		ci.err_before = op.err;
		if (op.err)
		{
			probe(PR_STALE_ERRNO);
			if (!W->solo) fired(F_ERRNO);
		}
		if (op.newh)
			std::set_new_handler(nh_body);
		++shm->libops;
		pollute(W->plan->fill * 0x0101010101010101ull);
		errno = op.err;
		sys_call(q, r);
		ci.err_after = errno;
		if (op.newh)
			std::set_new_handler(nullptr);
		shm->maxops = std::max<std::uint64_t>(shm->maxops, c.step - c.callstart);
		shm->maxstack = std::max<std::uint64_t>(shm->maxstack, c.stack);
		shm->maxheap = std::max<std::uint64_t>(shm->maxheap, c.heappeak);
		if (c.heappeak > HEAP_BUDGET)
			viol(V_MEMORY, "%s had %zu bytes of heap allocated at a time", describe(op).c_str(), c.heappeak);
		if (!W->solo && W->solos)
		{
			const auto cap = W->solos->caps.find(op.id);
			if (cap != W->solos->caps.end())
			{
				probe(PR_CAPPED);
				if (c.stack > cap->second.stack + 512 && c.stack <= STACK_BUDGET)
					viol(V_MEMORY, "%s of a text of %zu characters takes %zu bytes of stack, of short ones %llu", op_names[op.kind], txt->size(), c.stack, static_cast<unsigned long long>(cap->second.stack));
				if (c.heappeak > cap->second.heap + 256)
					viol(V_MEMORY, "%s of a text of %zu characters takes %zu bytes of heap memory, of short ones %llu", op_names[op.kind], txt->size(), c.heappeak, static_cast<unsigned long long>(cap->second.heap));
			}
		}
		if (!W->solo && t->live_bytes > 0)
		{
			shm->maxheld = std::max<std::uint64_t>(shm->maxheld, t->live_bytes);
			if (t->live_bytes > HELD_BUDGET)
				viol(V_MEMORY, "%ld bytes are held after a call of thread %d", t->live_bytes, t->id);
		}

		if (s)
		{
			s->mirror.assign(s->lo, s->n);
			s->busy = false;
			c.slo = c.shi = nullptr;
		}
		c.tlo = c.thi = nullptr;
		if (q.kind == LK_DIAG)
		{
			ci.sink = sb.got;
			ci.sinkgood = os->good();
			if (!(settings(*os) == before))
				viol(V_STREAM, "%s: settings of the stream were changed", describe(op).c_str());
			// the "text" compared with the pristine run
			r.ntext = 0;
			r.ret = hash_bytes(1, sb.got.data(), sb.got.size());
		}
		// coverage of interesting branches
		probe(op.ft ? PR_DOUBLE : PR_FLOAT);
		if (op.ct == 1) probe(PR_WIDE);
		if (op.ct >= 2) probe(PR_UTF);
		if (q.kind <= LK_PRINTSTR && r.exc == 0)
		{
			bool e = false;
			for (int i = 0; i < r.ntext; ++i) e |= r.text[i] == 'e';
			probe(e ? PR_SCI : PR_DEC);
		}
		else if (q.kind != LK_DIAG && r.exc == 0)
		{
			const double d = 0;
			(void)d;
			if (bits_nan(r.bits, op.ft)) probe(PR_NAN);
			const std::uint64_t a = op.ft ? r.bits & ~(1ull << 63) : r.bits & 0x7fffffff;
			if (a == (op.ft ? 0x7ff0000000000000ull : 0x7f800000ull)) probe(PR_INF);
			if (a && a < (op.ft ? 0x0010000000000000ull : 0x00800000ull)) probe(PR_DENORMAL);
			if (r.status == 1) probe(PR_UNDERFLOW);
			if (r.status == 2) probe(PR_OVERFLOW);
			if (r.end == 0) probe(PR_REJECT);
			else if (r.end > 0 && static_cast<std::size_t>(r.end) < txt->size()) probe(PR_PARTIAL);
			if (txt->size() > 100) probe(PR_LONG);
		}
		if (c.oomfired)
			probe(r.exc == EXC_BADALLOC ? PR_OOM_THROWN : PR_OOM_SURVIVED);
	}

	// checks which hold for every library call
	void check_call(Thr* t, Ctx& c, const Op& op, const std::u32string* txt, const LibRes& r, const CallInfo& ci, const SoloRes* solo)
	{
		const bool print = op.kind == O_PRINT || (op.kind == O_SEND && !op.b);
		const bool printstr = op.kind == O_PRINTSTR || (op.kind == O_SEND && op.b);
		const bool parse = op.kind == O_PARSE || op.kind == O_PARSESTR || op.kind == O_RECV;
		loghash(static_cast<std::uint64_t>(op.id) << 8 | r.exc, r.bits ^ hash_bytes(3, r.text, r.ntext * 4), (static_cast<std::uint64_t>(r.end) << 8 | r.status) ^ r.ret << 20);
		logf("[%llu] T%d op %d %s => %s", static_cast<unsigned long long>(shm->ticks), t->id, op.id, describe(op).c_str(), describe(r).c_str());

		if (print)
		{
			if (r.end == -2)
				viol(V_NUL, "%s: no terminator inside the buffer", describe(op).c_str());
			else if (static_cast<std::size_t>(r.ntext) != r.ret)
				viol(V_NUL, "%s: returned %zu, text has %d characters", describe(op).c_str(), r.ret, r.ntext);
			if (c.nalloc)
				viol(V_ALLOC, "%s: printing into a buffer made %u allocations", describe(op).c_str(), c.nalloc);
		}
		if (print || printstr)
			check_neighbours(t);

		const bool oom_exc = c.oomfired && r.exc == EXC_BADALLOC;
		const bool cut = c.oomfired || c.sinkfired;
		if (parse && r.exc != EXC_NONE && r.end != -1 && !c.fbuser)
			viol(V_ENDPTR, "%s: end pointer was changed by a call which threw", describe(op).c_str());

		if (op.kind == O_DIAG)
		{
			std::string want = ref_diag(op.bits, op.exp, op.ft);
			if (op.a & (32 | 128)) // the number format of the stream may apply to the exponent
			{
				const std::string other = ref_diag_formatted(op.bits, op.exp, op.ft, op.a & 32 ? op.a & 64 ? 8 : 16 : 10, op.a & 128);
				if (want.compare(0, ci.sink.size(), ci.sink) != 0 || (!cut && ci.sink != want))
					want = other;
			}
			if (op.a & 4)
			{
				probe(PR_SINK_PREFAIL);
				if (!ci.sink.empty() || ci.sinkgood)
					viol(V_STREAM, "a stream which had failed before received \"%s\" and is %s", ci.sink.c_str(), ci.sinkgood ? "good" : "failed");
				return;
			}
			if (want.compare(0, ci.sink.size(), ci.sink) != 0)
				viol(V_STREAM, "sink received \"%s\", which is no prefix of \"%s\"", ci.sink.c_str(), want.c_str());
			else if (ci.sink.size() != want.size() && ci.sinkgood && r.exc == EXC_NONE)
				viol(V_STREAM, "sink received only \"%s\" of \"%s\", yet the stream is good and nothing was thrown", ci.sink.c_str(), want.c_str());
			if (!cut && (ci.sink != want || !ci.sinkgood || r.exc != EXC_NONE))
				viol(V_STREAM, "sink received \"%s\" (stream %s, exception %d) without any failure, expected \"%s\"", ci.sink.c_str(), ci.sinkgood ? "good" : "failed", r.exc, want.c_str());
			return;
		}

		if (op.kind == O_PRINTSTR && op.endmode > 1 && r.exc == EXC_NONE)
		{
			const std::string want = ref_bits(op.bits, op.ft, op.endmode);
			bool ok = r.ret == want.size() && static_cast<std::size_t>(r.ntext) == want.size();
			for (std::size_t i = 0; ok && i < want.size(); ++i)
				ok = r.text[i] == static_cast<unsigned char>(want[i]);
			if (!ok)
				viol(V_STREAM, "%s: got %s, the bits are \"%s\"", describe(op).c_str(), describe(r).c_str(), want.c_str());
			probe(PR_BITS);
		}

		// scripted fallback: used by its contract
		if (c.fbcalls && r.exc == EXC_NONE && c.fbuser)
		{
			const std::uint64_t a = op.ft ? c.fbbits & ~(1ull << 63) : c.fbbits & 0x7fffffff;
			const int want = !c.fbrange ? 0 : a <= (op.ft ? 0x0010000000000000ull : 0x00800000ull) ? 1 : 2;
			if (r.bits != c.fbbits)
				viol(V_FBCALL, "%s: fallback returned %016llx, caller got %016llx", describe(op).c_str(), static_cast<unsigned long long>(c.fbbits), static_cast<unsigned long long>(r.bits));
			if (r.end != c.fbend)
				viol(V_FBCALL, "%s: fallback left the end at %ld, caller got %ld", describe(op).c_str(), c.fbend, r.end);
			if (r.status != want)
				viol(V_STATUS, "%s: fallback %s a range error with value %016llx, status is %d", describe(op).c_str(), c.fbrange ? "raised" : "did not raise", static_cast<unsigned long long>(c.fbbits), r.status);
		}
		if (c.fbthrew && r.exc != (op.fbend % 3 == 1 ? EXC_BADALLOC : op.fbend % 3 == 2 ? EXC_STD : EXC_USER))
			viol(V_EXC, "%s: exception of the fallback did not reach the caller (got %d)", describe(op).c_str(), r.exc);

		// exceptions
		if (r.exc != EXC_NONE && !oom_exc && !c.fbthrew)
			viol(c.oomfired ? V_EXC : V_RESULT, "%s: unexpected exception: %s", describe(op).c_str(), describe(r).c_str());
		if (solo && solo->viol == 0 && !oom_exc)
		{
			// the C library's conversions obey the rounding mode
			const bool by_mode = (op.fpm & 3) && parse && (c.dflcalls || solo->dflcalls);
			if (op.fpm)
				probe(!parse ? PR_FP_PRINT : by_mode ? PR_FP_FALLBACK : PR_FP_PARSE);
			if (by_mode ? solo->r.end != r.end || !solo->dflcalls != !c.dflcalls : !same(solo->r, r))
				viol(V_RESULT, "%s: got %s, alone it gives %s", describe(op).c_str(), describe(r).c_str(), describe(solo->r).c_str());
			if (op.fb && solo->fbcalls != c.fbcalls)
				viol(V_RESULT, "%s: fallback called %d times, alone %d times", describe(op).c_str(), c.fbcalls, solo->fbcalls);
		}

		if (r.exc == EXC_NONE && r.status == 0 && ci.err_after != ci.err_before && !(c.fbcalls && c.fbuser && op.fbs != FB_EXACT))
			viol(V_ERRNO, "%s: error number was %d before and is %d after a successful call", describe(op).c_str(), ci.err_before, ci.err_after);

		// reference decoder
		if (parse && r.exc == EXC_NONE && !c.fbodd && txt->size() <= 2047 && !(op.fpm & 3))
		{
			const RefRes ref = ref_decode(txt->data(), txt->size(), op.ft);
			bool ok = (op.kind == O_PARSESTR || op.endmode) && op.kind != O_RECV ? true : r.end == ref.consumed;
			ok = ok && (ref.nan ? bits_nan(r.bits, op.ft) : r.bits == ref.bits);
			ok = ok && (ref.statuses >> r.status & 1);
			if (!ok)
				viol(V_REF, "%s: got %s, reference decodes %016llx with %ld characters consumed, status mask %u", describe(op).c_str(), describe(r).c_str(),
					static_cast<unsigned long long>(ref.bits), ref.consumed, ref.statuses);
		}
		if (W->plan->prop == 3)
			observe(t, "after a conversion");
	}

	const SoloRes* solo_of(const Op& op)
	{
		if (!W->solos)
			return nullptr;
		auto it = W->solos->byid.find(op.id);
		return it == W->solos->byid.end() ? nullptr : &it->second;
	}

	void exec_lib(Thr* t, Ctx& c, const Op& op)
	{
		LibRes r;
		CallInfo ci;
		const SoloRes* solo = solo_of(op);
		const int pad = !c.nested ? op.slot % 3 : t->depth < 2 ? NESTPAD : GUARDED + t->depth - 2;
		long live[8];
		int nl = 0;
		bool any_oom = false;
		for (int i = 0; i < op.rep; ++i)
		{
			call_lib(t, c, op, &op.txt, pad, r, ci);
			if (W->solo)
			{
				shm->solo.r = r;
				shm->solo.steps = c.step;
				shm->solo.allocs = c.nalloc;
				shm->solo.fbcalls = c.fbcalls;
				shm->solo.dflcalls = c.dflcalls;
				shm->solo.stack = c.stack;
				shm->solo.heap = c.heappeak;
				return;
			}
			check_call(t, c, op, &op.txt, r, ci, solo);
			any_oom |= c.oomfired;
			if (nl < 8)
				live[nl++] = t->live_total;
		}
		if (nl >= 4 && live[1] < live[2] && live[2] < live[3])
			viol(V_LEAK, "%s: each repetition leaves more memory allocated (%ld, %ld, %ld, %ld blocks)", describe(op).c_str(), live[0], live[1], live[2], live[3]);
		if (any_oom)
		{
			c.oomoff = true;
			call_lib(t, c, op, &op.txt, pad, r, ci);
			if (op.kind != O_DIAG && solo && solo->viol == 0 && !(op.fpm & 3) && !same(solo->r, r))
				viol(V_RETRY, "%s: with memory available again got %s, alone it gives %s", describe(op).c_str(), describe(r).c_str(), describe(solo->r).c_str());
			else
				probe(PR_RETRY_OK);
			check_call(t, c, op, &op.txt, r, ci, solo);
			c.oomoff = false;
		}
	}

	// ------------------------------------------------------------ pipes
	const char32_t seps[] = U"\n ,;|\t:";
	enum { NSEP = 7 };
	char PIPETAG[16] = "PPPPPPPPPPPPPPP";

	void wake_pipe(int p)
	{
		for (int i = 0; i < W->nthr; ++i)
			if (W->thr[i].state == T_BLOCK && W->thr[i].blocked_on == &PIPETAG[p])
				W->thr[i].state = T_RUN;
	}

	const char32_t* alphabet(int ct, std::size_t& n)
	{
		static const char32_t narrow[] = U"0123456789..eeEE++--nNaAiIfFtTyY()_xX ,\xE9\xB0\xFF\x80\x7F\x01";
		static const char32_t wide[] = U"0123456789..eeEE++--nNaAiIfFtTyY()_xX ,\xE9\xB0\xFF\x130\x12E\x165\x145\x12D\x12B\x16E\x161\x169\x1FF10\x10030\x1002E\x661\x131\xFF11\x2212\x139";
		static const char32_t utf16[] = U"0123456789..eeEE++--nNaAiIfFtTyY()_xX ,\xE9\xB0\xFF\x130\x12E\x165\x145\x12D\x12B\x16E\x161\x169\x661\x131\xFF11\x2212\x139";
		if (ct == 0) { n = sizeof narrow / 4 - 1; return narrow; }
		if (ct == 2) { n = sizeof utf16 / 4 - 1; return utf16; }
		n = sizeof wide / 4 - 1;
		return wide;
	}

	void pipe_write(Thr* t, int pi, const std::u32string& s)
	{
		PipeSt& p = W->pipes[pi];
		const PipeCfg& cfg = W->plan->pipes[pi];
		std::size_t at = 0;
		int chunk = 0;
		while (at < s.size() && !p.broken)
		{
			const std::size_t room = p.q.size() < static_cast<std::size_t>(cfg.cap) ? cfg.cap - p.q.size() : 0;
			if (!room)
			{
				t->state = T_BLOCK;
				t->blocked_on = &PIPETAG[pi];
				switch_away(t);
				continue;
			}
			std::size_t n = 1 + mix(W->plan->pol_seed ^ 0x57, p.nrec * 1000 + chunk++) % cfg.wmax;
			n = std::min(std::min(n, room), s.size() - at);
			if (at + n < s.size())
			{
				fired(F_SHORTIO);
				probe(PR_SPLIT_WRITE);
			}
			for (std::size_t i = 0; i < n; ++i)
				p.q.push_back(s[at + i]);
			at += n;
			wake_pipe(pi);
			point(t, C_SIM);
		}
	}

	void send_record(Thr* t, const Op& op, std::u32string rec, std::uint64_t bits)
	{
		PipeSt& p = W->pipes[op.a];
		const std::size_t len = rec.size();
		const int n = p.nrec++;
		char32_t sep = seps[mix(W->plan->pol_seed, n) % NSEP];
		std::u32string s;
		bool lost = false, nosep = false;
		int copies = 1;
		bool damaged = false;
		for (const Fault& f : W->plan->faults)
		{
			if (f.kind != F_PIPE || f.tid != op.a || static_cast<int>(f.at) != n)
				continue;
			fired(F_PIPE);
			damaged = true;
			std::size_t na;
			const char32_t* al = alphabet(op.ct, na);
			const char32_t ch = al[static_cast<std::uint64_t>(f.b >> 16) % na];
			const std::size_t pos = rec.empty() ? 0 : static_cast<std::uint64_t>(f.b & 0xFFFF) % rec.size();
			switch (f.a)
			{
			case 0: if (!rec.empty()) rec[pos] = ch; break;
			case 1: rec.resize(pos); break;
			case 2: rec.resize(pos); nosep = true; break;
			case 3: copies = 2; break;
			case 4: lost = true; break;
			case 5: rec.insert(pos, 1, ch); break;
			case 6: sep = ch; break;
			case 7: rec.insert(pos, rec.substr(pos, 1 + (f.b >> 16) % 40)); break;
			case 8: if (pos + 1 < rec.size()) std::swap(rec[pos], rec[pos + 1]); break;
			case 9: rec.erase(0, pos); break;
			case 10: nosep = true; break;
			case 11: rec.insert(pos, 1 + (f.b >> 16) % (f.b & 7 ? 300 : 1900), ch); break;
			}
			logf("  fault pipe_damage pipe %d record %d kind %d => \"%s\"", op.a, n, static_cast<int>(f.a), show(rec).c_str());
		}
		if (!lost)
			for (int i = 0; i < copies; ++i)
			{
				s += rec;
				if (!nosep)
					s += sep;
			}
		p.sent.push_back({bits, len});
		p.dam.push_back(damaged);
		pipe_write(t, op.a, s);
	}

	void exec_send(Thr* t, Ctx& c, const Op& op)
	{
		LibRes r;
		CallInfo ci;
		for (int attempt = 0;; ++attempt)
		{
			call_lib(t, c, op, nullptr, 0, r, ci);
			check_call(t, c, op, nullptr, r, ci, solo_of(op));
			if (r.exc == EXC_NONE)
				break;
			if (attempt > 3)
			{
				viol(V_PIPE, "%s: keeps failing without any cause: %s", describe(op).c_str(), describe(r).c_str());
				return;
			}
			if (attempt) c.oomoff = true;
		}
		c.oomoff = false;
		std::u32string s;
		for (int i = 0; i < r.ntext; ++i)
			s += static_cast<char32_t>(r.text[i]);
		send_record(t, op, s, op.bits);
	}

	bool is_sep(char32_t c)
	{
		for (int i = 0; i < NSEP; ++i)
			if (seps[i] == c)
				return true;
		return false;
	}

	// parses one received line, C09: must be the sent record; C10: must be what the reference decodes
	void handle_line(Thr* t, Ctx& c, const Op& op, PipeSt& p, const std::u32string& rx, std::size_t line)
	{
		LibRes r;
		CallInfo ci;
		std::size_t pos = 0;
		for (int k = 0; k < 48; ++k)
		{
			std::u32string txt = op.b & 1 ? rx.substr(pos, line - pos) : rx.substr(pos, 2047);
			if (txt.size() > 2047)
				txt.resize(2047);
			bool done = false;
			for (int attempt = 0; !done; ++attempt)
			{
				call_lib(t, c, op, &txt, RXPAD, r, ci);
				Op shown(op);
				shown.txt = txt;
				const Op* keep = c.op;
				c.op = &shown;
				check_call(t, c, shown, &txt, r, ci, nullptr);
				c.op = keep;
				done = r.exc == EXC_NONE;
				if (!done && attempt > 3)
				{
					viol(V_PIPE, "parse keeps failing: %s", describe(r).c_str());
					return;
				}
				if (!done && attempt) c.oomoff = true;
			}
			c.oomoff = false;
			if (W->plan->prop != 10)
			{
				if (p.sent.empty())
				{
					viol(V_PIPE, "more records received than sent: \"%s\"", show(txt).c_str());
					return;
				}
				const std::uint64_t bits = p.sent.front().first;
				const std::size_t len = p.sent.front().second;
				p.sent.pop_front();
				const std::uint64_t sgn = op.ft ? 1ull << 63 : 1ull << 31, mn = op.ft ? 0x0010000000000000ull : 0x00800000ull;
				const bool nan = bits_nan(bits, op.ft);
				const bool zero = (bits & ~sgn) == 0;
				const bool vok = nan ? bits_nan(r.bits, op.ft) : zero ? r.bits == 0 : r.bits == bits;
				const bool sok = r.status == 0 || (r.status == 1 && !zero && (bits & ~sgn) <= mn);
				if (!vok || static_cast<std::size_t>(r.end) != len || len != line || !sok)
					viol(V_PIPE, "sent %016llx (%s), record \"%s\" of %zu characters came back as %s", static_cast<unsigned long long>(bits), op.ft ? "double" : "float",
						show(txt.substr(0, line)).c_str(), len, describe(r).c_str());
				return;
			}
			probe(PR_DAMAGED);
			pos += r.end > 0 ? r.end : 1;
			if (pos >= line)
				return;
		}
	}

	void exec_recv(Thr* t, Ctx& c, const Op& op)
	{
		PipeSt& p = W->pipes[op.a];
		const PipeCfg& cfg = W->plan->pipes[op.a];
		std::u32string rx;
		int chunk = 0;
		for (;;)
		{
			std::size_t i = 0;
			while (i < rx.size() && !is_sep(rx[i]))
				++i;
			if (i < rx.size())
			{
				if (i || W->plan->prop != 10)
					handle_line(t, c, op, p, rx, i);
				rx.erase(0, i + 1);
				continue;
			}
			if (rx.size() > 3000)
				rx.erase(0, 1500);
			if (p.q.empty())
			{
				if (p.closed)
				{
					if (W->plan->prop == 10 && !rx.empty())
						handle_line(t, c, op, p, rx, rx.size());
					return;
				}
				t->state = T_BLOCK;
				t->blocked_on = &PIPETAG[op.a];
				switch_away(t);
				continue;
			}
			std::size_t n = 1 + mix(W->plan->pol_seed ^ 0x91, chunk++) % cfg.rmax;
			if (n < p.q.size())
			{
				fired(F_SHORTIO);
				probe(PR_SPLIT_READ);
			}
			while (n-- && !p.q.empty())
			{
				rx += p.q.front();
				p.q.pop_front();
			}
			wake_pipe(op.a);
			point(t, C_SIM);
		}
	}

	// another value or text of the same kind
	void vary(Op& o, std::uint64_t x)
	{
		o.bits ^= x & (o.ft ? 0x800fffffffffffffull : 0x807fffffull);
		for (char32_t& ch : o.txt)
			if (ch >= '1' && ch <= '9')
			{
				x = x * 6364136223846793005ull + 1442695040888963407ull;
				ch = static_cast<char32_t>('1' + (x >> 60) % 9);
			}
	}

	void exec_repeat(Thr* t, Ctx& c, const Op& op)
	{
		probe(op.fbend ? PR_VARIED : PR_MARATHON);
		long held[4];
		int nheld = 0;
		const int n = op.slot ? op.slot : 1;
		// with a period, the same distinct calls are made again, and give the same again
		const int period = op.fbend ? op.exp : 0;
		std::vector<std::uint64_t> first(period);
		for (int nr = 0; nr < op.b; ++nr)
		{
			const int i = period ? nr % period : nr;
			const Op& o = W->plan->nested[op.a + static_cast<int>(mix(op.bits, i) % n)];
			Op varied;
			if (op.fbend) // another value or text each time
			{
				varied = o;
				varied.slot = 0;
				const std::uint64_t x = mix(op.bits ^ 0x5A5A, i);
				vary(varied, x);
				if (period && (x >> 62 & 1)) // any exponent
					varied.bits ^= o.ft ? (x >> 40 & 0x7ff) << 52 : (x >> 40 & 0xff) << 23;
				c.op = &varied;
			}
			else
				c.op = &o;
			c.csize = csize(c.op->ct);
			LibRes r;
			CallInfo ci;
			const bool v = W->verbose;
			W->verbose = false;
			const std::uint64_t h = shm->loghash;
			call_lib(t, c, *c.op, &c.op->txt, 0, r, ci);
			check_call(t, c, *c.op, &c.op->txt, r, ci, op.fbend ? nullptr : solo_of(o));
			shm->loghash = h;
			W->verbose = v;
			if (period && r.exc == EXC_NONE)
			{
				const std::uint64_t got = hash_bytes(mix(r.bits, r.status), r.text, r.ntext * sizeof *r.text) ^ mix(r.end, r.ret);
				if (nr < period)
					first[i] = got;
				else if (first[i] != got)
					viol(V_RESULT, "%s: gives %s now, and gave something else %d calls ago", describe(*c.op).c_str(), describe(r).c_str(), period);
			}
			if (op.fbend && !period && op.b >= 8 && (i + 1) % (op.b / 4) == 0 && nheld < 4)
				held[nheld++] = t->live_bytes;
		}
		if (nheld == 4 && held[0] < held[1] && held[1] < held[2] && held[2] < held[3])
		{
			c.op = &op;
			viol(V_LEAK, "memory held grows with the number of calls: %ld, %ld, %ld, %ld bytes after %d, %d, %d and %d calls", held[0], held[1], held[2], held[3], op.b / 4, op.b / 2, op.b / 4 * 3, op.b / 4 * 4);
		}
		c.op = &op;
	}

	void exec_op(Thr* t, const Op& op, bool nested);

	// the child is a process in which only this thread goes on; the others have
	// vanished wherever they were
	void exec_fork(Thr* t, Ctx&, const Op& op)
	{
		fired(F_FORK);
		for (int i = 0; i < W->nthr; ++i)
			for (Ctx* x = i == t->id ? nullptr : W->thr[i].ctx; x; x = x->up)
				if (x->inlib)
				{
					probe(PR_FORK_INFLIGHT);
					break;
				}
		for (auto& l : *locks)
			if (l.second.owner >= 0 || l.second.readers)
			{
				probe(PR_FORK_LOCK);
				break;
			}
		fflush(nullptr);
		const pid_t p = fork();
		if (p < 0)
			internal("fork failed");
		if (!p)
		{
			itimerval it;
			std::memset(&it, 0, sizeof it);
			it.it_value.tv_sec = 10;
			setitimer(ITIMER_PROF, &it, nullptr);
			for (int i = 0; i < W->nthr; ++i)
				if (i != t->id)
					W->thr[i].state = T_DEAD;
			for (int i = 0; i < op.b; ++i)
				if (op.a + i < static_cast<int>(W->plan->nested.size()))
					exec_op(t, W->plan->nested[op.a + i], true);
			_exit(0);
		}
		int st = 0;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		if (shm->finished)
			_exit(0); // the child has reported something
		if (!WIFEXITED(st) || WEXITSTATUS(st))
			viol(V_CRASH, "the forked child ended abnormally (wait status %d)", st);
	}

	void exec_op(Thr* t, const Op& op, bool nested)
	{
		Ctx c;
		prepare_ctx(t, c, op, nested);
		if (!W->solo)
		{
			logf("[%llu] T%d begins op %d %s", static_cast<unsigned long long>(shm->ticks), t->id, op.id, op_names[op.kind]);
			if (!nested)
				point(t, C_SIM);
		}
		if (is_lib(op.kind))
			exec_lib(t, c, op);
		else
			switch (op.kind)
			{
			case O_SETLOC: fired(F_LOCALE); switch_locale(0, op.a); break;
			case O_USELOC: fired(F_LOCALE); switch_locale(1, op.a); break;
			case O_CPPLOC: fired(F_LOCALE); switch_locale(2, op.a); break;
			case O_OBSERVE: observe(t, "another thread"); break;
			case O_TAILW:
			{
				// write behind the terminator of whatever the thread op.a is parsing
				if (op.a < W->nthr)
					for (Ctx* x = W->thr[op.a].ctx; x; x = x->up)
						if (x->tlo && x->op->place == 1 && x->inlib)
						{
							probe(PR_TAILRACE);
							const std::uint32_t serial = x->serial;
							for (int i = 0; i < op.b; ++i)
							{
								if (x->thi + (i + 1) * x->csize <= x->tlo + PADDATA)
									put_char(x->thi + i * x->csize, x->csize, U"5e9.inft"[mix(op.id, i) % 8]);
								point(t, C_SIM);
								Ctx* y = W->thr[op.a].ctx;
								while (y && !(y == x && y->serial == serial)) y = y->up;
								if (!y || !y->inlib || !y->tlo) break;
							}
							break;
						}
				break;
			}
			case O_SEND: exec_send(t, c, op); break;
			case O_SENDTXT: send_record(t, op, op.txt, 0); break;
			case O_RECV: exec_recv(t, c, op); break;
			case O_CLOSE: W->pipes[op.a].closed = true; wake_pipe(op.a); break;
			case O_REPEAT: exec_repeat(t, c, op); break;
			case O_FORK: exec_fork(t, c, op); break;
			case O_IDLE: for (int i = 0; i < op.b; ++i) point(t, C_SIM); break;
			}
		if (!W->solo && !nested)
			point(t, C_SIM);
		t->ctx = c.up;
	}

	void run_nested(Thr* t, int idx, bool interrupt)
	{
		if (idx < 0 || idx >= static_cast<int>(W->plan->nested.size()) || t->depth >= MAXDEPTH)
			return;
		const int io = t->inop, e = errno;
		t->inop = 0;
		fenv_t fp;
		fegetenv(&fp);
		fesetround(FE_TONEAREST);
		fedisableexcept(FE_ALL_EXCEPT);
		++t->depth;
		if (t->depth == 2) probe(PR_NEST2);
		if (t->depth == 4) probe(PR_NEST4);
		(void)interrupt;
		exec_op(t, W->plan->nested[idx], true);
		--t->depth;
		fesetenv(&fp);
		t->inop = io;
		errno = e;
	}

	void nh_body()
	{
		Thr* t = self;
		const int io = t->inop;
		t->inop = 0;
		Ctx* c = t->ctx;
		fired(F_NEWH);
		InUserCode fp("the new-handler");
		const int script = c->op->newh;
		if (script == 1)
		{
			std::set_new_handler(nullptr);
			run_nested(t, c->op->exp, false);
			std::set_new_handler(nullptr);
		}
		else
		{
			run_nested(t, c->op->exp, false);
			c->oomoff = true;        // memory was found
			std::set_new_handler(nh_body);
		}
		t->inop = io;
	}
}

std::string describe_op(const Op& o) { return describe(o); }
std::string describe_res(const LibRes& r) { return describe(r); }
bool same_res(const LibRes& a, const LibRes& b) { return same(a, b); }

std::uint64_t fb_call(int ft, int ct, const void* str, void** str_end)
{
	if (life_on)
		return life_fallback(ft, ct, str, str_end);
	Thr* t = self;
	Ctx* c = t->ctx;
	const int io = t->inop;
	struct Restore { Thr* t; int io; ~Restore() { t->inop = io; } } restore{t, io};
	t->inop = 0;
	InUserCode fp("the fallback");
	const Op& op = *c->op;
	probe(PR_FALLBACK);
	if (++c->fbcalls > 1)
		viol(V_FBCALL, "%s: fallback consulted more than once", describe(op).c_str());
	if (str != c->xstr)
		viol(V_FBCALL, "%s: fallback got another text than the caller's", describe(op).c_str());
	if (str_end != c->xend)
		viol(V_FBCALL, "%s: fallback got another end pointer than the caller's", describe(op).c_str());
	const int cs = csize(ct);
	std::u32string s;
	for (const char* p = static_cast<const char*>(str); s.size() < 4000; p += cs)
	{
		const char32_t ch = get_char(p, cs);
		if (!ch)
			break;
		s += ch;
	}
	const int e = errno;
	if (!W->solo)
		point(t, C_SIM);
	errno = e;
	long consumed = 0;
	bool range = false;
	std::uint64_t bits = ref_fallback(ft, s.data(), s.size(), consumed, range);
	const bool scripted = op.fb != 0 && op.kind != O_RECV;
	const int script = scripted ? op.fbs : FB_EXACT;
	c->fbuser = scripted;
	bool setend = true;
	errno = e;
	if (!W->solo && script != FB_EXACT)
		fired(F_FB);
	switch (script)
	{
	case FB_ODD: bits = op.fbval; consumed = op.fbend; c->fbodd = true; range = false; break;
	case FB_RANGE: bits = op.fbval; range = true; c->fbodd = true; probe(PR_FB_RANGE); break;
	case FB_THROW:
		c->fbthrew = true;
		probe(PR_FB_THROW);
		if (op.fbend % 3 == 1) throw std::bad_alloc();
		if (op.fbend % 3 == 2) throw std::range_error("fallback");
		throw UserExc{1};
	case FB_NEST: if (!W->solo) run_nested(t, op.exp, false); break;
	case FB_OOMNEST: if (!W->solo) run_nested(t, op.exp, false); break;
	case FB_EINVAL: errno = EINVAL; range = false; c->fbodd = true; break;
	case FB_NOEND: setend = false; c->fbodd = true; break;
	}
	if (range)
		errno = ERANGE;
	if (!ft)
		bits &= 0xFFFFFFFFu;
	c->fbbits = bits;
	c->fbrange = range;
	if (str_end && setend)
	{
		*str_end = const_cast<char*>(static_cast<const char*>(str)) + consumed * cs;
		c->fbend = consumed;
	}
	else
		c->fbend = -1;
	return bits;
}

// ================================================================ process set-up, crash handling
namespace
{
	void on_signal(int sig, siginfo_t* si, void*)
	{
		Thr* t = self;
		if (sig == SIGPROF || sig == SIGVTALRM)
		{
			// CPU time limit of the run: a loop without any memory access
			Ctx* c = t ? t->ctx : nullptr;
			if (t && c && c->inlib)
			{
				if (t) t->inop = 0;
				viol(V_STUCK, "%s does not finish (CPU time limit of the run)", describe(*c->op).c_str());
				finish();
			}
			internal("CPU time limit of the run");
		}
		bool inlib = false;
		if (t)
			for (Ctx* c = t->ctx; c; c = c->up)
				inlib |= c->inlib;
		if (!inlib)
			internal("signal %d in the simulator (address %p)", sig, si->si_addr);
		t->inop = 0;
		const char* a = static_cast<const char*>(si->si_addr);
		const bool arena = (sig == SIGSEGV || sig == SIGBUS) && a >= ARENA && a < ARENA + ARENA_SZ;
		viol(arena ? V_SEGV : V_CRASH, "%s: signal %d%s", t->ctx ? describe(*t->ctx->op).c_str() : "", sig, arena ? " at caller's memory" : "");
		finish();
	}

	char altstacks[MAXT + 1][32768];

	void thread_altstack(int i)
	{
		stack_t ss;
		std::memset(&ss, 0, sizeof ss);
		ss.ss_sp = altstacks[i];
		ss.ss_size = sizeof altstacks[i];
		sigaltstack(&ss, nullptr);
	}

	void* thread_main(void* p)
	{
		Thr* t = static_cast<Thr*>(p);
		thread_altstack(t->id);
		fwait(&t->fut);
		self = t;
		for (const Op& op : W->plan->threads[t->id])
			exec_op(t, op, false);
		t->state = T_DONE;
		for (auto& q : W->pipes)
		{
			if (q.reader == t->id)
				q.broken = true;
			if (q.writer == t->id)
				q.closed = true;
		}
		for (int i = 0; i < static_cast<int>(W->pipes.size()); ++i)
			wake_pipe(i);
		switch_away(t);
		for (;;)
			pause();
		return nullptr;
	}

	void layout_slots(const Plan& p)
	{
		// adjacent slots, threads interleaved, the last one right before the guard page
		struct It { int t, k, cs; std::size_t n; };
		std::vector<It> v;
		for (int x = 0; x < NSLOT; ++x)
			for (int t = 0; t < W->nthr; ++t)
			{
				const int k = x < MAXDEPTH - 2 ? NESTSLOT + 2 + x : x - (MAXDEPTH - 2); // rarely used ones first
				std::size_t n = 0;
				int cs = 1;
				if (k >= NESTSLOT)
				{
					n = 0;
					for (const Op& o : p.nested)
						if (o.kind == O_PRINT || o.kind == O_SEND)
							if (sys_slot_chars(o.ft) * csize(o.ct) > n)
							{
								n = sys_slot_chars(o.ft) * csize(o.ct);
								cs = csize(o.ct);
							}
				}
				else
					for (const Op& o : p.threads[t])
					{
						if ((o.kind == O_PRINT || o.kind == O_SEND) && o.slot == k)
						{
							n = std::max(n, sys_slot_chars(o.ft) * csize(o.ct));
							cs = std::max(cs, csize(o.ct));
						}
						if (o.kind == O_REPEAT && k == 0)
							for (int i = 0; i < (o.slot ? o.slot : 1); ++i)
							{
								const Op& x = p.nested[o.a + i];
								n = std::max(n, sys_slot_chars(x.ft) * csize(x.ct));
								cs = 4;
							}
					}
				if (n)
					v.push_back(It{t, k, cs, n});
			}
		char* end = SLOTS + SLOTS_SZ - PAGE;
		for (std::size_t i = v.size(); i-- > 0;)
		{
			const std::size_t al = 4;
			std::size_t lo = reinterpret_cast<std::size_t>(end - v[i].n);
			if (v[i].cs > 1)
				lo = lo / al * al;
			end = reinterpret_cast<char*>(lo);
			if (end < SLOTS + PAGE)
				internal("too many slots");
			SlotInfo& s = slots[v[i].t][v[i].k];
			s.lo = end;
			s.n = v[i].n;
			s.mirror.assign(s.lo, s.n);
		}
	}
}

static void guard_threads(int from, int to)
{
	for (int i = from * NPAD; i < to * NPAD; ++i)
		if (i % NPAD < GUARDED)
			mprotect(PADS + i * PADSZ + PADDATA, PAGE, PROT_NONE);
	for (int i = from; i < to; ++i)
		mprotect(STACKS + i * STACK_SZ, PAGE, PROT_NONE);
}

void core_init(const char* locdir)
{
	setenv("LOCPATH", locdir, 1);
	void* a = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	void* b = mmap(SHADOW, HEAP_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	void* c = mmap(STACKS, STACK_SZ * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	shm = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if (a != ARENA || b != SHADOW || c != STACKS || shm == MAP_FAILED)
	{
		fprintf(stderr, "cannot map the arena\n");
		exit(2);
	}
	guard_threads(0, FEWT);
	mprotect(SLOTS, PAGE, PROT_NONE);
	mprotect(SLOTS + SLOTS_SZ - PAGE, PAGE, PROT_NONE);
	for (int i = 0; i < N_LOC; ++i)
	{
		loc_objs[i] = newlocale(LC_ALL_MASK, loc_names[i], static_cast<locale_t>(nullptr));
		if (!loc_objs[i])
		{
			fprintf(stderr, "locale %s missing\n", loc_names[i]);
			exit(2);
		}
		const char* n = __real_setlocale(LC_ALL, loc_names[i]);
		loc_cname[i] = n;
		loc_point[i] = localeconv()->decimal_point;
	}
	__real_setlocale(LC_ALL, "C");
	cpplocs[0] = new std::locale(std::locale::classic());
	cpplocs[1] = new std::locale(std::locale(std::locale::classic(), new CommaPunct<char>), new CommaPunct<wchar_t>);
	cpplocs[2] = new std::locale(std::locale(std::locale::classic(), new OddCtype), new OddWctype);
	cpplocs[3] = new std::locale(std::locale(std::locale::classic(), new ThrowCtype), new CommaPunct<char>);
	cpplocs[4] = new std::locale(std::locale(std::locale(std::locale::classic(), new OddWctype), new CommaPunct<wchar_t>), new CommaPunct<char>);
}

// the environment variables of the process may name any locale
void name_locale_of_environment(std::uint64_t fill)
{
	if (!(fill >> 16 & 1))
		return;
	const char* const vars[] = {"LC_ALL", "LANG", "LC_NUMERIC", "LC_CTYPE"};
	setenv(vars[fill >> 17 & 3], loc_names[1 + (fill >> 19) % (N_LOC - 1)], 1);
	if (fill >> 30 & 1)
		setenv("LC_ALL", loc_names[1 + (fill >> 24) % (N_LOC - 1)], 1);
	probe(PR_ENVLOC);
}

static void start(const Plan& p, const Solos* solos, bool verbose, bool solo)
{
	static World w;
	W = &w;
	w.plan = &p;
	w.solos = solos;
	w.verbose = verbose;
	w.solo = solo;
	w.mask = solo ? 0 : viol_mask(p.prop);
	w.nthr = static_cast<int>(std::min<std::size_t>(p.threads.size(), MAXT));
	w.pol = Rng(p.pol_seed);
	w.pipes.resize(p.pipes.size());
	if (!solo)
		name_locale_of_environment(p.fill);
	locks = new std::map<const void*, Lock>;
	for (const auto& v : p.threads)
		for (const Op& o : v)
		{
			if (o.kind == O_REPEAT)
				w.tickcap = 400000000;
		}
	for (std::size_t t = 0; t < p.threads.size(); ++t)
		for (const Op& o : p.threads[t])
		{
			if (o.kind == O_SEND || o.kind == O_SENDTXT || o.kind == O_CLOSE) w.pipes[o.a].writer = static_cast<int>(t);
			if (o.kind == O_RECV) w.pipes[o.a].reader = static_cast<int>(t);
		}
	for (PipeSt& q : w.pipes)
	{
		if (q.writer < 0) q.closed = true;
		if (q.reader < 0) q.broken = true;
	}
	if (p.policy == P_EXPLICIT || p.policy == P_WIN)
		for (const Switch& s : p.switches)
			w.explicit_sw[{static_cast<std::uint64_t>(s.tid) << 32 | static_cast<std::uint32_t>(s.op), s.step * 2 + s.forced}].push_back(p.policy == P_WIN ? -2 : s.to);
	if (p.policy == P_PCT)
	{
		for (int i = 0; i < w.nthr; ++i)
			w.thr[i].prio = w.pol.unit();
		for (int i = 0; i < 1 + static_cast<int>(p.pol_a & 7); ++i)
			w.pct.push_back(w.pol.below((p.pol_a >> 3) + 1));
		std::sort(w.pct.begin(), w.pct.end());
	}
	if (p.policy == P_RAND || p.policy == P_SHARED)
		w.countdown = w.pol.below(2 * p.pol_a + 1);

	struct sigaction sa;
	std::memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_signal;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND;
	for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGPROF})
		sigaction(s, &sa, nullptr);
	thread_altstack(MAXT);
	itimerval it;
	std::memset(&it, 0, sizeof it);
	it.it_value.tv_sec = solo ? 5 : 30;
	setitimer(ITIMER_PROF, &it, nullptr);

	layout_slots(p);
	if (w.nthr > FEWT)
	{
		guard_threads(FEWT, w.nthr);
		probe(PR_MANYTHR);
	}
	for (int i = 0; i < w.nthr; ++i)
	{
		Thr& t = w.thr[i];
		t.id = i;
		pthread_attr_t at;
		pthread_attr_init(&at);
		pthread_attr_setstack(&at, STACKS + i * STACK_SZ + PAGE, STACK_SZ - PAGE);
		if (pthread_create(&t.pt, &at, thread_main, &t))
			internal("cannot create a thread");
		pthread_attr_destroy(&at);
	}
	// first thread to run
	int first = 0;
	if (p.policy == P_EXPLICIT)
	{
		for (const Switch& s : p.switches)
			if (s.tid == -1 && s.to < w.nthr)
				first = s.to;
	}
	else if (p.policy == P_PCT)
	{
		for (int i = 0; i < w.nthr; ++i)
			if (w.thr[i].prio > w.thr[first].prio)
				first = i;
	}
	else if (p.policy != P_SEQ)
		first = static_cast<int>(w.pol.below(w.nthr));
	shm->trace[shm->ntrace++] = Switch{-1, -1, 0, first, 0};
	shm->schedhash = hash_bytes(0xcbf29ce484222325ull, &first, sizeof first);
	fwake(&w.thr[first].fut);
	for (;;)
		pause();
}

void run_child(const Plan& p, const Solos& s, bool verbose)
{
	start(p, &s, verbose, false);
	_exit(3);
}

void solo_child(const Op& op, const std::vector<Op>& nested)
{
	static Plan p;
	p.prop = 0;
	p.threads.resize(1);
	Op o(op);
	if (o.kind == O_SEND)
		o.kind = o.b ? O_PRINTSTR : O_PRINT;
	o.slot = 0;
	o.rep = 1;
	o.err = 0;
	o.newh = 0;
	o.fpm = 0;
	o.place = 1;
	p.threads[0].push_back(o);
	p.nested = nested;
	p.fill = 0;
	start(p, nullptr, false, true);
	_exit(3);
}

// Life of a process: library calls before main, while threads end, in a forked
// child, while the process exits. Each such run is a program start of its own
// (the simulator executes itself); the order of the phases is fixed, which of
// them make the first conversions, with which arguments and with which failing
// allocations, is decided by the seed.
#include "core.h"
#include "life.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <pthread.h>
#include <semaphore.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" void* __libc_malloc(std::size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_realloc(void*, std::size_t);

const char* const phase_names[PH_KINDS] = {"before_other_static_objects", "main", "thread", "thread_local_destructor", "thread_key_destructor", "after_threads", "forked_child", "main_thread_local_destructor",
	"exit_handler", "last_static_destructor", "thread_outliving_exit", "fini_function"};

struct LifeOp
{
	int kind, ft, ct, endmode, fb, phase, oom, oomall, exp;
	std::uint64_t bits;
	std::uint32_t ntxt;
	char32_t txt[LIFE_TEXT];
	// results
	LibRes r;
	int done, oomfired, stale;
};
struct LifeBlock
{
	int nops, phase, started;
	std::uint64_t fill;
	LifeOp ops[LIFE_OPS];
};

// ================================================================ in the started program
int life_on;
static LifeBlock* B;
static int in_lib, nalloc;
static LifeOp* cur;
struct Block { char* lo; std::size_t n; bool freed; };
static Block blocks[4096];
static int nblocks, nfreed;

void* life_alloc(std::size_t n)
{
	if (in_lib && cur)
	{
		++nalloc;
		if (cur->oom && (nalloc == cur->oom || (cur->oomall && nalloc > cur->oom)))
		{
			cur->oomfired = 1;
			return nullptr;
		}
	}
	char* p = static_cast<char*>(__libc_malloc(n ? n : 1));
	if (p && in_lib)
	{
		std::memset(p, static_cast<int>(B->fill & 0xff), n);
		if (nblocks < 4096)
			blocks[nblocks++] = Block{p, n, false};
	}
	return p;
}

void life_free(void* p)
{
	for (int i = nblocks; i-- > 0;)
		if (blocks[i].lo == p)
		{
			if (blocks[i].freed)
			{
				if (cur) cur->stale = 2;
				return;
			}
			// released memory of the library is never used again
			blocks[i].freed = true;
			++nfreed;
			std::memset(p, 0xDD, blocks[i].n);
			return;
		}
	__libc_free(p);
}

void* life_realloc(void* p, std::size_t n)
{
	for (int i = nblocks; i-- > 0;)
		if (blocks[i].lo == p)
		{
			char* q = static_cast<char*>(life_alloc(n));
			if (q)
			{
				std::memcpy(q, p, std::min(n, blocks[i].n));
				life_free(p);
			}
			return q;
		}
	return !p || in_lib ? life_alloc(n) : __libc_realloc(p, n);
}

void life_access(const void* q, std::size_t n)
{
	if (!in_lib || !nfreed || !n)
		return;
	const char* p = static_cast<const char*>(q);
	for (int i = 0; i < nblocks; ++i)
		if (blocks[i].freed && p < blocks[i].lo + blocks[i].n && blocks[i].lo < p + n && cur)
			cur->stale = 1;
}

void life_lib(bool enter) { in_lib = enter; }

std::uint64_t life_fallback(int ft, int ct, const void* str, void** str_end)
{
	const int io = in_lib;
	in_lib = 0;
	std::u32string s;
	const int cs = ct == 0 ? 1 : ct == 2 ? 2 : 4;
	for (const char* p = static_cast<const char*>(str);; p += cs)
	{
		char32_t c = 0;
		std::memcpy(&c, p, cs);
		if (!c) break;
		s += c;
	}
	long consumed = 0;
	bool range = false;
	const int e = errno;
	const std::uint64_t b = ref_fallback(ft, s.data(), s.size(), consumed, range);
	errno = range ? ERANGE : e;
	if (str_end)
		*str_end = const_cast<char*>(static_cast<const char*>(str)) + consumed * cs;
	in_lib = io;
	return b;
}

static void run_op(LifeOp& o)
{
	static char out[512] __attribute__((aligned(16)));
	static char text[LIFE_TEXT * 4 + 4] __attribute__((aligned(16)));
	LibReq q = LibReq();
	q.kind = o.kind; q.ft = o.ft; q.ct = o.ct; q.endmode = o.endmode; q.fb = o.fb; q.bits = o.bits; q.exp = o.exp;
	std::memset(out, static_cast<int>(B->fill >> 8), sizeof out);
	q.buf = out;
	if (o.kind == LK_PARSE || o.kind == LK_PARSESTR)
	{
		const std::size_t cs = o.ct == 0 ? 1 : o.ct == 2 ? 2 : 4;
		for (std::size_t i = 0; i <= o.ntxt; ++i)
		{
			const char32_t c = i < o.ntxt ? o.txt[i] : 0;
			std::memcpy(text + i * cs, &c, cs);
		}
		q.buf = text;
	}
	std::ostringstream os;
	q.os = &os;
	cur = &o;
	nalloc = 0;
	errno = 0;
	sys_call(q, o.r);
	in_lib = 0;
	cur = nullptr;
	if (o.kind == LK_DIAG)
	{
		const std::string s(os.str());
		o.r.ntext = 0;
		o.r.ret = hash_bytes(1, s.data(), s.size());
	}
	o.done = 1;
}

static void run_phase(int ph)
{
	B->phase = ph;
	for (int i = 0; i < B->nops; ++i)
		if (B->ops[i].phase == ph)
			run_op(B->ops[i]);
}
static bool has_phase(int ph)
{
	for (int i = 0; i < B->nops; ++i)
		if (B->ops[i].phase == ph)
			return true;
	return false;
}

static sem_t survivor_go, survivor_done;
static bool survivor;

static void last_handler()
{
	run_phase(PH_STATIC);
	if (survivor)
	{
		sem_post(&survivor_go);
		while (sem_wait(&survivor_done)) {}
	}
}

__attribute__((constructor(101))) static void first_constructor(int argc, char** argv, char**)
{
	if (argc != 4 || std::strcmp(argv[2], "life"))
		return;
	B = static_cast<LifeBlock*>(mmap(nullptr, sizeof(LifeBlock), PROT_READ | PROT_WRITE, MAP_SHARED, std::atoi(argv[3]), 0));
	if (B == MAP_FAILED)
		_exit(9);
	B->started = 1;
	itimerval it;
	std::memset(&it, 0, sizeof it);
	it.it_value.tv_sec = 6;
	setitimer(ITIMER_PROF, &it, nullptr);
	oracle_init();
	life_on = 1;
	std::atexit(last_handler);
	run_phase(PH_FIRST);
}

__attribute__((destructor(101))) static void fini_function()
{
	if (life_on)
	{
		run_phase(PH_FINI);
		B->phase = PH_KINDS;
	}
}

namespace
{
	struct TlsHook
	{
		int phase = -1;
		~TlsHook()
		{
			if (phase >= 0)
				run_phase(phase);
		}
	};
	thread_local TlsHook tls_hook;
	pthread_key_t key;

	void key_destructor(void*) { run_phase(PH_KEY); }

	void* body(void*)
	{
		tls_hook.phase = PH_TLS; // constructed before the library is used
		pthread_setspecific(key, &key);
		run_phase(PH_THREAD);
		return nullptr;
	}
	void* survivor_body(void*)
	{
		while (sem_wait(&survivor_go)) {}
		run_phase(PH_SURVIVOR);
		sem_post(&survivor_done);
		for (;;)
			pause();
	}
}

int life_main()
{
	std::atexit([]() { run_phase(PH_ATEXIT); });
	tls_hook.phase = PH_MAINTLS;
	pthread_key_create(&key, key_destructor);
	pthread_t t;
	if (has_phase(PH_SURVIVOR))
	{
		sem_init(&survivor_go, 0, 0);
		sem_init(&survivor_done, 0, 0);
		if (pthread_create(&t, nullptr, survivor_body, nullptr))
			_exit(9);
		survivor = true;
	}
	run_phase(PH_MAIN);
	if (has_phase(PH_THREAD) || has_phase(PH_TLS) || has_phase(PH_KEY))
	{
		if (pthread_create(&t, nullptr, body, nullptr))
			_exit(9);
		pthread_join(t, nullptr);
	}
	run_phase(PH_AFTER);
	if (has_phase(PH_FORK))
	{
		const pid_t p = fork();
		if (!p)
		{
			run_phase(PH_FORK);
			_exit(0);
		}
		int st = 0;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		if (!WIFEXITED(st) || WEXITSTATUS(st))
			abort();
	}
	std::exit(0);
}

// ================================================================ in the simulator
int life_prepare(const Plan& p)
{
	const int fd = memfd_create("life", 0);
	if (fd < 0 || ftruncate(fd, sizeof(LifeBlock)))
		return -1;
	LifeBlock* b = static_cast<LifeBlock*>(mmap(nullptr, sizeof(LifeBlock), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
	if (b == MAP_FAILED)
		return -1;
	b->fill = p.fill;
	for (const auto& t : p.threads)
		for (const Op& o : t)
		{
			if (b->nops >= LIFE_OPS || !is_lib(o.kind))
				continue;
			LifeOp& l = b->ops[b->nops++];
			l.kind = o.kind; l.ft = o.ft; l.ct = o.ct; l.endmode = o.endmode; l.fb = o.fb; l.phase = o.slot; l.exp = o.exp; l.bits = o.bits;
			l.ntxt = static_cast<std::uint32_t>(std::min<std::size_t>(o.txt.size(), LIFE_TEXT - 1));
			std::memcpy(l.txt, o.txt.data(), l.ntxt * sizeof(char32_t));
			for (const Fault& f : p.faults)
				if (f.kind == F_OOM && f.op == o.id)
				{
					l.oom = static_cast<int>(f.at);
					l.oomall = static_cast<int>(f.a);
				}
		}
	munmap(b, sizeof *b);
	return fd;
}

void life_judge(const Plan& p, const Solos& solos, int fd, int status, bool timeout, bool verbose)
{
	LifeBlock* b = static_cast<LifeBlock*>(mmap(nullptr, sizeof(LifeBlock), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
	close(fd);
	if (b == MAP_FAILED || !b->started)
	{
		shm->internal = 1;
		snprintf(shm->detail, sizeof shm->detail, "the program for a life cycle run did not start (wait status %d)", status);
		return;
	}
	const std::uint32_t mask = viol_mask(p.prop);
	auto report = [&](int kind, const char* where, int oid, const std::string& what)
	{
		if (!(mask >> kind & 1))
		{
			++shm->other_viol[kind];
			return;
		}
		if (shm->viol)
			return;
		shm->viol = kind;
		snprintf(shm->detail, sizeof shm->detail, "%s: phase %s op %d: %s", viol_names[kind], where, oid, what.c_str());
	};
	auto log = [&](const std::string& s)
	{
		if (verbose && shm->loglen + s.size() + 2 < MAX_LOG)
		{
			std::memcpy(shm->log + shm->loglen, s.data(), s.size());
			shm->loglen += static_cast<std::uint32_t>(s.size());
			shm->log[shm->loglen++] = '\n';
		}
	};
	int i = 0;
	unsigned phases = 0;
	// in order of execution
	std::vector<std::pair<int, const Op*>> order;
	for (const auto& t : p.threads)
		for (const Op& o : t)
			if (is_lib(o.kind) && i < b->nops)
				order.push_back({i++, &o});
	std::stable_sort(order.begin(), order.end(), [&](const std::pair<int, const Op*>& x, const std::pair<int, const Op*>& y) { return b->ops[x.first].phase < b->ops[y.first].phase; });
	std::uint64_t h = shm->loghash;
	for (auto& e : order)
	{
		LifeOp& l = b->ops[e.first];
		const Op& o = *e.second;
		const char* ph = phase_names[l.phase];
		if (!l.done)
		{
			if (b->phase == l.phase)
				report(timeout || (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF) ? V_STUCK : V_CRASH, ph, o.id, describe_op(o) + (timeout ? ": the process hangs here" : ": the process ended here (wait status " + std::to_string(status) + ")"));
			continue;
		}
		++shm->libops;
		++shm->ticks;
		if (!(phases >> l.phase & 1))
		{
			phases |= 1u << l.phase;
			++shm->probes[PR_LIFE + l.phase];
			++shm->fired[l.phase == PH_FORK ? F_FORK : F_LIFE];
		}
		if (l.oomfired)
		{
			++shm->fired[F_OOM];
			++shm->probes[l.r.exc == EXC_BADALLOC ? PR_OOM_THROWN : PR_OOM_SURVIVED];
		}
		const std::uint64_t v[] = {static_cast<std::uint64_t>(o.id), l.r.bits, static_cast<std::uint64_t>(l.r.exc), static_cast<std::uint64_t>(l.r.end), l.r.ret, hash_bytes(3, l.r.text, l.r.ntext * 4)};
		h = hash_bytes(h, v, sizeof v);
		log(std::string("[") + ph + "] op " + std::to_string(o.id) + " " + describe_op(o) + " => " + describe_res(l.r));
		if (l.stale)
			report(V_HEAP, ph, o.id, describe_op(o) + (l.stale == 2 ? ": released memory is released again" : ": memory which the library had released is used"));
		auto it = solos.byid.find(o.id);
		if (it == solos.byid.end() || it->second.viol || (l.oomfired && l.r.exc == EXC_BADALLOC))
			continue;
		if (!same_res(it->second.r, l.r))
			report(V_RESULT, ph, o.id, describe_op(o) + ": got " + describe_res(l.r) + ", alone it gives " + describe_res(it->second.r));
	}
	if (!shm->viol && b->phase != PH_KINDS)
		report(timeout || (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF) ? V_STUCK : V_CRASH, phase_names[b->phase], -1, timeout ? "the process hangs" : "the process ended abnormally after this phase (wait status " + std::to_string(status) + ")");
	shm->loghash = h;
	shm->schedhash = phases;
	shm->finished = 1;
	if (shm->viol)
		log(std::string("VIOLATION ") + shm->detail);
	munmap(b, sizeof *b);
}

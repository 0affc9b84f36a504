// Driver: worker (seeded search), shrink, replay, determinism modes.
#include "core.h"
#include "life.h"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace
{
	double now()
	{
		return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
	}

	void die(const std::string& s)
	{
		fprintf(stderr, "fsim: %s\n", s.c_str());
		exit(2);
	}

	void reset_shm()
	{
		// everything but the big arrays; those are bounded by their counters
		const std::uint32_t z = 0;
		std::memset(static_cast<void*>(shm), 0, offsetof(Shared, trace));
		shm->ntrace = z;
		shm->loglen = z;
		shm->loghash = 0xcbf29ce484222325ull;
	}

	void on_alarm(int) {}

	// whether every thread of the process and of its children sleeps; adds the processor time they have used
	bool asleep(pid_t pid, unsigned long long& used, std::vector<pid_t>& all)
	{
		all.push_back(pid);
		const std::string dir = "/proc/" + std::to_string(pid) + "/task";
		DIR* const d = opendir(dir.c_str());
		if (!d)
			return false;
		bool s = true;
		while (const dirent* const e = readdir(d))
		{
			if (e->d_name[0] == '.')
				continue;
			std::string st;
			std::getline(std::ifstream(dir + "/" + e->d_name + "/stat"), st);
			const std::size_t b = st.rfind(')');
			char state = 'R';
			unsigned long long u = 0, k = 0, f = 0;
			if (b == std::string::npos || std::sscanf(st.c_str() + b + 1, " %c %*d %*d %*d %*d %*d %*u %llu %*u %*u %*u %llu %llu", &state, &f, &u, &k) != 4)
				s = false;
			s &= state == 'S';
			used += u + k + f;
			std::ifstream c(dir + "/" + e->d_name + "/children");
			if (!c)
				s = false;
			pid_t p;
			while (c >> p)
				s &= asleep(p, used, all);
		}
		closedir(d);
		return s;
	}

	// true: the run's process ended by itself
	bool wait_child(pid_t pid, int& status, unsigned limit)
	{
		const itimerval off{}, on{{0, 500000}, {0, 500000}};
		setitimer(ITIMER_REAL, &on, nullptr);
		bool ended = true;
		unsigned halves = 0, quiet = 0;
		unsigned long long before = 0;
		while (waitpid(pid, &status, 0) < 0)
		{
			if (errno != EINTR)
				die("waitpid");
			if (!ended)
				continue;
			// either it takes too long, or nothing of it has moved for a while: it waits for something real
			unsigned long long used = 0;
			std::vector<pid_t> all;
			quiet = asleep(pid, used, all) && used == before ? quiet + 1 : 0;
			before = used;
			if (++halves >= 2 * limit || quiet >= 3)
			{
				ended = false;
				for (const pid_t p : all)
					kill(p, SIGKILL);
			}
		}
		setitimer(ITIMER_REAL, &off, nullptr);
		return ended;
	}

	std::uint64_t nsolo, nsolo_run;
	std::unordered_map<std::string, SoloRes> solo_cache;

	std::string op_key(const Op& op, const std::vector<Op>& nested)
	{
		Op o(op);
		o.id = o.slot = o.place = o.err = o.newh = o.fpm = 0;
		o.rep = 1;
		std::string k(reinterpret_cast<const char*>(o.txt.data()), o.txt.size() * 4);
		const std::uint64_t v[] = {static_cast<std::uint64_t>(o.kind == O_SEND ? (o.b ? O_PRINTSTR : O_PRINT) : o.kind), static_cast<std::uint64_t>(o.ft), static_cast<std::uint64_t>(o.ct), static_cast<std::uint64_t>(o.endmode),
			static_cast<std::uint64_t>(o.fb), static_cast<std::uint64_t>(o.fbs), static_cast<std::uint64_t>(o.fbend), static_cast<std::uint64_t>(o.kind == O_DIAG ? o.exp : 0), static_cast<std::uint64_t>(o.kind == O_DIAG ? o.a : 0), o.bits, o.fbval};
		(void)nested;
		k.append(reinterpret_cast<const char*>(v), sizeof v);
		return k;
	}

	SoloRes solo(const Op& op, const std::vector<Op>& nested)
	{
		++nsolo;
		const std::string k = op_key(op, nested);
		auto it = solo_cache.find(k);
		if (it != solo_cache.end())
			return it->second;
		++nsolo_run;
		reset_shm();
		fflush(nullptr);
		const pid_t p = fork();
		if (p < 0)
			die("fork");
		if (!p)
			solo_child(op, nested);
		int st = 0;
		const bool ended = wait_child(p, st, 40);
		SoloRes r = shm->solo;
		r.viol = shm->viol;
		if (shm->internal)
			die(std::string("solo run: ") + shm->detail);
		if (!ended)
			r.viol = V_STUCK;
		else if (!shm->finished && !r.viol)
			r.viol = V_CRASH;
		if (solo_cache.size() > 60000)
			solo_cache.clear();
		solo_cache[k] = r;
		return r;
	}

	struct Out
	{
		int viol = 0;
		std::string detail;
		std::uint64_t loghash = 0, schedhash = 0;
		bool same(const Out& o) const { return viol == o.viol && loghash == o.loghash && schedhash == o.schedhash && detail == o.detail; }
	};

	bool needs_solo(int prop) { return viol_mask(prop) & (1u << V_RESULT | 1u << V_RETRY); }

	// most of what conversions of short texts of the same kind take
	Cap cap_of(const Op& op)
	{
		static const char* const texts[] = {"0", "-1.5", "1e5.5", "nan(1)", "infinity", "123456789012345678901234567890e-7", "0.000000000000000000000000000012345678901234567890123", "1e-400", "-1e400", "4.9e-324", "7.1e-46",
			"1.000000059604644775390625", "9007199254740993.0000000001", "1000000000000000000000000000000001", "2.2250738585072011e-308", "16777217.00000000000000000001e0", "x"};
		Cap c;
		Op o(op);
		o.fbs = FB_EXACT;
		o.fbend = 0;
		o.fbval = 0;
		for (const char* t : texts)
		{
			o.txt.assign(t, t + std::strlen(t));
			const SoloRes s = solo(o, std::vector<Op>());
			c.stack = std::max(c.stack, s.stack);
			c.heap = std::max(c.heap, s.heap);
		}
		return c;
	}

	Solos make_solos(const Plan& p)
	{
		Solos s;
		if (p.prop == 15)
			for (const auto& t : p.threads)
				for (const Op& o : t)
					if ((o.kind == O_PARSE || o.kind == O_PARSESTR) && o.txt.size() >= 600)
						s.caps[o.id] = cap_of(o);
		if (!needs_solo(p.prop))
			return s;
		for (const auto& t : p.threads)
			for (const Op& o : t)
				if ((is_lib(o.kind) && o.kind != O_DIAG) || o.kind == O_SEND)
					s.byid[o.id] = solo(o, p.nested);
		for (const Op& o : p.nested)
			if (is_lib(o.kind) && o.kind != O_DIAG)
				s.byid[o.id] = solo(o, p.nested);
		return s;
	}

	Out outcome(const Plan& p)
	{
		if (shm->internal)
			die("run " + std::to_string(p.idx) + ": simulator trouble: " + shm->detail);
		Out o;
		o.viol = shm->viol;
		o.detail = shm->detail;
		o.loghash = shm->loghash;
		o.schedhash = shm->schedhash;
		return o;
	}

	// runs a plan in a process of its own; results are in *shm
	const char* locdir;

	// a program start of its own
	void run_life(const Plan& p, const Solos& s, bool verbose)
	{
		const int fd = life_prepare(p);
		if (fd < 0)
			die("memory for a life cycle run");
		const std::string n = std::to_string(fd);
		const pid_t c = fork();
		if (c < 0)
			die("fork");
		if (!c)
		{
			name_locale_of_environment(p.fill);
			char* const av[] = {const_cast<char*>("fsim"), const_cast<char*>(locdir), const_cast<char*>("life"), const_cast<char*>(n.c_str()), nullptr};
			execv("/proc/self/exe", av);
			_exit(9);
		}
		int st = 0;
		const bool ended = wait_child(c, st, 30);
		life_judge(p, s, fd, st, !ended, verbose);
	}

	Out run_plan(const Plan& p, bool verbose)
	{
		const Solos s = make_solos(p);
		reset_shm();
		fflush(nullptr);
		if (p.policy == P_LIFE)
		{
			run_life(p, s, verbose);
			return outcome(p);
		}
		const pid_t c = fork();
		if (c < 0)
			die("fork");
		if (!c)
			run_child(p, s, verbose);
		int st = 0;
		const bool ended = wait_child(c, st, 100);
		if (!shm->internal && !shm->finished)
		{
			const int k = ended ? V_CRASH : V_STUCK;
			if (viol_mask(p.prop) & (1u << k))
			{
				shm->viol = k;
				snprintf(shm->detail, sizeof shm->detail, ended ? "%s: the process ended in the middle of the run (wait status %d)" : "%s: the run hangs (wait status %d)", viol_names[k], st);
			}
			else
				++shm->other_viol[k];
		}
		return outcome(p);
	}

	std::uint64_t plan_hash(const Plan& p)
	{
		Plan q(p);
		q.seed = q.idx = q.pol_seed = q.pol_a = 0;
		q.fill = 0;
		q.policy = q.policy == P_LIFE;
		q.switches.clear();
		const std::string s = q.to_text();
		return hash_bytes(0xcbf29ce484222325ull, s.data(), s.size());
	}

	// ------------------------------------------------------------ worker
	// fsim worker PROP SEED FIRST STRIDE LAST DEADLINE_S STOPFILE OUT
	int worker(int prop, std::uint64_t seed, std::uint64_t first, std::uint64_t stride, std::uint64_t last, double limit, const char* stopfile, const std::string& out)
	{
		const int fd = open(stopfile, O_RDWR);
		if (fd < 0)
			die("stop file");
		volatile std::uint64_t* stop = static_cast<volatile std::uint64_t*>(mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		std::uint64_t runs = 0, ticks = 0, idle = 0, sw = 0, libops = 0, fired[F_KINDS] = {}, probes[PR_KINDS] = {}, other[V_KINDS] = {}, maxops = 0, maxstack = 0, maxheap = 0, maxheld = 0, nontrivial = 0;
		std::uint64_t runs_with_fault = 0, pol[P_KINDS] = {};
		std::uint64_t loghash = 0;
		std::unordered_set<std::uint64_t> distinct;
		const double t0 = now();
		bool cut = false;
		std::string violation;
		std::ostringstream samples;
		int nsamples = 0;
		for (std::uint64_t i = first; i < last; i += stride)
		{
			if (i > *stop)
				break;
			if (now() - t0 > limit)
			{
				cut = true;
				break;
			}
			const Plan p = gen_plan(prop, seed, i, solo);
			const Out o = run_plan(p, false);
			++runs;
			++pol[p.policy];
			ticks += shm->ticks;
			idle += shm->idle_ticks;
			sw += shm->nswitch;
			libops += shm->libops;
			maxops = std::max(maxops, shm->maxops);
			maxstack = std::max(maxstack, shm->maxstack);
			maxheap = std::max(maxheap, shm->maxheap);
			maxheld = std::max(maxheld, shm->maxheld);
			std::uint64_t nf = 0;
			for (int k = 0; k < F_KINDS; ++k) { fired[k] += shm->fired[k]; nf += shm->fired[k]; }
			for (int k = 0; k < PR_KINDS; ++k) probes[k] += shm->probes[k];
			for (int k = 0; k < V_KINDS; ++k) other[k] += shm->other_viol[k];
			runs_with_fault += nf > 0;
			loghash = mix(loghash, o.loghash);
			if (shm->libops && (nf || shm->probes[PR_PREEMPT]))
			{
				++nontrivial;
				distinct.insert(mix(plan_hash(p), o.schedhash));
			}
			if (nsamples < 1 && nf && shm->probes[PR_PREEMPT] && p.to_text().size() < 2500)
			{
				++nsamples;
				samples << p.to_text() << "outcome: " << shm->ticks << " ticks, " << shm->nswitch << " context switches, " << shm->libops << " library calls, trace hash " << std::hex << o.loghash << std::dec << "\n";
			}
			if (o.viol)
			{
				std::uint64_t old = *stop;
				while (i < old && !__sync_bool_compare_and_swap(const_cast<std::uint64_t*>(stop), old, i))
					old = *stop;
				violation = std::to_string(i) + "\n" + o.detail;
				break;
			}
		}
		std::ofstream f(out);
		f << "runs " << runs << "\nticks " << ticks << "\nidle_ticks " << idle << "\nswitches " << sw << "\nlibops " << libops << "\nmaxops " << maxops << "\nmaxstack " << maxstack << "\nmaxheap " << maxheap << "\nmaxheld " << maxheld << "\nnontrivial " << nontrivial
		  << "\nruns_with_fault " << runs_with_fault << "\nsolo_runs " << nsolo_run << "\nsolo_lookups " << nsolo << "\nloghash " << loghash << "\ncut " << cut << "\nwall_ms " << static_cast<long>((now() - t0) * 1000) << "\n";
		for (int k = 0; k < F_KINDS; ++k) f << "fault." << fault_names[k] << ' ' << fired[k] << '\n';
		for (int k = 0; k < PR_KINDS; ++k) f << "probe." << probe_names[k] << ' ' << probes[k] << '\n';
		for (int k = 0; k < V_KINDS; ++k) f << "other." << viol_names[k] << ' ' << other[k] << '\n';
		for (int k = 0; k < P_KINDS; ++k) f << "policy." << policy_names[k] << ' ' << pol[k] << '\n';
		f.close();
		std::ofstream h(out + ".hashes", std::ios::binary);
		for (std::uint64_t x : distinct) h.write(reinterpret_cast<const char*>(&x), 8);
		h.close();
		std::ofstream(out + ".samples") << samples.str();
		if (!violation.empty())
			std::ofstream(out + ".violation") << violation;
		return 0;
	}

	// ------------------------------------------------------------ minimisation
	struct Shrinker
	{
		int kind, budget = 1500, used = 0;
		double deadline;
		bool fails(const Plan& p, Out* out = nullptr)
		{
			if (used >= budget || now() > deadline)
				return false;
			++used;
			const Out o = run_plan(p, false);
			if (out) *out = o;
			return o.viol == kind;
		}
		// delta debugging over one list of the plan
		template<typename T> void ddmin(Plan& p, std::vector<T> Plan::*list)
		{
			std::size_t chunk = (p.*list).size();
			while (chunk >= 1 && !(p.*list).empty())
			{
				bool any = false;
				for (std::size_t i = 0; i < (p.*list).size();)
				{
					Plan q(p);
					auto& v = q.*list;
					v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + chunk));
					if (fails(q)) { p = q; any = true; }
					else i += chunk;
				}
				if (chunk == 1 && !any) break;
				if (!any || chunk > (p.*list).size()) chunk = std::max<std::size_t>(1, std::min(chunk / 2, (p.*list).size() / 2));
				if (chunk == 0) break;
			}
		}
		void ops(Plan& p)
		{
			for (std::size_t t = 0; t < p.threads.size(); ++t)
			{
				if (p.threads[t].empty()) continue;
				Plan q(p);
				q.threads[t].clear();
				if (fails(q)) { p = q; continue; }
				for (std::size_t chunk = p.threads[t].size(); chunk >= 1; chunk /= 2)
					for (std::size_t i = 0; i < p.threads[t].size();)
					{
						Plan q2(p);
						auto& v = q2.threads[t];
						v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + chunk));
						if (fails(q2)) p = q2;
						else i += chunk;
					}
			}
		}
		void texts(Plan& p)
		{
			for (auto& t : p.threads)
				for (auto& o : t)
				{
					if (o.kind != O_PARSE && o.kind != O_PARSESTR && o.kind != O_SENDTXT) continue;
					for (std::size_t chunk = o.txt.size() / 2; chunk >= 1; chunk /= 2)
						for (std::size_t i = 0; i + chunk <= o.txt.size();)
						{
							const std::u32string keep = o.txt;
							o.txt.erase(i, chunk);
							if (!fails(p)) { o.txt = keep; i += chunk; }
						}
				}
			for (auto& t : p.threads)
				for (auto& o : t)
				{
					if (o.rep > 1) { const int k = o.rep; o.rep = 1; if (!fails(p)) o.rep = k; }
					if (o.err) { const int k = o.err; o.err = 0; if (!fails(p)) o.err = k; }
				}
		}
	};

	// explicit schedule of the last run
	std::vector<Switch> recorded()
	{
		return std::vector<Switch>(shm->trace, shm->trace + shm->ntrace);
	}

	int shrink(int prop, std::uint64_t seed, std::uint64_t idx, const std::string& out)
	{
		Plan p = gen_plan(prop, seed, idx, solo);
		const Out a = run_plan(p, false);
		if (!a.viol)
			die("run does not violate the property again");
		std::vector<Switch> tr = recorded();
		const bool complete = shm->ntrace < MAX_TRACE && p.policy != P_LIFE;
		const Out b = run_plan(p, false);
		if (!a.same(b))
			die("run is not repeatable: " + a.detail + " / " + b.detail);
		Shrinker s;
		s.kind = a.viol;
		s.deadline = now() + 60;
		Plan e(p);
		e.policy = P_EXPLICIT;
		e.pol_a = 0;
		e.switches = tr;
		bool expl = false;
		if (complete)
		{
			Out c;
			expl = s.fails(e, &c) && c.loghash == a.loghash;
			if (!expl && getenv("FSIM_DEBUG"))
				fprintf(stderr, "explicit form differs: %s\n", c.detail.c_str());
		}
		Plan m = expl ? e : p;
		for (int round = 0; round < 3; ++round)
		{
			const std::string before = m.to_text();
			s.ops(m);
			s.ddmin(m, &Plan::faults);
			if (expl)
				s.ddmin(m, &Plan::switches);
			s.texts(m);
			if (m.to_text() == before)
				break;
		}
		while (!m.threads.empty() && m.threads.back().empty())
		{
			Plan q(m);
			q.threads.pop_back();
			if (!s.fails(q)) break;
			m = q;
		}
		Out f = run_plan(m, false);
		if (f.viol != s.kind)
			die("minimised run does not fail");
		std::ofstream o(out);
		o << "# floaxie simulator replay: " << f.detail << "\n# variant " << sys_variant() << "\n# violation " << viol_names[f.viol] << "\n# trace-hash " << std::hex << f.loghash << std::dec << "\n# schedule " << (expl ? "explicit, minimised" : "by policy and seed")
		  << "; found by seed " << seed << " run " << idx << "; original: " << tr.size() << " switches; " << s.used << " runs to minimise\n" << m.to_text();
		o.close();
		printf("%s\n", f.detail.c_str());
		return 0;
	}

	int replay(const std::string& file, bool quiet)
	{
		std::ifstream in(file);
		if (!in) die("cannot read " + file);
		std::stringstream ss;
		ss << in.rdbuf();
		Plan p;
		std::string err;
		if (!p.from_text(ss.str(), err)) die("bad replay file: " + err);
		const Out o = run_plan(p, !quiet);
		if (!quiet)
			fwrite(shm->log, 1, shm->loglen, stdout);
		printf("trace-hash %016llx\n", static_cast<unsigned long long>(o.loghash));
		if (o.viol)
		{
			printf("VIOLATED %s\n", o.detail.c_str());
			return 1;
		}
		printf("no violation\n");
		return 0;
	}
}

int main(int argc, char** argv)
{
	if (argc < 3)
	{
		fprintf(stderr, "usage: fsim LOCDIR worker|shrink|replay|show|hashes ...\n");
		return 2;
	}
	locdir = argv[1];
	if (argc == 4 && !std::strcmp(argv[2], "life"))
		return life_main();
	struct sigaction sa;
	std::memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_alarm;
	sigaction(SIGALRM, &sa, nullptr);
	core_init(argv[1]);
	oracle_init();
	const std::string m = argv[2];
	auto num = [&](int i) { return std::strtoull(argv[i], nullptr, 10); };
	if (m == "worker" && argc == 11)
		return worker(static_cast<int>(num(3)), num(4), num(5), num(6), num(7), atof(argv[8]), argv[9], argv[10]);
	if (m == "shrink" && argc == 7)
		return shrink(static_cast<int>(num(3)), num(4), num(5), argv[6]);
	if (m == "replay" && argc >= 4)
		return replay(argv[3], argc > 4);
	if (m == "plan" && argc == 6)
	{
		printf("%s", gen_plan(static_cast<int>(num(3)), num(4), num(5), solo).to_text().c_str());
		return 0;
	}
	if (m == "show" && argc >= 6) // prints plan and log of one run
	{
		const Plan p = gen_plan(static_cast<int>(num(3)), num(4), num(5), solo);
		printf("%s", p.to_text().c_str());
		const Out o = run_plan(p, true);
		fwrite(shm->log, 1, shm->loglen, stdout);
		printf("ticks %llu switches %llu viol %s\n", static_cast<unsigned long long>(shm->ticks), static_cast<unsigned long long>(shm->nswitch), o.detail.c_str());
		return 0;
	}
	if (m == "hashes" && argc == 7) // trace hashes of runs FIRST..LAST: the determinism check compares them
	{
		for (std::uint64_t i = num(5); i < num(6); ++i)
		{
			const Plan p = gen_plan(static_cast<int>(num(3)), num(4), i, solo);
			const Out o = run_plan(p, false);
			printf("%llu %016llx %016llx %llu %d %016llx\n", static_cast<unsigned long long>(i), static_cast<unsigned long long>(o.loghash), static_cast<unsigned long long>(o.schedhash),
				static_cast<unsigned long long>(shm->ticks), o.viol, static_cast<unsigned long long>(plan_hash(p)));
		}
		return 0;
	}
	fprintf(stderr, "bad arguments\n");
	return 2;
}

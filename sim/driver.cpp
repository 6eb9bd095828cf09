// Driver: forks one process per simulated run, spreads runs over workers, gates and
// minimises violations, writes replay files and a summary of what was covered.
#include "runtime.h"

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

using namespace sim;
using u64 = std::uint64_t;

static double now() {
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

template<typename T>
static T* shared(std::size_t n = 1) {
	void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
	return (T*)p;
}

struct Program {
	std::uint8_t mask[MAXT][1024];
	std::vector<Switch> sw;
	std::vector<FaultRec> fl;
	u64 seed = 0;
	bool trace = false;
};

static std::string g_scratch;

static void clear_res(Res* r) { memset((void*)r, 0, sizeof *r); }

/// Runs one simulation in a forked child and waits for it.
static void run_one(const RunSpec& s, Res* r) {
	clear_res(r);
	pid_t p = fork();
	if (p < 0) { perror("fork"); _exit(2); }
	if (p == 0) {
		if (!s.verbose) {
			int dn = (int)syscall(SYS_open, "/dev/null", 1, 0);
			dup2(dn, 1);
			dup2(dn, 2);
		}
		run_child(s, r);
	}
	int st = 0;
	double t0 = now();
	for (int spin = 0;; ++spin) {
		pid_t w = waitpid(p, &st, spin < 1 ? 0 : WNOHANG);
		if (w == p) break;
		if (w < 0 && errno == EINTR) { if (now() - t0 > 240) { kill(p, SIGKILL); waitpid(p, &st, 0); break; } spin = -1; continue; }
	}
	if (r->status == ST_RUNNING || r->status == ST_EMPTY) {
		r->status = ST_ERROR;
		snprintf(r->cls, sizeof r->cls, "process-died");
		snprintf(r->msg, sizeof r->msg, "run ended without a verdict (wait status %d)", st);
	}
}

static RunSpec spec_of(const Program& p, bool verbose = false) {
	RunSpec s;
	s.seed = p.seed;
	s.trace = p.trace;
	s.verbose = verbose;
	s.mask = p.mask;
	s.sw = p.sw.data();
	s.nsw = (int)p.sw.size();
	s.fl = p.fl.data();
	s.nfl = (int)p.fl.size();
	s.scratch = g_scratch.c_str();
	return s;
}

// ---------------------------------------------------------------------- worker statistics
struct Slot {
	u64 runs, viol, errors, steps, ops, switches, preempts, contended, faulty_runs, determ, determ_bad;
	double simns, slowest;
	u64 heap, slow_seed;
	u64 faults[F_KINDS];
	u64 nprobes;
	struct { const char* name; u64 count, runs; } probes[128];
	u64 nrun, nstate;
	u64 bad_seed;
	int bad_status;
	char bad_cls[64], bad_msg[1536];
	u64 sample_seed, sample_pre, sample_faults, sample_ops, sample_sw;
};
static constexpr std::size_t MAXH = 2'000'000;

static u64 run_seed(u64 base, u64 i) { return mix(mix(base, 0xC0FFEE), i); }

static void worker(int w, int W, u64 base, u64 nruns, double deadline, u64 determ, Slot* s, u64* hr, u64* hs, volatile int* stop, const std::string& scr) {
	g_scratch = scr;
	cpu_set_t cs;
	CPU_ZERO(&cs);
	CPU_SET(w % (int)sysconf(_SC_NPROCESSORS_ONLN), &cs);
	sched_setaffinity(0, sizeof cs, &cs);
	Res* r = shared<Res>();
	std::map<std::string, int> pidx;
	for (u64 i = w; i < nruns; i += W) {
		if (*stop || now() > deadline) break;
		RunSpec sp;
		sp.seed = run_seed(base, i);
		sp.scratch = g_scratch.c_str();
		double before = now();
		run_one(sp, r);
		double took = now() - before;
		if (took > s->slowest) { s->slowest = took; s->slow_seed = sp.seed; }
		s->heap = std::max<u64>(s->heap, r->heap);
		++s->runs;
		s->steps += r->steps;
		s->ops += r->ops;
		s->switches += r->nsw;
		s->preempts += r->preempt_in_op;
		s->contended += r->contended;
		s->simns += r->simns;
		bool f = false;
		for (int k = 0; k < F_KINDS; ++k) {
			s->faults[k] += r->faults[k];
			if (r->faults[k]) f = true;
		}
		s->faulty_runs += f;
		for (int k = 0; k < r->nprobes; ++k) {
			auto it = pidx.find(r->probes[k].name);
			if (it == pidx.end()) {
				if (s->nprobes >= 128) continue;
				it = pidx.emplace(r->probes[k].name, (int)s->nprobes).first;
				s->probes[s->nprobes++].name = r->probes[k].name;
			}
			s->probes[it->second].count += r->probes[k].count;
			++s->probes[it->second].runs;
		}
		bool chosen = false; // a switch the scheduler chose, not one forced by blocking or termination
		for (int k = 0; k < r->nsw && !chosen; ++k) chosen = !r->sw[k].forced;
		if ((chosen || f) && s->nrun < MAXH) hr[s->nrun++] = mix(mix(sp.seed, r->swhash), r->hash);
		for (int k = 0; k < r->nstates && s->nstate < MAXH; ++k) hs[s->nstate++] = r->states[k];
		u64 fl = (u64)r->nfl;
		if (r->preempt_in_op + fl > s->sample_pre + s->sample_faults && i < 400) {
			s->sample_seed = sp.seed;
			s->sample_pre = r->preempt_in_op;
			s->sample_faults = fl;
			s->sample_ops = r->ops;
			s->sample_sw = r->nsw;
		}
		if (r->status != ST_OK) {
			s->bad_seed = sp.seed;
			s->bad_status = r->status;
			memcpy(s->bad_cls, r->cls, sizeof r->cls);
			memcpy(s->bad_msg, r->msg, sizeof r->msg);
			if (r->status == ST_VIOLATION) ++s->viol;
			else ++s->errors;
			*stop = 1;
			break;
		}
		if (i < determ) {
			u64 h = r->hash, st = r->steps;
			run_one(sp, r);
			++s->determ;
			if (r->hash != h || r->steps != st || r->status != ST_OK) {
				++s->determ_bad;
				s->bad_seed = sp.seed;
				*stop = 1;
				break;
			}
		}
	}
	_exit(0);
}

// ---------------------------------------------------------------------- replay files
static void write_replay(const std::string& path, const Program& p, const Res& r, const std::string& prop) {
	std::ofstream o(path);
	o << "# deterministic simulation replay\n";
	o << "property " << prop << "\nharness " << harness_name << "\nseed " << p.seed << "\nclass " << r.cls << "\nhash " << r.hash << "\nsteps " << r.steps << "\n";
	o << "message " << r.msg << "\n";
	for (int t = 1; t < MAXT; ++t)
		for (int i = 0; i < 1024; ++i)
			if (i < r.nops[t] && !p.mask[t][i]) o << "keep " << t << " " << i << "\n";
	for (const auto& s : p.sw) o << "switch " << (int)s.task << " " << s.op << " " << s.step << " " << (int)s.to << " " << (int)s.forced << "\n";
	for (const auto& f : p.fl) o << "fault " << fault_names[f.kind] << " " << (int)f.kind << " " << (int)f.task << " " << f.op << " " << f.idx << " " << f.val << "\n";
	o << "end\n";
}
static bool read_replay(const std::string& path, Program& p, std::string& cls, u64& hash) {
	std::ifstream in(path);
	if (!in) return false;
	memset(p.mask, 1, sizeof p.mask); // everything not listed as "keep" is dropped
	p.trace = true;
	std::string k;
	bool end = false;
	while (in >> k) {
		if (k == "seed") in >> p.seed;
		else if (k == "class") in >> cls;
		else if (k == "hash") in >> hash;
		else if (k == "keep") { int t, i; in >> t >> i; if (t >= 0 && t < MAXT && i >= 0 && i < 1024) p.mask[t][i] = 0; }
		else if (k == "switch") { int t, to, fo; Switch s; in >> t >> s.op >> s.step >> to >> fo; s.task = (std::uint8_t)t; s.to = (std::uint8_t)to; s.forced = (std::uint8_t)fo; p.sw.push_back(s); }
		else if (k == "fault") { std::string n; int kd, t; FaultRec f; in >> n >> kd >> t >> f.op >> f.idx >> f.val; f.kind = (std::uint8_t)kd; f.task = (std::uint8_t)t; p.fl.push_back(f); }
		else if (k == "end") { end = true; break; }
		else std::getline(in, k);
	}
	return end;
}

// ---------------------------------------------------------------------- minimisation
static Program from_run(u64 seed, const Res& r) {
	Program p;
	memset(p.mask, 0, sizeof p.mask);
	p.seed = seed;
	p.trace = true;
	p.sw.assign(r.sw, r.sw + r.nsw);
	p.fl.assign(r.fl, r.fl + r.nfl);
	return p;
}

struct Minimiser {
	Res* r;
	std::string cls;
	int trials = 0;
	double deadline;
	bool fails(const Program& p) {
		if (trials > 3000 || now() > deadline) return false;
		++trials;
		run_one(spec_of(p), r);
		return r->status == ST_VIOLATION && cls == r->cls;
	}
	template<typename V>
	bool shrink_list(Program& p, V Program::*m) {
		bool any = false;
		for (std::size_t chunk = std::max<std::size_t>(1, (p.*m).size() / 2);; chunk /= 2) {
			for (std::size_t i = 0; i < (p.*m).size();) {
				Program q = p;
				auto b = (q.*m).begin() + (long)i;
				(q.*m).erase(b, b + (long)std::min(chunk, (q.*m).size() - i));
				if (fails(q)) { p = std::move(q); any = true; }
				else i += chunk;
			}
			if (chunk <= 1) break;
		}
		return any;
	}
	bool shrink_ops(Program& p, const int* nops) {
		bool any = false;
		for (int t = 1; t < MAXT; ++t) {
			int n = std::min(nops[t], 1024);
			for (int chunk = std::max(1, n); chunk >= 1; chunk /= 2) {
				for (int i = 0; i < n; i += chunk) {
					Program q = p;
					bool ch = false;
					for (int j = i; j < std::min(n, i + chunk); ++j) if (!q.mask[t][j]) { q.mask[t][j] = 1; ch = true; }
					if (ch && fails(q)) { p = std::move(q); any = true; }
				}
			}
		}
		return any;
	}
	void run(Program& p) {
		int nops[MAXT];
		run_one(spec_of(p), r);
		for (int t = 0; t < MAXT; ++t) nops[t] = r->nops[t];
		for (int round = 0; round < 4; ++round) {
			bool a = shrink_ops(p, nops);
			a |= shrink_list(p, &Program::fl);
			a |= shrink_list(p, &Program::sw);
			if (!a) break;
		}
		// keep exactly the switches that the minimal run takes
		run_one(spec_of(p), r);
	}
};

static std::string jesc(const std::string& s) {
	std::string o;
	for (char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else if ((unsigned char)c >= 127) o += '?';
		else o += c;
	}
	return o;
}

static const char* arg(int argc, char** argv, const char* k, const char* d) {
	for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], k)) return argv[i + 1];
	return d;
}
static bool flag(int argc, char** argv, const char* k) {
	for (int i = 2; i < argc; ++i) if (!strcmp(argv[i], k)) return true;
	return false;
}
static void on_alarm(int) {}

static std::string make_scratch() {
	char t[] = "/tmp/vsimXXXXXX";
	if (!mkdtemp(t)) { perror("mkdtemp"); _exit(2); }
	return t;
}
static void remove_tree(const std::string& d) {
	// scratch holds plain files and one level of worker directories only
	if (d.compare(0, 9, "/tmp/vsim") != 0) return;
	pid_t p = fork();
	if (p == 0) {
		execl("/bin/rm", "rm", "-rf", "--", d.c_str(), (char*)nullptr);
		_exit(1);
	}
	int st;
	waitpid(p, &st, 0);
}

int main(int argc, char** argv) {
	driver_mode = true;
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
		if (personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("VSIM_NOEXEC")) {
			setenv("VSIM_NOEXEC", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_alarm;
	sigaction(SIGALRM, &sa, nullptr);

	std::string cmd = argc > 1 ? argv[1] : "";
	std::string prop = arg(argc, argv, "--property", "C00");
	std::string root = make_scratch();
	int rc = 2;
	if (cmd == "replay" || cmd == "one") {
		Program p;
		std::string cls;
		u64 hash = 0;
		Res* r = shared<Res>();
		g_scratch = root + "/w0";
		mkdir(g_scratch.c_str(), 0700);
		cpu_set_t cs;
		CPU_ZERO(&cs);
		CPU_SET(0, &cs);
		sched_setaffinity(0, sizeof cs, &cs);
		if (cmd == "replay") {
			if (!read_replay(argv[2], p, cls, hash)) { std::cerr << "cannot read replay file\n"; remove_tree(root); return 2; }
			// The log formats values of the library, which may fill its caches, so the
			// verdict is taken from a run that does not write it.
			if (!flag(argc, argv, "--quiet")) {
				run_one(spec_of(p, true), r);
				fflush(stdout);
			}
			run_one(spec_of(p, false), r);
		} else {
			RunSpec s;
			s.seed = strtoull(argv[2], nullptr, 10);
			s.verbose = !flag(argc, argv, "--quiet");
			s.scratch = g_scratch.c_str();
			run_one(s, r);
		}
		std::cout << "status " << r->status << " class " << (r->cls[0] ? r->cls : "-") << " hash " << r->hash << " steps " << r->steps << " ops " << r->ops << " switches " << r->nsw << " faults " << r->nfl << "\n";
		std::cout << "message " << r->msg << "\n";
		std::cout << "stack";
		for (int i = 0; i < r->nstack; ++i) printf(" 0x%x", r->stack[i]);
		fflush(stdout);
		std::cout << std::endl;
		if (cmd == "replay") {
			bool same = r->status == ST_VIOLATION && cls == r->cls && hash == r->hash;
			std::cout << (same ? "REPRODUCED" : "NOT-REPRODUCED") << std::endl;
			rc = same ? 1 : 2;
		} else rc = r->status == ST_OK ? 0 : r->status == ST_VIOLATION ? 1 : 2;
		remove_tree(root);
		return rc;
	}
	if (cmd != "run") {
		std::cerr << "usage: run|replay FILE|one SEED\n";
		remove_tree(root);
		return 2;
	}

	u64 base = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
	u64 nruns = strtoull(arg(argc, argv, "--runs", "1000"), nullptr, 10);
	double secs = atof(arg(argc, argv, "--seconds", "30"));
	int W = atoi(arg(argc, argv, "--workers", "8"));
	u64 determ = strtoull(arg(argc, argv, "--determinism", "64"), nullptr, 10);
	std::string replay = arg(argc, argv, "--replay-out", "");
	std::string summary = arg(argc, argv, "--summary", "");
	double t0 = now();
	Slot* slots = shared<Slot>(W);
	u64* hr = shared<u64>(MAXH * W);
	u64* hs = shared<u64>(MAXH * W);
	volatile int* stop = shared<int>();
	std::vector<pid_t> ps;
	for (int w = 0; w < W; ++w) {
		std::string scr = root + "/w" + std::to_string(w % 10);
		mkdir(scr.c_str(), 0700);
		pid_t p = fork();
		if (p == 0) worker(w, W, base, nruns, t0 + secs, determ, slots + w, hr + MAXH * w, hs + MAXH * w, stop, scr);
		ps.push_back(p);
	}
	int died = 0;
	for (pid_t p : ps) {
		int st;
		waitpid(p, &st, 0);
		if (st != 0) died = st;
	}
	double t1 = now();
	Slot T;
	memset(&T, 0, sizeof T);
	std::unordered_set<u64> R, S;
	std::map<std::string, std::pair<u64, u64>> probes;
	const Slot* bad = nullptr;
	const Slot* sample = nullptr;
	for (int w = 0; w < W; ++w) {
		Slot& s = slots[w];
		T.runs += s.runs; T.viol += s.viol; T.errors += s.errors; T.steps += s.steps; T.ops += s.ops; T.switches += s.switches;
		T.preempts += s.preempts; T.contended += s.contended; T.faulty_runs += s.faulty_runs; T.determ += s.determ; T.determ_bad += s.determ_bad; T.simns += s.simns;
		if (s.slowest > T.slowest) { T.slowest = s.slowest; T.slow_seed = s.slow_seed; }
		T.heap = std::max(T.heap, s.heap);
		for (int k = 0; k < F_KINDS; ++k) T.faults[k] += s.faults[k];
		for (u64 k = 0; k < s.nprobes; ++k) { auto& e = probes[s.probes[k].name]; e.first += s.probes[k].count; e.second += s.probes[k].runs; }
		R.insert(hr + MAXH * w, hr + MAXH * w + s.nrun);
		S.insert(hs + MAXH * w, hs + MAXH * w + s.nstate);
		if (s.bad_status != 0 && (!bad || s.bad_status == ST_VIOLATION)) bad = &s;
		if (s.sample_seed && (!sample || s.sample_pre + s.sample_faults > sample->sample_pre + sample->sample_faults)) sample = &s;
	}
	if (died) std::cerr << "a worker died: " << died << "\n";

	rc = 0;
	std::string vcls, vmsg;
	int min_trials = 0;
	std::size_t min_sw = 0, min_fl = 0;
	Res* r = shared<Res>();
	g_scratch = root + "/w0";
	if (T.determ_bad) {
		std::cerr << "ERROR: a seed did not reproduce its own event log\n";
		for (int w = 0; w < W; ++w) if (slots[w].determ_bad) std::cerr << "  seed " << slots[w].bad_seed << "\n";
		rc = 2;
	} else if (bad && bad->bad_status == ST_ERROR) {
		std::cerr << "ERROR: seed " << bad->bad_seed << ": " << bad->bad_cls << ": " << bad->bad_msg << "\n";
		rc = 2;
	} else if (died) rc = 2;
	else if (bad) {
		cpu_set_t cs;
		CPU_ZERO(&cs);
		CPU_SET(0, &cs);
		sched_setaffinity(0, sizeof cs, &cs);
		u64 seed = bad->bad_seed;
		RunSpec sp;
		sp.seed = seed;
		sp.scratch = g_scratch.c_str();
		run_one(sp, r);
		u64 h1 = r->hash;
		std::string c1 = r->cls;
		bool v1 = r->status == ST_VIOLATION;
		Program p = from_run(seed, *r);
		run_one(sp, r);
		if (!v1 || r->status != ST_VIOLATION || r->hash != h1 || c1 != r->cls) {
			std::cerr << "ERROR: violation of seed " << seed << " (" << bad->bad_cls << ": " << bad->bad_msg << ") does not reproduce\n";
			rc = 2;
		} else {
			vcls = c1;
			Minimiser m{r, c1, 0, now() + 25};
			Program best = p;
			if (!m.fails(p)) {
				// the explicit schedule must reproduce the seeded run
				std::cerr << "ERROR: explicit trace of seed " << seed << " (" << c1 << ") does not reproduce: " << r->cls << "\n";
				rc = 2;
			} else {
				m.run(best);
				min_trials = m.trials;
				run_one(spec_of(best), r);
				if (r->status != ST_VIOLATION || c1 != r->cls) { best = p; run_one(spec_of(best), r); }
				vmsg = r->msg;
				min_sw = best.sw.size();
				min_fl = best.fl.size();
				write_replay(replay, best, *r, prop);
				// fresh process
				pid_t c = fork();
				if (c == 0) {
					unsetenv("VSIM_NOEXEC");
					int dn = (int)syscall(SYS_open, "/dev/null", 1, 0);
					dup2(dn, 1);
					dup2(dn, 2);
					execl("/proc/self/exe", argv[0], "replay", replay.c_str(), "--quiet", (char*)nullptr);
					_exit(9);
				}
				int st = 0;
				waitpid(c, &st, 0);
				if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) {
					std::cerr << "ERROR: replay in a fresh process does not reproduce (" << c1 << ")\n";
					rc = 2;
				} else rc = 1;
			}
		}
	}
	if (!summary.empty()) {
		std::ofstream o(summary);
		o << "{\"runs\": " << T.runs << ", \"wall_s\": " << (t1 - t0) << ", \"steps\": " << T.steps << ", \"operations\": " << T.ops << ", \"switches\": " << T.switches
		  << ", \"preemptions_inside_operations\": " << T.preempts << ", \"lock_contention\": " << T.contended << ", \"runs_with_faults\": " << T.faulty_runs
		  << ", \"simulated_seconds\": " << T.simns * 1e-9 << ", \"determinism_rechecks\": " << T.determ << ", \"distinct_runs\": " << R.size() << ", \"distinct_states\": " << S.size()
		  << ", \"slowest_run_s\": " << T.slowest << ", \"slowest_seed\": " << T.slow_seed << ", \"largest_heap_mb\": " << (T.heap >> 20) << ", \"workers\": " << W << ", \"rc\": " << rc;
		o << ", \"faults\": {";
		bool first = true;
		for (int k = 0; k < F_KINDS; ++k) if (T.faults[k]) { o << (first ? "" : ", ") << "\"" << fault_names[k] << "\": " << T.faults[k]; first = false; }
		o << "}, \"probes\": {";
		first = true;
		for (auto& e : probes) { o << (first ? "" : ", ") << "\"" << jesc(e.first) << "\": {\"hits\": " << e.second.first << ", \"runs\": " << e.second.second << "}"; first = false; }
		o << "}";
		if (sample) o << ", \"sample\": {\"seed\": \"" << sample->sample_seed << "\", \"operations\": " << sample->sample_ops << ", \"switches\": " << sample->sample_sw << ", \"preemptions_inside_operations\": " << sample->sample_pre << ", \"faults\": " << sample->sample_faults << "}";
		if (!vcls.empty()) {
			o << ", \"violation\": {\"class\": \"" << jesc(vcls) << "\", \"message\": \"" << jesc(vmsg) << "\", \"minimise_trials\": " << min_trials << ", \"switches\": " << min_sw << ", \"faults\": " << min_fl << ", \"stack\": [";
			for (int i = 0; i < r->nstack; ++i) o << (i ? ", " : "") << "\"0x" << std::hex << r->stack[i] << std::dec << "\"";
			o << "]}";
		}
		o << "}\n";
	}
	remove_tree(root);
	return rc;
}

// Shared between the simulator core and the driver.
#pragma once
#include "sim.h"
#include <cstdint>

namespace sim {

enum Status : int { ST_EMPTY, ST_RUNNING, ST_OK, ST_VIOLATION, ST_ERROR };
enum Policy : int { P_NONE, P_RANDOM, P_PCT, P_TRACE };
enum TaskState : int { T_NEW, T_RUN, T_BLOCKED, T_DONE };

struct Switch {
	std::uint8_t task, to, forced;
	std::int32_t op;
	std::uint64_t step;
};
struct FaultRec {
	std::uint8_t kind, task;
	std::int32_t op;
	std::uint32_t idx;
	std::uint64_t val;
};
struct Probe {
	const char* name;
	std::uint64_t count;
};

/// Result of one run; lives in memory shared with the parent so that it survives a crash.
struct Res {
	static constexpr int MAXSW = 6000, MAXFL = 512, MAXSTATES = 96, MAXPROBES = 48;
	volatile int status;
	char cls[64];
	char msg[1536];
	int fail_task, fail_op;
	std::uint64_t hash, swhash, steps, heap;
	std::int64_t simns;
	std::uint64_t ops, preempt_in_op, contended;
	std::uint32_t faults[F_KINDS];
	int nsw, nfl, nstates, nprobes, nstack, nops[MAXT];
	std::uint32_t stack[24];
	Probe probes[MAXPROBES];
	std::uint64_t states[MAXSTATES];
	Switch sw[MAXSW];
	FaultRec fl[MAXFL];
};

struct Task {
	static constexpr int CSMAX = 256;
	int id;
	volatile int state;
	volatile int go;
	int op;
	std::uint64_t step, stop, slice_start;
	bool stop_random;
	int quiet, faulty, atomic;
	bool in_op;
	void* wait;
	std::uint64_t stall_until;
	std::uint32_t vc[MAXT];
	std::uint32_t fidx[F_KINDS];
	int op_faults, op_faults_k[F_KINDS];
	void* cs[CSMAX];
	int cs_n;
	const Switch** tr;
	int tr_n, tr_next;
};

struct Global {
	Res* res;
	bool in_child, verbose, parallel, track, faults_enabled, sw_overflow, disk_full;
	std::uint64_t seed, gstep, nswitch;
	std::int64_t mono_extra, wall_off;
	int ntasks, cur;
	Task tasks[MAXT];
	Config cfg;
	int policy;
	double p_access, p_sync, p_op;
	std::uint64_t cp[8];
	int ncp, prio[MAXT], low_prio;
	Rng sched, faultrng;
	const FaultRec* tf;
	int ntf;
	const char* scratch;
	const std::uint8_t (*mask)[1024];
	Harness* harness;
	std::uint8_t simfd[1024];
};
extern Global G;
extern bool driver_mode;

struct RunSpec {
	std::uint64_t seed = 1;
	bool trace = false, verbose = false;
	const std::uint8_t (*mask)[1024] = nullptr; // [MAXT][1024], 1 = dropped
	const Switch* sw = nullptr;
	int nsw = 0;
	const FaultRec* fl = nullptr;
	int nfl = 0;
	const char* scratch = "";
};
/// Executes one simulation in the calling (forked) process. Never returns.
[[noreturn]] void run_child(const RunSpec& spec, Res* res);

} // namespace sim

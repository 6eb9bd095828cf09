// Deterministic simulator for in-process systems: public interface used by the harnesses.
//
// The system under test is compiled with -fsanitize=thread but linked against our own
// runtime, so every memory access, atomic, lock, allocation, clock read and file operation
// of the system is a point at which the simulator can decide what happens next.
#pragma once
#include <cstddef>
#include <cstdint>
#include <sstream>
#include <string>

namespace sim {

constexpr int MAXT = 6; // task 0 is the main thread, 1..5 are simulated threads

// ---------------------------------------------------------------- random numbers
struct Rng {
	std::uint64_t s;
	explicit Rng(std::uint64_t seed = 1) : s(seed) {}
	std::uint64_t next() {
		s += 0x9e3779b97f4a7c15ull;
		std::uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	/// uniform in [0,n)
	std::uint64_t below(std::uint64_t n) { return n == 0 ? 0 : next() % n; }
	/// uniform in [a,b]
	std::int64_t range(std::int64_t a, std::int64_t b) { return a + std::int64_t(below(std::uint64_t(b - a + 1))); }
	bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	template<typename T, std::size_t N>
	const T& pick(const T (&a)[N]) { return a[below(N)]; }
};
std::uint64_t mix(std::uint64_t a, std::uint64_t b);

// ---------------------------------------------------------------- faults
enum Fault : int {
	F_ALLOC,      // operator new throws std::bad_alloc
	F_STALL,      // a thread is not scheduled for a long while, wherever it is
	F_CAS,        // weak compare-exchange fails spuriously
	F_OPEN,       // opening a file fails
	F_READ_SHORT, // read returns fewer bytes than asked
	F_READ_EINTR, // read interrupted
	F_READ_EIO,   // read fails
	F_WRITE_SHORT,// write stores fewer bytes than asked
	F_WRITE_EINTR,// write interrupted
	F_WRITE_ERR,  // write fails: EIO / ENOSPC
	F_DISK_FULL,  // from now on every write fails with ENOSPC until space is freed
	F_CLOCK_BACK, // wall clock stepped backwards
	F_CLOCK_FWD,  // wall clock stepped forwards
	F_FPENV,      // ambient floating point rounding mode changed
	F_CLIENT,     // client-supplied callback/stream fails
	F_KINDS
};
extern const char* const fault_names[F_KINDS];

// ---------------------------------------------------------------- per run configuration
struct Config {
	int ntasks = 1;             // number of simulated threads
	int nops[MAXT] = {};        // operations per task (index 1..)
	double rate[F_KINDS] = {};  // probability per site; 0 = disabled
	std::uint64_t step_cap = 40'000'000;
	int max_faults = 1 << 30;   // per run
	bool preempt = true;        // false: tasks are only switched between operations
	bool track_races = true;
};

struct Harness {
	virtual ~Harness() = default;
	/// Chooses sizes and fault rates. The simulator has already chosen whether this run is fault free.
	virtual void configure(Rng& r, Config& c, bool faults) = 0;
	virtual void setup(Rng&) {}
	virtual void op(int task, int idx, Rng& r) = 0;
	virtual void task_end(int) {}
	virtual void finish() {}
};
/// Provided by each harness.
Harness* make_harness();
extern const char* const harness_name;

// ---------------------------------------------------------------- services
/// Reports a violation of the property and ends the run. Does not return.
[[noreturn]] void fail(const char* cls, const std::string& msg);
/// Ends the run as "not a verdict": something is wrong with the harness itself.
[[noreturn]] void harness_error(const std::string& msg);
/// Folds an observable result into the event log hash.
void observe(std::uint64_t h);
/// Abstract state reached (for the coverage measure).
void state(std::uint64_t h);
/// Counts that a rare condition was reached. The name must be a string literal.
void reach(const char* literal);
/// Asks whether a fault of that kind fires here; 0 = no, otherwise a positive parameter.
std::uint64_t fault(Fault k);
/// Number of faults that fired in the current operation of the calling task.
int faults_in_op();
int faults_in_op(Fault k);
/// Number of faults of that kind in the whole run so far.
int faults_so_far(Fault k);
/// Task id of the caller, 0 for main.
int self();
/// An explicit scheduling point.
void yield();
bool verbose();
void log_line(const std::string& s);
/// simulated wall clock / monotonic clock in ns
std::int64_t wall_now();
std::int64_t mono_now();
void advance(std::int64_t ns);
void step_wall(std::int64_t ns);
/// directory for files of this run, "" if unavailable
const char* scratch();
/// files below scratch() are subject to disk faults from now on
void disk_reset();
bool disk_full();
void set_disk_full(bool b);
bool parallel_phase();

/// Within a Quiet scope the code belongs to the oracle: no preemption, no faults, no race tracking.
struct Quiet {
	Quiet();
	~Quiet();
	Quiet(const Quiet&) = delete;
};
/// Faults only fire inside such a scope.
struct Faulty {
	Faulty();
	~Faulty();
	Faulty(const Faulty&) = delete;
};
/// No preemption, but accesses still count (used to make a multi-call client step atomic).
struct Atomic {
	Atomic();
	~Atomic();
	Atomic(const Atomic&) = delete;
};

} // namespace sim

#define SIM_CHECK(cond, cls, msg)                                         \
	do {                                                                  \
		if (!(cond)) {                                                    \
			::sim::Quiet q_;                                              \
			std::ostringstream os_;                                       \
			os_ << msg << " [" << #cond << "]";                           \
			::sim::fail(cls, os_.str());                                  \
		}                                                                 \
	} while (0)
#define SIM_LOG(msg)                                                      \
	do {                                                                  \
		if (::sim::verbose()) {                                           \
			::sim::Quiet q_;                                              \
			std::ostringstream os_;                                       \
			os_ << msg;                                                   \
			::sim::log_line(os_.str());                                   \
		}                                                                 \
	} while (0)

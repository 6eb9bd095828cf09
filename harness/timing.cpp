// Timers under clock steps, stalls and long waits.
#include "common.h"
#include <carl-statistics/Timing.h>
#include <carl/util/Timer.h>

using namespace sim;
namespace sim { const char* const harness_name = "timing"; }

namespace {
using i64 = std::int64_t;

struct H : Harness {
	struct T {
		std::unique_ptr<carl::Timer> t;
		i64 lo = 0, hi = 0; // the start lies between these instants
	};
	struct M {
		carl::statistics::timing::time_point p;
		i64 lo, hi;
	};
	struct Client {
		T timers[4];
		carl::statistics::timer acc[2];
		i64 sum_lo[2] = {}, sum_hi[2] = {}; // bounds of the accumulated time in ms
		std::size_t count[2] = {};
		std::vector<M> running;
	};
	Client cl[MAXT];

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(6, 40);
		if (faults) {
			c.rate[F_CLOCK_BACK] = pick_from(r, {0.0, 0.05, 0.3});
			c.rate[F_CLOCK_FWD] = pick_from(r, {0.0, 0.05, 0.3});
			c.rate[F_STALL] = 0.05;
		}
	}
	static i64 ms(i64 ns) { return ns / 1'000'000; }
	void op(int t, int, Rng& r) override {
		Client& c = cl[t];
		int k = (int)r.below(9);
		// let time pass: nanoseconds to days
		static const i64 spans[] = {0, 1, 999, 400'000, 1'000'000, 1'500'000, 20'000'000, 1'000'000'000, 61'000'000'000, 90'000'000'000'000};
		advance((i64)r.below((std::uint64_t)spans[r.below(10)] + 1));
		std::size_t i = r.below(4);
		T& x = c.timers[i];
		std::size_t a = r.below(2);
		switch (k) {
		case 0: case 1: {
			i64 lo = mono_now();
			if (k == 0 || !x.t) {
				Faulty f;
				x.t.reset(new carl::Timer());
			} else {
				Faulty f;
				x.t->reset();
			}
			x.lo = lo;
			x.hi = mono_now();
			SIM_LOG("t" << t << " start timer " << i);
			break;
		}
		case 2: case 3: case 4: {
			if (!x.t) return;
			i64 lo = mono_now();
			std::size_t got;
			if (k == 4) {
				std::stringstream ss;
				{
					Faulty f;
					ss << *x.t;
				}
				ss >> got;
			} else {
				Faulty f;
				got = x.t->passed();
			}
			i64 hi = mono_now();
			i64 least = ms(lo - x.hi), most = ms(hi - x.lo);
			SIM_LOG("t" << t << " timer " << i << " -> " << got << " ms, elapsed " << least << ".." << most);
			SIM_CHECK((i64)got >= least && (i64)got <= most, "duration", "timer reports " << got << " ms, elapsed between " << least << " and " << most << " ms");
			observe(got);
			if (got > 1000) reach("long-duration");
			break;
		}
		case 5: {
			M m;
			m.lo = mono_now();
			{
				Faulty f;
				m.p = carl::statistics::timer::start();
			}
			m.hi = mono_now();
			Quiet q;
			c.running.push_back(m);
			break;
		}
		case 6: case 7: {
			if (c.running.empty()) return;
			std::size_t j = r.below(c.running.size());
			M m = c.running[j];
			i64 lo = mono_now();
			{
				Faulty f;
				c.acc[a].finish(m.p);
			}
			i64 hi = mono_now();
			Quiet q;
			c.running.erase(c.running.begin() + (long)j);
			c.sum_lo[a] += ms(lo - m.hi);
			c.sum_hi[a] += ms(hi - m.lo);
			++c.count[a];
			[[fallthrough]];
		}
		default: {
			i64 got = (i64)c.acc[a].overall_ms();
			std::size_t n = c.acc[a].count();
			SIM_LOG("t" << t << " accumulated " << got << " ms in " << n << " measurements, elapsed " << c.sum_lo[a] << ".." << c.sum_hi[a]);
			SIM_CHECK(n == c.count[a], "count", n << " measurements reported, " << c.count[a] << " finished");
			SIM_CHECK(got >= c.sum_lo[a] && got <= c.sum_hi[a], "duration", "accumulated " << got << " ms, measured between " << c.sum_lo[a] << " and " << c.sum_hi[a] << " ms");
			observe((std::uint64_t)got);
			state(mix((std::uint64_t)got, n));
		}
		}
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

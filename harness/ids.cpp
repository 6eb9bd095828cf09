// Id allocators: exclusivity, reuse, reported bounds.
#include "common.h"
#include <cassert>
#include <carl/util/IDGenerator.h>
#include <carl/util/IDPool.h>
#include <set>

using namespace sim;
namespace sim { const char* const harness_name = "ids"; }

namespace {
struct H : Harness {
	bool generator = false, clearing = false;
	std::size_t limit = 10;
	std::unique_ptr<carl::IDPool> pool;
	std::unique_ptr<carl::IDGenerator> gen;
	std::vector<std::size_t> held[MAXT];
	std::set<std::size_t> used;
	std::size_t inflight = 0, peak = 0;

	void configure(Rng& r, Config& c, bool faults) override {
		generator = r.chance(0.5);
		clearing = r.chance(0.2);
		c.ntasks = clearing || r.chance(0.2) ? 1 : (int)r.range(2, 5);
		limit = r.chance(0.3) ? 150 : (std::size_t)r.range(2, 20);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(5, limit > 100 ? 200 : 60);
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.02, 0.2});
			c.rate[F_STALL] = 0.02;
		}
	}
	void setup(Rng&) override {
		pool.reset(new carl::IDPool());
		gen.reset(new carl::IDGenerator());
	}
	void op(int t, int, Rng& r) override {
		std::size_t first = generator ? 1 : 0;
		int k = (int)r.below(100);
		if (clearing && k < 6) {
			if (generator) gen->clear();
			else pool->clear();
			reach("cleared");
			Quiet q;
			used.clear();
			held[t].clear();
			peak = 0;
			SIM_LOG("clear");
			std::size_t b = generator ? gen->nextID() : pool->largestID();
			SIM_CHECK(b == first, "clear", "cleared allocator still reports " << b);
			return;
		}
		bool get = held[t].empty() || (held[t].size() < limit && k < 58);
		if (k >= 92) {
			std::size_t lo = 0;
			bool any = false;
			{
				Quiet q;
				for (auto& h : held) for (std::size_t i : h) { lo = std::max(lo, i); any = true; }
			}
			// other threads may release meanwhile: only own ids are held for certain
			std::size_t own = 0;
			bool anyown = false;
			{ Quiet q; for (std::size_t i : held[t]) { own = std::max(own, i); anyown = true; } }
			std::size_t b = generator ? gen->nextID() : pool->largestID();
			if (anyown) SIM_CHECK(generator ? b > own : b >= own, "bound", "allocator reports bound " << b << " while id " << own << " is in use");
			if (!generator) {
				std::size_t sz = pool->size();
				if (anyown) SIM_CHECK(sz > own, "bound", "allocator reports size " << sz << " while id " << own << " is in use");
			}
			observe(b);
			(void)any;
			return;
		}
		{ Quiet q; ++inflight; peak = std::max(peak, used.size() + inflight); }
		if (get) {
			std::size_t id = 0;
			bool failed = false;
			try {
				Faulty f;
				id = generator ? gen->get() : pool->get();
			} catch (const std::bad_alloc&) { failed = true; }
			Quiet q;
			--inflight;
			SIM_LOG("t" << t << " get -> " << id << (failed ? " bad_alloc" : ""));
			if (failed) {
				SIM_CHECK(faults_in_op(F_ALLOC) > 0, "exception", "bad_alloc without allocation failure");
				reach("get-failed");
				return;
			}
			SIM_CHECK(id >= first, "range", "reserved id " << id << " handed out");
			SIM_CHECK(used.insert(id).second, "duplicate", "id " << id << " handed out while in use");
			SIM_CHECK(id < peak + first, "reuse", "id " << id << " handed out although at most " << peak << " ids were ever in use");
			held[t].push_back(id);
			observe(id);
			std::uint64_t h = 0;
			for (std::size_t u : used) h = mix(h, u);
			state(h);
		} else {
			std::size_t i = r.below(held[t].size());
			std::size_t id = held[t][i];
			{
				Quiet q;
				held[t].erase(held[t].begin() + (long)i);
				used.erase(id);
			}
			bool failed = false;
			try {
				Faulty f;
				if (generator) gen->free(id);
				else pool->free(id);
			} catch (const std::bad_alloc&) { failed = true; }
			SIM_LOG("t" << t << " free " << id << (failed ? " bad_alloc" : ""));
			Quiet q;
			--inflight;
			if (failed) {
				SIM_CHECK(faults_in_op(F_ALLOC) > 0, "exception", "bad_alloc without allocation failure");
				// not released: the holder keeps it
				reach("free-failed");
				SIM_CHECK(used.insert(id).second, "duplicate", "id " << id << " handed out although its release failed");
				held[t].push_back(id);
			}
		}
	}
	void finish() override {
		// after releasing everything the lowest ids are available again
		for (auto& h : held) for (std::size_t id : h) {
			if (generator) gen->free(id);
			else pool->free(id);
		}
		Quiet q;
		std::size_t n = peak, first = generator ? 1 : 0;
		std::set<std::size_t> again;
		for (std::size_t i = 0; i < n; ++i) {
			std::size_t id = generator ? gen->get() : pool->get();
			SIM_CHECK(again.insert(id).second, "duplicate", "id " << id << " handed out twice after all were released");
			SIM_CHECK(id >= first && id < n + first, "reuse", "id " << id << " handed out although " << n << " released ids exist");
		}
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

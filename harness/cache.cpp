// Reference-counted cache: storing, holding, refining, merging and evicting entries with tiny capacity limits.
#include "common.h"
#include <carl/core/logging.h>
#include <algorithm>
#include <set>
#include <carl/util/Cache.h>
#include <set>

using namespace sim;
namespace sim { const char* const harness_name = "cache"; }

namespace {
/// A value with several representations of the same meaning; equality is by meaning, the hash by representation.
struct Val {
	static int alive;
	int meaning;
	mutable int repr;
	mutable std::size_t hash;
	std::string payload;
	Val(int m, int r) : meaning(m), repr(r), payload("payload of value " + std::to_string(m)) { rehash(); Quiet q; ++alive; }
	~Val() { Quiet q; --alive; }
	Val(const Val&) = delete;
	void rehash() const { hash = (std::size_t)meaning * 3 + (std::size_t)(repr / 2) * 7; }
	std::size_t getHash() const { return hash; }
	bool operator==(const Val& o) const { return meaning == o.meaning; }
	friend std::ostream& operator<<(std::ostream& os, const Val& v) { return os << v.meaning << "/" << v.repr; }
};
int Val::alive = 0;
bool can_update(const Val& a, const Val& b) { return b.repr > a.repr; }
void update(const Val& a, const Val& b) { reach("updated"); a.repr = b.repr; }
using Cache = carl::Cache<Val>;

struct Hold {
	Cache::Ref ref;
	int meaning;
	int repr;
	int gen;     // generation of refinements when stored
};

struct H : Harness {
	Cache* cache = nullptr;
	std::mutex steps;
	bool shared = false, updates = false;
	int range = 4;
	std::vector<Hold> holds[MAXT];
	std::vector<Hold> pool; // references held in common
	std::map<int, int> refined; // meaning -> number of refinements

	void configure(Rng& r, Config& c, bool faults) override {
		shared = r.chance(0.5);
		c.preempt = shared;
		c.ntasks = shared ? (int)r.range(2, 4) : (int)r.range(1, 3);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(3, shared ? 14 : r.chance(0.15) ? 120 : 40);
		if (faults) c.rate[F_STALL] = pick_from(r, {0.0, 0.001});
	}
	void setup(Rng& r) override {
		range = (int)r.range(1, r.chance(0.2) ? 60 : 12);
		updates = r.chance(0.5);
		std::size_t cap = (std::size_t)r.range(1, 8);
		double red = pick_from(r, {0.0, 0.2, 0.5, 1.0}), decay = pick_from(r, {0.9, 0.98, 1.0});
		cache = new Cache(cap, red, decay);
		SIM_LOG("capacity " << cap << ", reduction " << red);
	}
	void store(int t, Rng& r) {
		int m = (int)r.below(range), rep = shared ? 0 : (int)r.below(5);
		bool upd = !shared && updates && r.chance(0.5);
		Val* v = new Val(m, rep);
		std::pair<Cache::Ref, bool> res;
		{
			// storing and registering is one step of the client (see known-findings.txt)
			std::unique_lock<std::mutex> l(steps, std::defer_lock);
			if (shared) l.lock();
			res = upd ? cache->cache(v, &can_update, &update) : cache->cache(v);
			cache->reg(res.first);
		}
		SIM_LOG("t" << t << " store " << m << "/" << rep << " -> " << res.first << (res.second ? " new" : "") << (upd ? " (update)" : ""));
		if (!res.second) delete v;
		SIM_CHECK(res.first != Cache::NO_REF, "value", "storing gave no reference");
		const Val& g = cache->get(res.first);
		SIM_CHECK(g.meaning == m && g.payload == "payload of value " + std::to_string(m), "value", "value " << m << " was stored, its reference " << res.first << " yields " << g.meaning);
		if (res.second) SIM_CHECK(&g == v, "value", "a new entry does not hold the stored object");
		Quiet q;
		if (upd && !res.second) ++refined[m];
		for (int k = 0; k < MAXT && !shared; ++k) for (auto& h : holds[k]) {
			// an equal object that nobody refined since it was stored is found again
			if (h.meaning == m && h.repr == rep && h.gen == refined[m] && !refined[m])
				SIM_CHECK(&cache->get(h.ref) == &g, "same", "value " << m << "/" << rep << " is held under reference " << h.ref << " and was stored again as " << res.first);
		}
		if (shared) for (int k = 0; k < MAXT; ++k) for (auto& h : holds[k]) if (h.meaning == m) SIM_CHECK(h.ref == res.first, "same", "value " << m << " is held under reference " << h.ref << " and was stored again as " << res.first);
		holds[t].push_back({res.first, m, rep, refined[m]});
		if (res.second) reach("new-entry"); else reach("found-entry");
	}
	void op(int t, int, Rng& r) override {
		auto& mine = holds[t];
		int k = (int)r.below(12);
		if (mine.empty() || k <= 3) return store(t, r);
		std::size_t i = r.below(mine.size());
		Hold h = mine[i];
		if (k <= 6) {
			SIM_LOG("t" << t << " release " << h.ref);
			{ Quiet q; mine.erase(mine.begin() + i); }
			std::unique_lock<std::mutex> l(steps, std::defer_lock);
			if (shared) l.lock();
			cache->dereg(h.ref);
		} else if (k == 7) {
			SIM_LOG("t" << t << " hold again " << h.ref);
			cache->reg(h.ref);
			Quiet q;
			mine.push_back(h);
		} else if (k == 8) {
			int n = r.chance(0.2) ? 200 : 1;
			SIM_LOG("t" << t << " strengthen " << h.ref);
			for (int j = 0; j < n; ++j) { cache->strengthenActivity(h.ref); if (r.chance(0.7)) cache->decayActivity(); }
		} else if (k == 9 && shared) {
			// nothing changed, so nothing is merged
			SIM_LOG("t" << t << " rehash " << h.ref);
			cache->rehash(h.ref);
		} else if (k == 9) {
			// refine the representation, as a computation on the value would do, and tell the cache
			SIM_LOG("t" << t << " refine " << h.ref);
			const Val& v = cache->get(h.ref);
			v.repr = (int)r.below(5);
			if (r.chance(0.3)) { Quiet q; std::ostringstream os; cache->print(os); }
			int before = Val::alive;
			cache->rehash(h.ref);
			Quiet q;
			if (Val::alive < before) reach("merged");
			++refined[h.meaning];
			reach("rehashed");
		} else {
			const Val& v = cache->get(h.ref);
			SIM_CHECK(v.meaning == h.meaning && v.payload.back() == std::to_string(h.meaning).back(), "value", "reference " << h.ref << " of value " << h.meaning << " yields " << v.meaning);
			observe(mix(h.ref, v.meaning));
		}
		Quiet q;
		if (!shared) check_all();
		state(mix(mine.size(), Val::alive));
	}
	void check_all() {
		for (int t = 1; t < MAXT; ++t) for (auto& h : holds[t]) {
			const Val& v = cache->get(h.ref);
			SIM_CHECK(v.meaning == h.meaning, "value", "reference " << h.ref << " of value " << h.meaning << " yields " << v.meaning);
		}
	}
	void finish() override {
		{ Quiet q; check_all(); }
		for (int t = 1; t < MAXT; ++t) for (auto& h : holds[t]) cache->dereg(h.ref);
		delete cache;
		SIM_CHECK(Val::alive == 0, "leak", Val::alive << " objects outlive the cache");
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

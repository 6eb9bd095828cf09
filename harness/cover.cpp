// Set covers: clients copy set systems they share, extend them and look for covers with every heuristic, while
// allocations fail.
// build-flags: -DNDEBUG
#include "common.h"
#include <carl/util/Bitset.h>
#include <carl-covering/carl-covering.h>
#include <bitset>
#include <map>
#include <mutex>
#include <set>

using namespace sim;
namespace sim { const char* const harness_name = "cover"; }

namespace {
namespace cv = carl::covering;
using Sets = std::map<std::size_t, std::set<std::size_t>>;
using Typed = cv::TypedSetCover<std::string>;

std::string show(const Sets& s) {
	std::stringstream o;
	for (auto& p : s) { o << p.first << ":{"; for (auto e : p.second) o << e << ","; o << "} "; }
	return o.str();
}
std::string name(std::size_t i) { return "a set with the number " + std::to_string(i); }

struct H : Harness {
	struct Sys { std::shared_ptr<const cv::SetCover> sc; Sets x; };
	std::vector<Sys> shared;
	std::mutex mx;
	carl::Bitset res[MAXT];
	std::vector<std::string> names[MAXT];

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(1, r.chance(0.1) ? 24 : 8);
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.001, 0.01, 0.05});
			c.max_faults = (int)r.range(1, 6);
		}
	}
	Sets random(Rng& r) {
		Sets x;
		std::size_t ns = (std::size_t)r.range(1, r.chance(0.2) ? 10 : 7), ne = (std::size_t)r.range(1, r.chance(0.15) ? 140 : 12);
		double p = pick_from(r, {0.1, 0.25, 0.5, 0.8});
		for (std::size_t s = 0; s < ns; ++s) {
			auto& e = x[s];
			if (r.chance(0.1)) continue;
			for (std::size_t i = 0; i < ne; ++i) if (r.chance(p)) e.insert(i);
			if (s > 0 && r.chance(0.15)) e = x[r.below(s)];
		}
		return x;
	}
	template<typename C, typename N>
	void fill(C& sc, const Sets& x, N&& n, bool bits) {
		for (auto& s : x) {
			if (bits) {
				// in two portions
				carl::Bitset b, c;
				for (auto e : s.second) (e % 3 ? b : c).set(e);
				sc.set(n(s.first), b);
				sc.set(n(s.first), c);
			} else {
				for (auto e : s.second) sc.set(n(s.first), e);
			}
		}
	}
	void setup(Rng& r) override {
		shared.resize(2);
		for (auto& s : shared) {
			{ Quiet q; s.x = random(r); }
			auto sc = std::make_shared<cv::SetCover>();
			fill(*sc, s.x, [](std::size_t i) { return i; }, r.chance(0.5));
			s.sc = sc;
		}
		cv::SetCover sc(*shared[0].sc);
		cv::heuristic::exact(sc);
	}
	static std::set<std::size_t> united(const Sets& x) { std::set<std::size_t> u; for (auto& s : x) u.insert(s.second.begin(), s.second.end()); return u; }
	static bool covers(const Sets& x, const std::set<std::size_t>& sel) {
		std::set<std::size_t> u;
		for (auto s : sel) { auto it = x.find(s); if (it != x.end()) u.insert(it->second.begin(), it->second.end()); }
		return u == united(x);
	}
	static std::size_t minimum(const Sets& x) {
		std::vector<std::bitset<256>> sets;
		std::bitset<256> all;
		for (auto& s : x) if (!s.second.empty()) { std::bitset<256> b; for (auto e : s.second) b.set(e); sets.push_back(b); all |= b; }
		std::size_t best = sets.size();
		for (std::size_t m = 0; m < (std::size_t(1) << sets.size()); ++m) {
			if ((std::size_t)__builtin_popcountll(m) >= best) continue;
			std::bitset<256> u;
			for (std::size_t i = 0; i < sets.size(); ++i) if (m >> i & 1) u |= sets[i];
			if (u == all) best = (std::size_t)__builtin_popcountll(m);
		}
		return best;
	}
	void op(int t, int, Rng& r) override {
		Sys own;
		{
			std::lock_guard<std::mutex> l(mx);
			own.sc = shared[r.below(shared.size())].sc;
			Quiet q;
			for (auto& s : shared) if (s.sc == own.sc) own.x = s.x;
		}
		bool fresh = r.chance(0.5);
		Sets x;
		std::size_t k, bound, es, ee;
		bool bits = r.chance(0.5), extend = !fresh && r.chance(0.5);
		std::vector<double> w;
		{
			Quiet q;
			x = fresh ? random(r) : own.x;
			es = r.below(9); ee = r.below(r.chance(0.2) ? 200 : 14);
			if (extend) { for (std::size_t s = 0; s <= es; ++s) x[s]; x[es].insert(ee); }
			k = r.below(9);
			bound = r.below(4);
			for (std::size_t i = 0; i < 16; ++i) w.push_back((double)r.range(1, 8) / 2);
			SIM_LOG("t" << t << " heuristic " << k << " bound " << bound << (bits ? " bits " : " ") << show(x));
		}
		bool done = false;
		std::shared_ptr<cv::SetCover> sc;
		std::shared_ptr<Typed> ty;
		try {
			Faulty f;
			if (k == 8 || k == 7) {
				ty = std::make_shared<Typed>();
				fill(*ty, x, name, bits);
				if (k == 8) names[t] = ty->get_cover([](cv::SetCover& c) { return cv::heuristic::greedy(c); });
				else res[t] = cv::heuristic::greedy_weighted(*ty, [&](const std::string& s) { return w[(std::size_t)s.back() - '0']; }, 0);
			} else {
				if (fresh) { sc = std::make_shared<cv::SetCover>(); fill(*sc, x, [](std::size_t i) { return i; }, bits); }
				else { sc = std::make_shared<cv::SetCover>(*own.sc); if (extend) sc->set(es, ee); }
				switch (k) {
				case 0: case 1: res[t] = cv::heuristic::exact(*sc); break;
				case 2: res[t] = cv::heuristic::greedy(*sc); break;
				case 3: res[t] = cv::heuristic::greedy_bounded(*sc, bound); break;
				case 4: res[t] = cv::heuristic::greedy_weighted(*sc, w, bound); break;
				case 5: res[t] = cv::heuristic::trivial(*sc); break;
				default: cv::heuristic::remove_duplicates(*sc); res[t] = cv::heuristic::select_essential(*sc); break;
				}
			}
			done = true;
		} catch (const std::bad_alloc&) {
			reach("allocation-failed");
		}
		if (done) {
			Quiet q;
			std::set<std::size_t> sel;
			if (k == 8) {
				for (auto& n : names[t]) for (auto& s : x) if (name(s.first) == n) sel.insert(s.first);
				SIM_CHECK(sel.size() == names[t].size(), "wrong-set", "a cover names sets that do not exist or twice, for " << show(x));
			} else if (k == 7) {
				for (std::size_t i : res[t]) for (auto& s : x) if (i < ty->set_cover().set_count() && name(s.first) == ty->get_set(i)) sel.insert(s.first);
			} else for (std::size_t i : res[t]) sel.insert(i);
			std::string shown;
			for (auto s : sel) { shown += std::to_string(s) + " "; SIM_CHECK(x.count(s), "wrong-set", "set " << s << " of the cover is none of " << show(x)); }
			observe(mix(sel.size(), k));
			Sets rest = x;
			for (auto& s : rest) for (auto c : sel) if (x.count(c)) for (auto e : x[c]) s.second.erase(e);
			if (k == 3 || k == 4) {
				// what is left is at most bound sets, and it is left in the system
				std::size_t n = 0;
				for (auto& s : rest) if (!s.second.empty()) ++n;
				SIM_CHECK(n <= bound && sc->active_set_count() == n, "too-many-left", n << " sets of " << show(x) << " are left after selecting " << shown << "for a bound of " << bound);
				for (auto& s : rest) for (auto e : x[s.first]) SIM_CHECK((s.first < sc->set_count() && sc->get_set(s.first).test(e)) == (s.second.count(e) > 0), "wrong-rest", "element " << e << " of set " << s.first << " of " << show(x) << " after selecting " << shown);
				reach("bounded");
			} else if (k == 6) {
				std::set<std::size_t> need;
				for (auto e : united(x)) { std::size_t n = 0, last = 0; for (auto& s : x) if (s.second.count(e)) { ++n; last = s.first; } if (n == 1) need.insert(last); }
				SIM_CHECK(need == sel, "not-essential", "the essential sets of " << show(x) << " are said to be " << shown);
				reach("essential");
			} else {
				SIM_CHECK(covers(x, sel), "no-cover", "heuristic " << k << " selects " << shown << "of " << show(x));
				if (k <= 1) { std::size_t m = minimum(x); SIM_CHECK(sel.size() == m, "not-minimal", "exact cover " << shown << "of " << show(x) << " while " << m << " sets suffice"); if (m > 2) reach("exact"); }
			}
			state(mix(k, sel.size() * 31 + x.size()));
		}
		res[t] = carl::Bitset();
		names[t].clear();
		if (fresh && k < 7) {
			// a new system for everyone, built without failures
			auto n = std::make_shared<cv::SetCover>();
			fill(*n, x, [](std::size_t i) { return i; }, bits);
			std::lock_guard<std::mutex> l(mx);
			std::size_t i = r.below(shared.size());
			shared[i].sc = n;
			Quiet q;
			shared[i].x = x;
		}
	}
};
}
namespace sim { Harness* make_harness() { return new H; } }

// Monomials: hash-consing, exact products/quotients, no dangling or duplicated pool entries.
#include "common.h"
#include <carl/core/Monomial.h>
#include <carl/core/MonomialPool.h>
#include <carl/core/polynomialfunctions/GCD_Monomial.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/VariablePool.h>
#include <map>
#include <mutex>

using namespace sim;
using carl::Monomial;
using carl::Variable;
using Arg = Monomial::Arg;

namespace sim { const char* const harness_name = "monomial"; }

namespace {
using Model = std::map<std::size_t, std::size_t>; // variable number -> exponent

struct Slot {
	Arg m;
	Model x;
};

int cmp_grlex(const Model& a, const Model& b, std::size_t nv) {
	std::size_t da = 0, db = 0;
	for (auto& p : a) da += p.second;
	for (auto& p : b) db += p.second;
	if (da != db) return da < db ? -1 : 1;
	for (std::size_t v = 0; v < nv; ++v) {
		auto ia = a.find(v), ib = b.find(v);
		std::size_t ea = ia == a.end() ? 0 : ia->second, eb = ib == b.end() ? 0 : ib->second;
		if (ea != eb) return ea > eb ? -1 : 1;
	}
	return 0;
}

struct H : Harness {
	std::size_t nvars = 3, nslots = 6, maxe = 3;
	std::vector<Variable> vars;
	std::vector<Slot> slots[MAXT];
	std::vector<Slot> shared;
	std::mutex shared_mutex;
	std::size_t baseline = 0, base_ids = 0;
	bool bulk = false;

	void configure(Rng& r, Config& c, bool faults) override {
		nvars = r.range(2, 5);
		maxe = r.range(1, 4);
		nslots = r.range(3, 8);
		c.ntasks = r.chance(0.25) ? 1 : (int)r.range(2, 4);
		bulk = r.chance(0.02);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(4, c.ntasks == 1 ? 60 : 30);
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.01, 0.05});
			c.rate[F_STALL] = 0.01;
		}
	}
	void setup(Rng&) override {
		for (std::size_t i = 0; i < nvars; ++i) {
			Variable v = carl::freshRealVariable();
			Quiet q;
			vars.push_back(v);
		}
		baseline = carl::MonomialPool::getInstance().size();
		Quiet q;
		for (auto& s : slots) s.resize(nslots);
		shared.resize(3);
	}
	std::size_t vnum(Variable v) {
		for (std::size_t i = 0; i < vars.size(); ++i) if (vars[i] == v) return i;
		return 999;
	}
	std::string show(const Model& x) {
		std::ostringstream os;
		for (auto& p : x) os << "v" << p.first << "^" << p.second << " ";
		return os.str().empty() ? "1" : os.str();
	}
	std::string show(const Arg& m) {
		if (!m) return "1";
		std::ostringstream os;
		for (auto& p : m->exponents()) os << "v" << vnum(p.first) << "^" << p.second << " ";
		return os.str();
	}
	void check(const Arg& m, const Model& x, const char* what) {
		Quiet q;
		SIM_CHECK((m == nullptr) == x.empty(), "wrong-result", what << ": got " << show(m) << ", expected " << show(x));
		if (!m) return;
		std::size_t td = 0;
		SIM_CHECK(m->exponents().size() == x.size(), "wrong-result", what << ": got " << show(m) << ", expected " << show(x));
		auto it = x.begin();
		for (auto& p : m->exponents()) {
			SIM_CHECK(vnum(p.first) == it->first && p.second == it->second, "wrong-result", what << ": got " << show(m) << ", expected " << show(x));
			td += p.second;
			++it;
		}
		SIM_CHECK(m->tdeg() == td, "wrong-result", what << ": total degree " << m->tdeg() << " of " << show(m));
		SIM_CHECK(m->id() != 0, "identity", what << ": monomial without id: " << show(m));
		SIM_CHECK(m->hash() == Monomial::hashContent(m->exponents()), "identity", what << ": stale hash");
		SIM_CHECK(m->nrVariables() == x.size() && m->isConstant() == false && m->isLinear() == (td == 1) && m->isAtMostLinear() == (td <= 1), "wrong-result", what << ": classification of " << show(m));
		bool sq = true;
		for (auto& p : x) sq = sq && p.second % 2 == 0;
		SIM_CHECK(m->isSquare() == sq, "wrong-result", what << ": isSquare of " << show(m));
		for (std::size_t v = 0; v < nvars; ++v) {
			auto f = x.find(v);
			SIM_CHECK(m->exponentOfVariable(vars[v]) == (f == x.end() ? 0 : f->second) && m->has(vars[v]) == (f != x.end()), "wrong-result", what << ": exponent lookup in " << show(m));
		}
	}
	/// Every pair of monomials held anywhere: one object and one id per content.
	void check_all(int t) {
		Quiet q;
		std::vector<const Slot*> all;
		for (int k = 1; k <= 5; ++k) for (auto& s : slots[k]) if (s.m) all.push_back(&s);
		for (auto& s : shared) if (s.m) all.push_back(&s);
		std::uint64_t h = all.size();
		for (std::size_t i = 0; i < all.size(); ++i) {
			check(all[i]->m, all[i]->x, "held monomial");
			for (auto& p : all[i]->x) h = mix(h, p.first * 64 + p.second);
			for (std::size_t j = 0; j < i; ++j) {
				const Slot &a = *all[i], &b = *all[j];
				bool eq = a.x == b.x;
				SIM_CHECK((a.m.get() == b.m.get()) == eq, "identity", "two objects for " << show(a.m) << " / " << show(b.m));
				SIM_CHECK((a.m->id() == b.m->id()) == eq, "identity", "id " << a.m->id() << " shared by " << show(a.m) << " and " << show(b.m));
				SIM_CHECK((a.m == b.m) == eq, "identity", "operator== on " << show(a.m) << " and " << show(b.m));
			}
		}
		state(h);
		(void)t;
	}
	Model rand_model(Rng& r, std::size_t minv = 1) {
		Model x;
		std::size_t n = r.range((int)minv, (int)nvars);
		while (x.size() < n) x[r.below(nvars)] = 1 + r.below(maxe);
		return x;
	}
	void put(int t, std::size_t i, Arg&& m, Model x) {
		Arg old;
		{
			Quiet q;
			old.swap(slots[t][i].m);
			slots[t][i].m.swap(m);
			slots[t][i].x = std::move(x);
		}
	}
	void op(int t, int, Rng& r) override {
		std::vector<Slot>& S = slots[t];
		std::size_t a = r.below(nslots), b = r.below(nslots), d = r.below(nslots);
		int k = (int)r.below(bulk ? 20 : 19);
		Arg res;
		Model want;
		bool store = true;
		const char* what = "";
		bool failed = false;
		Model xa, xb;
		Arg ma, mb;
		std::vector<std::pair<Variable, std::size_t>> content;
		std::size_t v = r.below(nvars), e = 1 + r.below(maxe);
		{
			Quiet q;
			xa = S[a].x;
			xb = S[b].x;
			want = rand_model(r);
			for (auto& p : want) content.emplace_back(vars[p.first], p.second);
		}
		ma = S[a].m;
		mb = S[b].m;
		std::vector<std::pair<Variable, std::size_t>> arg(content);
		bool unsorted = r.chance(0.5);
		try {
			Faulty f;
			switch (k) {
			case 0: {
				what = "create(variable, exponent)";
				{ Quiet q; want.clear(); want[v] = e; }
				res = carl::MonomialPool::getInstance().create(vars[v], e);
				break;
			}
			case 1: {
				what = "create(sorted list)";
				res = carl::createMonomial(std::move(arg));
				break;
			}
			case 2: {
				what = "create(sorted list, degree)";
				std::size_t td = 0;
				for (auto& p : arg) td += p.second;
				res = carl::createMonomial(std::move(arg), td);
				break;
			}
			case 3: {
				what = "create(initializer list)";
				if (arg.size() < 2) { res = carl::createMonomial(std::initializer_list<std::pair<Variable, carl::exponent>>{arg[0]}); break; }
				if (unsorted) std::swap(arg[0], arg[1]);
				{
					Quiet q;
					while (want.size() > 2) want.erase(std::prev(want.end()));
				}
				res = carl::createMonomial(std::initializer_list<std::pair<Variable, carl::exponent>>{arg[0], arg[1]});
				break;
			}
			case 4: case 5: {
				what = "product";
				{
					Quiet q;
					want = xa;
					for (auto& p : xb) want[p.first] += p.second;
				}
				res = ma * mb;
				break;
			}
			case 6: {
				what = "product with variable";
				{ Quiet q; want = xa; want[v] += 1; }
				res = r.chance(0.5) ? ma * vars[v] : vars[v] * ma;
				break;
			}
			case 7: {
				what = "lcm";
				{
					Quiet q;
					want = xa;
					for (auto& p : xb) want[p.first] = std::max(want[p.first], p.second);
				}
				res = Monomial::lcm(ma, mb);
				break;
			}
			case 8: {
				what = "division";
				bool ok = true;
				{
					Quiet q;
					want = xa;
					for (auto& p : xb) {
						if (want[p.first] < p.second) ok = false;
						else want[p.first] -= p.second;
					}
					for (auto it = want.begin(); it != want.end();) it = it->second == 0 ? want.erase(it) : std::next(it);
				}
				if (!ma) { store = false; break; }
				bool dv = ma->divisible(mb);
				res = mb;
				bool got = ma->divide(mb, res);
				SIM_CHECK(got == ok && dv == ok, "wrong-result", "divisibility of " << show(xa) << " by " << show(xb) << ": " << got << dv);
				if (!ok) store = false;
				break;
			}
			case 9: {
				what = "lcm quotient";
				{
					Quiet q;
					want.clear();
					for (auto& p : xa) {
						auto it = xb.find(p.first);
						std::size_t o = it == xb.end() ? 0 : it->second;
						if (p.second > o) want[p.first] = p.second - o;
					}
				}
				if (!ma && !mb) { store = false; break; }
				res = Monomial::calcLcmAndDivideBy(ma, mb);
				break;
			}
			case 10: {
				what = "dropVariable";
				if (!ma) { store = false; break; }
				{ Quiet q; want = xa; want.erase(v); }
				res = ma->dropVariable(vars[v]);
				break;
			}
			case 11: {
				what = "divide by variable";
				if (!ma) { store = false; break; }
				bool ok = false;
				{
					Quiet q;
					want = xa;
					auto it = want.find(v);
					if (it != want.end()) {
						ok = true;
						if (--it->second == 0) want.erase(it);
					}
				}
				bool got = ma->divide(vars[v], res);
				SIM_CHECK(got == ok, "wrong-result", "division of " << show(xa) << " by variable v" << v);
				if (!ok) store = false;
				break;
			}
			case 12: {
				what = "sqrt";
				if (!ma) { store = false; break; }
				bool ok = true;
				{
					Quiet q;
					want = xa;
					for (auto& p : want) { if (p.second % 2) ok = false; p.second /= 2; }
					if (!ok) want.clear();
				}
				res = ma->sqrt();
				break;
			}
			case 13: { // drop
				what = "drop";
				{ Quiet q; want.clear(); }
				break;
			}
			case 14: { // hand over to other threads
				std::size_t i = r.below(3);
				std::lock_guard<std::mutex> l(shared_mutex);
				Arg old = ma;
				{
					Quiet q;
					old.swap(shared[i].m);
					shared[i].x = xa;
				}
				store = false;
				break;
			}
			case 15: {
				std::size_t i = r.below(3);
				std::lock_guard<std::mutex> l(shared_mutex);
				what = "take";
				res = shared[i].m;
				{ Quiet q; want = shared[i].x; }
				break;
			}
			case 16: {
				what = "gcd";
				if (!ma || !mb) { store = false; break; }
				{
					Quiet q;
					want.clear();
					for (auto& p : xa) if (xb.count(p.first)) want[p.first] = std::min(p.second, xb[p.first]);
				}
				res = carl::gcd(ma, mb);
				break;
			}
			case 17: {
				what = "product of variables";
				{ Quiet q; want.clear(); want[v] += 1; want[e % nvars] += 1; }
				res = vars[v] * vars[e % nvars];
				break;
			}
			case 18: {
				what = "power";
				std::size_t n = e % 4;
				{ Quiet q; want = xa; if (n == 0) want.clear(); for (auto& p : want) p.second *= n; }
				res = carl::pow(ma, (unsigned)n);
				break;
			}
			case 19: { // many monomials at once, so that the table grows
				std::vector<Arg> many;
				for (std::size_t i = 0; i < 700; ++i) many.push_back(carl::MonomialPool::getInstance().create(vars[v], 100 + i + 1000 * std::size_t(t)));
				for (std::size_t i = 0; i < 700; ++i) {
					Arg again = carl::MonomialPool::getInstance().create(vars[v], 100 + i + 1000 * std::size_t(t));
					SIM_CHECK(again.get() == many[i].get(), "identity", "lookup after growth created a second object");
				}
				reach("pool-grown");
				store = false;
				break;
			}
			}
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "exception", "bad_alloc without allocation failure in " << what);
			reach("alloc-failure-survived");
			failed = true;
		}
		SIM_LOG("t" << t << " " << what << " a=" << show(xa) << " b=" << show(xb) << " -> " << (failed ? "bad_alloc" : store ? show(res) : "-"));
		if (!failed && store) {
			check(res, want, what);
			if (res) { Quiet q; observe(res->id()); }
			put(t, d, std::move(res), want);
		}
		if (ma && mb) {
			int want_cmp = cmp_grlex(xa, xb, nvars);
			bool lt = ma < mb, gt = mb < ma;
			auto g = Monomial::compareGradedLexical(ma, mb);
			SIM_CHECK(lt == (want_cmp < 0) && gt == (want_cmp > 0), "ordering", "order of " << show(xa) << " and " << show(xb));
			SIM_CHECK((g == carl::CompareResult::LESS) == (want_cmp < 0) && (g == carl::CompareResult::GREATER) == (want_cmp > 0), "ordering", "graded order of " << show(xa) << " and " << show(xb));
		}
		if (ma) {
			// a variable compares like its monomial
			Model xv;
			{ Quiet q; xv[v] = 1; }
			Variable x = vars[v];
			int c = cmp_grlex(xa, xv, nvars);
			auto g = Monomial::compareGradedLexical(ma, x);
			SIM_CHECK((ma == x) == (c == 0) && (x == ma) == (c == 0) && (ma != x) == (c != 0) && (x != ma) == (c != 0), "ordering", "equality of " << show(xa) << " and v" << v);
			SIM_CHECK((ma < x) == (c < 0) && (ma <= x) == (c <= 0) && (ma > x) == (c > 0) && (ma >= x) == (c >= 0), "ordering", "order of " << show(xa) << " and v" << v);
			SIM_CHECK((x > ma) == (c < 0) && (x >= ma) == (c <= 0) && (x < ma) == (c > 0) && (x <= ma) == (c >= 0), "ordering", "order of v" << v << " and " << show(xa));
			SIM_CHECK((g == carl::CompareResult::LESS) == (c < 0) && (g == carl::CompareResult::GREATER) == (c > 0), "ordering", "graded order of " << show(xa) << " and v" << v);
			SIM_CHECK(ma->hasNoOtherVariable(x) == (xa.size() == 1 && xa.count(v)), "wrong-result", "other variables than v" << v << " in " << show(xa));
			Quiet q;
			xv.clear();
		}
		check_all(t);
	}
	void finish() override {
		check_all(0);
		for (auto& v : slots) for (auto& s : v) s.m.reset();
		for (auto& s : shared) s.m.reset();
		std::size_t n = carl::MonomialPool::getInstance().size();
		SIM_CHECK(n == baseline, "leak", "pool holds " << n << " monomials after all were released, started with " << baseline);
		// the pool must still work
		for (std::size_t i = 0; i < nvars; ++i) {
			Arg m = carl::MonomialPool::getInstance().create(vars[i], std::size_t(2));
			Quiet q;
			check(m, Model{{i, 2}}, "create after everything was released");
		}
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

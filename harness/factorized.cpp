// Factorised polynomials: clients compute with polynomials whose factors live in one shared, bounded cache.
// build-flags: -DNDEBUG -include @VERIF@/harness/cocoa_stub.h
#include "poly_model.h"
#include <carl/core/UnivariatePolynomial.h>
#include <carl-extpolys/FactorizedPolynomial.h>
#include <carl-extpolys/evaluation.h>
#include <carl-extpolys/substitution.h>
#include <mutex>

using namespace sim;
namespace sim { const char* const harness_name = "factorized"; }

namespace {
using Pair = carl::PolynomialFactorizationPair<Poly>;
using Cache = carl::Cache<Pair>;
using FP = carl::FactorizedPolynomial<Poly>;

struct H : Harness {
	struct Val {
		FP p;
		PM x;
	};
	PolyVars pv;
	std::size_t nv = 2, nslots = 3;
	std::shared_ptr<Cache> cache;
	std::vector<Val> slots[MAXT];
	std::vector<Val> shared;
	std::vector<PM> base; // polynomials that are used again and again
	std::mutex shared_mutex;

	void configure(Rng& r, Config& c, bool) override {
		c.ntasks = (int)r.range(1, 3);
		c.preempt = false;
		c.track_races = false;
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(5, 30);
		c.step_cap = 80000000;
		nslots = (std::size_t)r.range(2, 4);
	}
	Poly build(const PM& x) const {
		Poly p;
		for (auto& t : x) {
			Poly m(t.second);
			for (std::size_t i = 0; i < PM_VARS; ++i) for (unsigned k = 0; k < t.first[i]; ++k) m *= Poly(pv.vars[i]);
			p += m;
		}
		return p;
	}
	FP make(const PM& x) const { return FP(build(x), cache); }
	void setup(Rng& r) override {
		nv = (std::size_t)r.range(1, 3);
		static const char* names[] = {"a", "b", "c"};
		for (std::size_t i = 0; i < nv; ++i) pv.vars.push_back(carl::freshRealVariable(names[i]));
		std::sort(pv.vars.begin(), pv.vars.end());
		std::size_t cap = r.chance(0.3) ? 10000 : r.range(1, 12);
		cache = std::make_shared<Cache>(cap, r.chance(0.5) ? 0.2 : 0.01 * r.range(1, 99), r.chance(0.5) ? 0.98 : 0.9);
		int nb = (int)r.range(2, 4);
		for (int i = 0; i < nb; ++i) {
			Quiet q;
			PM x = pm_random(r, nv, r.chance(0.7) ? 1 : 2, 3);
			if (r.chance(0.15)) x = pm_scale(x, pm_rational(r));
			// no real zeros
			if (r.chance(0.15)) x = pm_var(r.below(nv), 2) + pm_const((long)r.range(1, 3));
			base.push_back(x);
		}
		for (int t = 0; t < MAXT; ++t) slots[t].resize(nslots);
		shared.resize(2);
	}
	void verify(const Val& v, const char* what) const {
		Poly e = carl::computePolynomial(v.p);
		Quiet q;
		pm_check(pv, e, v.x, what);
	}
	/// Expected value x of the result p is stored in v.
	void store(Val& v, FP&& p, PM&& x, const char* what) {
		Val n{std::move(p), std::move(x)};
		verify(n, what);
		v.p = n.p;
		Quiet q;
		v.x = n.x;
		if (v.x.size() > 40 || pm_deg(v.x) > 7) v.x.clear(), big = true;
	}
	bool big = false;
	std::string show(const FP& p) const { std::ostringstream os; os << p; return os.str(); }
	void op(int t, int, Rng& r) override {
		std::vector<Val>& S = slots[t];
		Val& a = S[r.below(nslots)];
		Val& b = S[r.below(nslots)];
		Val& d = S[r.below(nslots)];
		int k = (int)r.below(35);
		PM x;
		switch (k) {
		case 0: case 1: case 2: case 3: {
			{
				Quiet q;
				x = base[r.below(base.size())];
				for (int n = (int)r.below(3); n > 0; --n) {
					const PM& f = base[r.below(base.size())];
					if (f.empty()) continue;
					x = r.chance(0.7) ? x * f : x + f;
				}
				if (r.chance(0.3)) x = pm_scale(x, pm_rational(r));
				SIM_LOG("new " << pm_show(x));
			}
			FP p = make(x);
			store(d, std::move(p), std::move(x), "construction");
			break;
		}
		case 4: case 5: case 6: {
			{ Quiet q; SIM_LOG(pm_show(a.x) << " + " << pm_show(b.x)); x = a.x + b.x; }
			FP p;
			if (r.chance(0.4)) { FP c(a.p); c += b.p; p = c; }
			else p = a.p + b.p;
			store(d, std::move(p), std::move(x), "sum");
			break;
		}
		case 7: case 8: {
			{ Quiet q; SIM_LOG(pm_show(a.x) << " - " << pm_show(b.x)); x = a.x - b.x; }
			FP p;
			if (r.chance(0.4)) { FP c(a.p); c -= b.p; p = c; }
			else p = a.p - b.p;
			store(d, std::move(p), std::move(x), "difference");
			break;
		}
		case 9: case 10: case 11: case 12: {
			{ Quiet q; if (pm_deg(a.x) + pm_deg(b.x) > 7) return; SIM_LOG(pm_show(a.x) << " * " << pm_show(b.x)); x = a.x * b.x; }
			FP p;
			if (r.chance(0.4)) { FP c(a.p); c *= b.p; p = c; }
			else p = a.p * b.p;
			store(d, std::move(p), std::move(x), "product");
			break;
		}
		case 13: {
			Q c = pm_rational(r, true);
			int w = (int)r.below(4);
			{ Quiet q; if (w == 3 && c == 0) c = 2; SIM_LOG(pm_show(a.x) << " op" << w << " " << c); }
			FP p(a.p);
			bool in = r.chance(0.5);
			switch (w) {
			case 0: if (in) p += c; else p = r.chance(0.5) ? a.p + c : c + a.p; { Quiet q; x = a.x + pm_const(c); } break;
			case 1:
				if (!in && r.chance(0.5)) { p = c - a.p; Quiet q; x = pm_const(c) - a.x; break; }
				if (in) p -= c; else p = a.p - c;
				{ Quiet q; x = a.x - pm_const(c); }
				break;
			case 2: if (in) p *= c; else p = r.chance(0.5) ? a.p * c : c * a.p; { Quiet q; x = pm_scale(a.x, c); } break;
			default: if (in) p /= c; else p = a.p / c; { Quiet q; x = pm_scale(a.x, 1 / c); }
			}
			store(d, std::move(p), std::move(x), "combination with a number");
			break;
		}
		case 14: {
			{ Quiet q; x = pm_scale(a.x, -1); }
			FP p = -a.p;
			store(d, std::move(p), std::move(x), "negation");
			break;
		}
		case 15: {
			unsigned n = (unsigned)r.below(4);
			{ Quiet q; if (pm_deg(a.x) * n > 7) return; SIM_LOG(pm_show(a.x) << " ^ " << n); x = pm_pow(a.x, n); }
			FP p = a.p.pow(n);
			store(d, std::move(p), std::move(x), "power");
			break;
		}
		case 16: case 17: case 18: {
			// divide a known product by one of its factors, as product or expanded
			{ Quiet q; if (b.x.empty() || pm_deg(a.x) + pm_deg(b.x) > 7) return; SIM_LOG(pm_show(a.x) << " * it / " << pm_show(b.x)); x = a.x; }
			FP prod;
			if (r.chance(0.6)) prod = a.p * b.p;
			else {
				PM y;
				{ Quiet q; y = a.x * b.x; }
				prod = make(y);
			}
			FP p;
			if (r.chance(0.5)) p = prod.quotient(b.p);
			else p = carl::quotient(prod, b.p);
			store(d, std::move(p), std::move(x), "quotient");
			break;
		}
		case 19: {
			{ Quiet q; if (b.x.empty() || pm_deg(a.x) + pm_deg(b.x) > 8) return; SIM_LOG("reduce " << pm_show(a.x) << " / " << pm_show(b.x)); }
			auto p = carl::lazyDiv(a.p, b.p);
			Poly n = carl::computePolynomial(p.first), m = carl::computePolynomial(p.second);
			Quiet q;
			PM pn = pm_read(pv, n, "numerator"), pm = pm_read(pv, m, "denominator");
			SIM_CHECK(pn * b.x == pm * a.x && !pm.empty(), "wrong-result", pm_show(a.x) << " / " << pm_show(b.x) << " became " << pm_show(pn) << " / " << pm_show(pm));
			break;
		}
		case 20: {
			{ Quiet q; if (a.x.empty() || b.x.empty() || pm_deg(a.x) + pm_deg(b.x) > 8) return; SIM_LOG("common divisor and multiple of " << pm_show(a.x) << " and " << pm_show(b.x)); }
			bool greatest = r.chance(0.6);
			FP cd, cm;
			if (greatest) { cd = carl::gcd(a.p, b.p); cm = carl::lcm(a.p, b.p); reach("greatest common divisor"); }
			else { cd = carl::commonDivisor(a.p, b.p); cm = carl::commonMultiple(a.p, b.p); }
			Poly n = carl::computePolynomial(cd), m = carl::computePolynomial(cm);
			Quiet q;
			PM g = pm_read(pv, n, "common divisor"), l = pm_read(pv, m, "common multiple");
			PM quo, rem;
			SIM_CHECK(!g.empty() && !l.empty(), "wrong-result", "common divisor or multiple is zero");
			pm_divmod(a.x, g, quo, rem);
			SIM_CHECK(rem.empty(), "wrong-result", pm_show(g) << " does not divide " << pm_show(a.x));
			pm_divmod(b.x, g, quo, rem);
			SIM_CHECK(rem.empty(), "wrong-result", pm_show(g) << " does not divide " << pm_show(b.x));
			pm_divmod(l, a.x, quo, rem);
			SIM_CHECK(rem.empty(), "wrong-result", pm_show(l) << " is not a multiple of " << pm_show(a.x));
			pm_divmod(l, b.x, quo, rem);
			SIM_CHECK(rem.empty(), "wrong-result", pm_show(l) << " is not a multiple of " << pm_show(b.x));
			if (greatest) {
				// the least common multiple is the product by the greatest common divisor, up to a number
				PM x = a.x * b.x, y = g * l;
				SIM_CHECK(pm_deg(x) == pm_deg(y) && x == pm_scale(y, x.begin()->second / y.begin()->second), "wrong-result", "greatest common divisor of " << pm_show(a.x) << " and " << pm_show(b.x) << " is " << pm_show(g) << ", least common multiple " << pm_show(l));
			}
			break;
		}
		case 21: case 22: {
			{ Quiet q; SIM_LOG("compare " << pm_show(a.x) << " and " << pm_show(b.x)); }
			bool eq = a.p == b.p, ne = a.p != b.p, lt = a.p < b.p, gt = b.p < a.p, le = a.p <= b.p;
			Quiet q;
			bool e = a.x == b.x;
			if (e && &a != &b) reach("equal polynomials compared");
			SIM_CHECK(eq == e && ne == !e, "wrong-comparison", pm_show(a.x) << " and " << pm_show(b.x) << ": == is " << eq << ", != is " << ne);
			SIM_CHECK(lt + gt + e == 1 && le == !gt, "wrong-comparison", pm_show(a.x) << " and " << pm_show(b.x) << ": < is " << lt << ", > is " << gt);
			break;
		}
		case 23: {
			{ Quiet q; SIM_LOG("look at " << pm_show(a.x)); }
			bool con = a.p.isConstant(), one = a.p.isOne(), zero = a.p.isZero();
			Q c = a.p.constantPart();
			bool uni = a.p.isUnivariate(), hc = a.p.hasConstantTerm();
			bool has[3];
			for (std::size_t i = 0; i < nv; ++i) has[i] = a.p.has(pv.vars[i]);
			std::size_t deg = zero ? 0 : a.p.totalDegree();
			Q lc = a.p.lcoeff();
			Quiet q;
			SIM_CHECK(con == (pm_deg(a.x) == 0) && zero == a.x.empty() && one == (a.x == pm_const(1)), "wrong-observer", pm_show(a.x) << " is constant " << con << " zero " << zero << " one " << one);
			auto it = a.x.find(Exps{});
			Q k = it == a.x.end() ? Q(0) : it->second;
			SIM_CHECK(c == k && hc == (k != 0), "wrong-observer", "constant part of " << pm_show(a.x) << " is " << c);
			SIM_CHECK(deg == pm_deg(a.x), "wrong-observer", "degree of " << pm_show(a.x) << " is " << deg);
			std::size_t n = 0;
			for (std::size_t i = 0; i < nv; ++i) {
				bool h = pm_deg(a.x, i) > 0;
				n += h;
				SIM_CHECK(has[i] == h, "wrong-observer", pm_show(a.x) << (has[i] ? " has" : " does not have") << " v" << i);
			}
			SIM_CHECK(uni == (n <= 1), "wrong-observer", pm_show(a.x) << (uni ? " is" : " is not") << " univariate");
			if (!zero) {
				Exps l = pm_lead(a.x);
				SIM_CHECK(lc == a.x.at(l), "wrong-observer", "leading coefficient of " << pm_show(a.x) << " is " << lc);
			}
			break;
		}
		case 24: {
			std::size_t v = r.below(nv);
			{ Quiet q; SIM_LOG("derivative of " << pm_show(a.x) << " by v" << v); x = pm_derivative(a.x, v, 1); }
			FP p = a.p.derivative(pv.vars[v]);
			store(d, std::move(p), std::move(x), "derivative");
			break;
		}
		case 25: {
			std::map<carl::Variable, Q> m;
			std::vector<Q> pt(PM_VARS);
			for (std::size_t i = 0; i < nv; ++i) { pt[i] = pm_rational(r, true); m.emplace(pv.vars[i], pt[i]); }
			{ Quiet q; SIM_LOG("evaluate " << pm_show(a.x)); }
			Q got = carl::evaluate(a.p, m);
			Quiet q;
			Q e = pm_eval(a.x, pt);
			SIM_CHECK(got == e, "wrong-result", pm_show(a.x) << " evaluates to " << got << ", expected " << e);
			break;
		}
		case 26: {
			std::size_t v = r.below(nv);
			Q c = pm_rational(r, true);
			{ Quiet q; SIM_LOG("substitute " << c << " for v" << v << " in " << pm_show(a.x)); x = pm_subst(a.x, {{v, pm_const(c)}}); }
			FP p = carl::substitute(a.p, std::map<carl::Variable, Q>{{pv.vars[v], c}});
			store(d, std::move(p), std::move(x), "substitution");
			break;
		}
		case 27: {
			// a factor, read from the factorisation of the value that is replaced by it
			if (!existsFactorization(a.p)) return;
			bool self = r.chance(0.7);
			Val& g = self ? a : d;
			std::size_t n = r.below(a.p.factorization().size());
			auto it = a.p.factorization().begin();
			while (n-- > 0) ++it;
			Poly e = carl::computePolynomial(it->first);
			{ Quiet q; x = pm_read(pv, e, "factor"); SIM_LOG("factor " << pm_show(x) << " of " << pm_show(a.x)); }
			g.p = it->first;
			Quiet q;
			g.x = x;
			break;
		}
		case 31: {
			// the root of a square, which also refines the stored factorisation
			{ Quiet q; if (pm_deg(a.x) > 3) return; SIM_LOG("root of the square of " << pm_show(a.x)); x = a.x; }
			FP sq;
			if (r.chance(0.4)) sq = a.p * a.p;
			else {
				PM y;
				{ Quiet q; y = a.x * a.x; }
				sq = make(y);
			}
			FP p;
			bool ok = sq.sqrt(p);
			Poly e = carl::computePolynomial(p), e2 = carl::computePolynomial(sq);
			Quiet q;
			pm_check(pv, e2, x * x, "square");
			if (!ok) break; // not finding a root is allowed
			reach("root found");
			PM y = pm_read(pv, e, "root");
			SIM_CHECK(y * y == x * x, "wrong-result", "root of the square of " << pm_show(x) << " is " << pm_show(y));
			break;
		}
		case 32: {
			FP p;
			{ Quiet q; SIM_LOG("root of " << pm_show(a.x)); }
			bool ok = a.p.sqrt(p);
			Poly e = carl::computePolynomial(p);
			Quiet q;
			if (!ok) break;
			PM y = pm_read(pv, e, "root");
			SIM_CHECK(y * y == a.x, "wrong-result", "root of " << pm_show(a.x) << " is " << pm_show(y));
			break;
		}
		case 33: {
			if (a.x.empty()) return;
			Q f = a.p.coprimeFactor();
			Poly e = carl::computePolynomial(a.p);
			Q ef = e.coprimeFactor();
			Quiet q;
			SIM_CHECK(f == ef || f == -ef, "wrong-observer", "coprime factor of " << pm_show(a.x) << " is " << f << ", expanded " << ef);
			break;
		}
		case 28: {
			Poly p = Poly(a.p), w = a.p.polynomialWithCoefficient();
			Quiet q;
			pm_check(pv, p, a.x, "conversion");
			pm_check(pv, w, a.x, "expansion");
			break;
		}
		case 29: {
			std::lock_guard<std::mutex> l(shared_mutex);
			Val& s = shared[r.below(shared.size())];
			if (r.chance(0.5)) { s.p = a.p; Quiet q; s.x = a.x; }
			else { a.p = s.p; Quiet q; a.x = s.x; }
			break;
		}
		case 30: {
			if (r.chance(0.5)) { b.p = a.p; Quiet q; b.x = a.x; }
			else {
				FP c(std::move(a.p));
				a.p = FP();
				b.p = c;
				Quiet q;
				PM y = a.x;
				a.x.clear();
				b.x = y;
			}
			break;
		}
		default: {
			a.p = FP();
			Quiet q;
			a.x.clear();
		}
		}
		if (big) {
			big = false;
			for (auto& s : S) if (s.x.empty()) s.p = FP();
		}
		verify(a, "operand");
		verify(b, "operand");
		Quiet q;
		std::uint64_t h = 0;
		for (auto& s : S) h = mix(h, pm_hash(s.x));
		state(h);
		observe(h);
	}
	void task_end(int t) override {
		for (auto& s : slots[t]) verify(s, "polynomial at the end");
	}
	void finish() override {
		for (auto& s : shared) verify(s, "shared polynomial at the end");
		for (int t = 0; t < MAXT; ++t) for (auto& s : slots[t]) { verify(s, "polynomial at the end"); s.p = FP(); }
		for (auto& s : shared) s.p = FP();
		cache.reset();
	}
};
}
namespace sim { Harness* make_harness() { return new H; } }

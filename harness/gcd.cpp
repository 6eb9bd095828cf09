// Common divisors: clients compute greatest common divisors, least common multiples, contents and primitive parts of
// polynomials in several variables, on polynomials they share.
// build-flags: -DNDEBUG -include @VERIF@/harness/cocoa_stub.h
#include "poly_model.h"
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/polynomialfunctions/Content.h>
#include <carl/core/polynomialfunctions/GCD.h>
#include <carl/core/polynomialfunctions/GCD_Term.h>
#include <carl/core/polynomialfunctions/LCM.h>
#include <carl/core/polynomialfunctions/PrimitivePart.h>
#include <carl/core/polynomialfunctions/to_univariate_polynomial.h>
#include <algorithm>
#include <mutex>

using namespace sim;
namespace sim { const char* const harness_name = "gcd"; }

namespace {
using sim::operator+;
using sim::operator-;
using sim::operator*;
using UP = carl::UnivariatePolynomial<Poly>;

struct H : Harness {
	PolyVars pv;
	std::size_t nv = 2;
	/// Polynomials the clients share, and factors they are made of.
	struct Val { std::shared_ptr<const Poly> p; PM x; };
	std::vector<Val> shared;
	std::vector<PM> base;
	std::mutex mx;
	/// The result of an operation; released outside of the injection of failures.
	Poly res[MAXT], res2[MAXT];

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 3);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(1, r.chance(0.1) ? 16 : 6);
		c.step_cap = 80000000;
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.0, 0.0005, 0.005});
			c.max_faults = (int)r.range(1, 6);
		}
	}
	Poly build(const PM& x) const {
		Poly p;
		for (auto& t : x) {
			Poly m(t.second);
			for (std::size_t i = 0; i < PM_VARS; ++i) for (unsigned k = 0; k < t.first[i]; ++k) m *= Poly(pv.vars[i]);
			p += m;
		}
		return p;
	}
	void setup(Rng& r) override {
		nv = (std::size_t)r.range(1, 4);
		for (std::size_t i = 0; i < nv; ++i) pv.vars.push_back(carl::freshRealVariable("x" + std::to_string(i)));
		std::sort(pv.vars.begin(), pv.vars.end());
		{
			Quiet q;
			int n = (int)r.range(2, 5);
			while ((int)base.size() < n) {
				PM x = pm_random(r, nv, r.chance(0.6) ? 1 : 2, 3);
				if (x.empty()) continue;
				if (r.chance(0.15)) x = pm_scale(x, pm_rational(r));
				base.push_back(x);
			}
		}
		shared.resize(2);
		for (auto& s : shared) { { Quiet q; s.x = base[0]; } s.p = std::make_shared<const Poly>(build(s.x)); }
		// first uses of the pools
		Poly a = Poly(pv.vars[0]) * Poly(pv.vars[0]) - Poly(Q(1)), b = Poly(pv.vars[0]) + Poly(Q(1));
		carl::gcd(a, b);
		carl::lcm(a, b);
	}
	/// Small enough that the remainder sequences of the algorithm stay small.
	bool fits(const PM& x) const { return nv < 3 ? x.size() <= 14 && pm_deg(x) <= 6 : x.size() <= 9 && pm_deg(x) <= 4; }
	PM product(Rng& r, unsigned factors) {
		PM x = pm_const(r.chance(0.6) ? Q(1) : pm_rational(r));
		for (unsigned i = 0; i < factors; ++i) {
			PM y = r.chance(0.8) ? base[r.below(base.size())] : pm_random(r, nv, 1, 2);
			if (y.empty()) continue;
			PM z = x * y;
			if (!fits(z)) continue;
			x = z;
		}
		return x;
	}
	bool divides(const PM& d, const PM& a) {
		PM quo, rem;
		pm_divmod(a, d, quo, rem);
		return rem.empty();
	}
	/// Degree in v of the greatest common divisor of a and b after giving the other variables random values: an upper
	/// bound of the degree of their greatest common divisor unless the leading coefficients vanish.
	unsigned bound(Rng& r, const PM& a, const PM& b, std::size_t v) {
		unsigned best = 1000;
		for (int tries = 0; tries < 4; ++tries) {
			std::vector<Q> pt;
			for (std::size_t i = 0; i < PM_VARS; ++i) pt.push_back(Q((long)r.range(-1000000, 1000000)));
			auto eval = [&](const PM& p) {
				std::vector<Q> c(pm_deg(p, v) + 1);
				for (auto& t : p) {
					Q m = t.second;
					for (std::size_t i = 0; i < PM_VARS; ++i) if (i != v) for (unsigned k = 0; k < t.first[i]; ++k) m *= pt[i];
					c[t.first[v]] += m;
				}
				return c;
			};
			std::vector<Q> x = eval(a), y = eval(b);
			if (x.back() == 0 || y.back() == 0) continue;
			while (!y.empty()) {
				while (x.size() >= y.size()) {
					Q f = x.back() / y.back();
					for (std::size_t i = 0; i < y.size(); ++i) x[x.size() - y.size() + i] -= f * y[i];
					while (!x.empty() && x.back() == 0) x.pop_back();
				}
				x.swap(y);
			}
			best = std::min(best, (unsigned)x.size() - 1);
			if (best == 0) break;
		}
		return best;
	}
	void check_gcd(Rng& r, const PM& a, const PM& b, const PM& known, const PM& g, const char* what) {
		SIM_CHECK(!g.empty(), "wrong-result", what << " of " << pm_show(a) << " and " << pm_show(b) << " is zero");
		SIM_CHECK(divides(g, a) && divides(g, b), "no-divisor", what << " of " << pm_show(a) << " and " << pm_show(b) << " is " << pm_show(g) << ", which does not divide both");
		SIM_CHECK(divides(known, g), "not-greatest", what << " of " << pm_show(a) << " and " << pm_show(b) << " is " << pm_show(g) << ", but " << pm_show(known) << " divides both");
		for (std::size_t v = 0; v < nv; ++v) {
			unsigned d = pm_deg(g, v), u = bound(r, a, b, v);
			SIM_CHECK(u == 1000 || d >= u, "not-greatest", what << " of " << pm_show(a) << " and " << pm_show(b) << " is " << pm_show(g) << ", but there is a common divisor of degree " << u << " in v" << v);
		}
	}
	void op(int t, int, Rng& r) override {
		PM xa, xb, xg;
		int k;
		std::size_t v;
		bool share;
		std::shared_ptr<const Poly> pa, pb;
		{
			Quiet q;
			k = (int)r.below(15);
			v = r.below(nv);
			share = r.chance(0.3);
			xg = product(r, (unsigned)r.below(3));
			xa = xg * product(r, (unsigned)r.below(3));
			if (!fits(xa)) xa = xg;
			xb = xg * product(r, (unsigned)r.below(3));
			if (!fits(xb)) xb = xg;
		}
		std::size_t at = r.below(shared.size());
		if (share) {
			bool both = r.chance(0.2);
			std::lock_guard<std::mutex> lg(mx);
			pa = shared[at].p;
			if (both) pb = shared[(at + 1) % shared.size()].p;
			Quiet q;
			xa = shared[at].x;
			xg = pm_const(1);
			if (both) xb = shared[(at + 1) % shared.size()].x;
			else if (r.chance(0.5)) {
				xg = xa;
				PM z = xa * product(r, 1);
				xb = fits(z) ? z : xa;
			}
		}
		if (!pa) pa = std::make_shared<const Poly>(build(xa));
		if (!pb) pb = std::make_shared<const Poly>(build(xb));
		SIM_LOG("t" << t << " operation " << k << " v" << v << " a=" << pm_show(xa) << " b=" << pm_show(xb));
		bool done = false;
		carl::Term<Q> ta, tb, tr;
		UP ua(pv.vars[v]), ub(pv.vars[v]), ur(pv.vars[v]);
		try {
			Faulty f;
			switch (k) {
			case 0: case 1: case 2: case 3: case 4: case 5: res[t] = carl::gcd(*pa, *pb); break;
			case 6: case 7: case 8: res[t] = carl::lcm(*pa, *pb); break;
			case 9: case 10: ua = carl::to_univariate_polynomial(*pa, pv.vars[v]); ua = ua.normalized(); res[t] = carl::content(ua); ur = carl::primitive_part(ua); res2[t] = Poly(ur); break;
			case 11: case 12:
				ua = carl::to_univariate_polynomial(*pa, pv.vars[v]); ub = carl::to_univariate_polynomial(*pb, pv.vars[v]);
				ua = ua.normalized(); ub = ub.normalized();
				ur = carl::primitive_euclidean(ua, ub);
				res[t] = Poly(ur);
				break;
			case 13: ta = pa->lterm(); tb = pb->lterm(); tr = carl::gcd(ta, tb); res[t] = Poly(tr); break;
			default: ta = pa->lterm(); tb = pb->lterm(); 
				// with one empty monomial the other one is documented to be returned
				tr = ta.monomial() && tb.monomial() ? carl::Term<Q>(Q(1), carl::gcd(ta.monomial(), tb.monomial())) : carl::Term<Q>(Q(1));
				res[t] = Poly(tr);
				break;
			}
			done = true;
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "unexpected-exception", "bad_alloc without a failed allocation");
		}
		if (done) {
			Quiet q;
			PM got = pm_read(pv, res[t], "result");
			observe(pm_hash(got));
			switch (k) {
			case 9: case 10: {
				PM prim = pm_read(pv, res2[t], "primitive part");
				SIM_CHECK(got * prim == xa || got * prim == pm_scale(xa, -1), "wrong-result", "content " << pm_show(got) << " and primitive part " << pm_show(prim) << " of " << pm_show(xa) << " in v" << v);
				SIM_CHECK(pm_deg(got, v) == 0, "wrong-result", "the content of " << pm_show(xa) << " in v" << v << " is " << pm_show(got));
				// the coefficients of the primitive part have no divisor in common
				std::vector<PM> cs(pm_deg(prim, v) + 1);
				for (auto& c : prim) { Exps e = c.first; unsigned d = e[v]; e[v] = 0; pm_add(cs[d], e, c.second); }
				for (std::size_t w = 0; w < nv; ++w) {
					if (w == v) continue;
					unsigned low = 1000;
					PM sum;
					// a divisor of all coefficients divides random combinations of them
					for (int n = 0; n < 2; ++n) {
						PM x, y;
						for (auto& c : cs) { x = x + pm_scale(c, Q((long)r.range(1, 1000000))); y = y + pm_scale(c, Q((long)r.range(1, 1000000))); }
						if (x.empty() || y.empty()) continue;
						low = std::min(low, cs.size() == 1 || x == y ? pm_deg(x, w) : bound(r, x, y, w));
					}
					SIM_CHECK(low == 1000 || low == 0, "not-primitive", "primitive part " << pm_show(prim) << " of " << pm_show(xa) << " in v" << v << " has a content of degree " << low << " in v" << w);
				}
				reach("content");
				break;
			}
			case 6: case 7: case 8: {
				SIM_CHECK(!got.empty() && divides(xa, got) && divides(xb, got), "no-multiple", "the least common multiple of " << pm_show(xa) << " and " << pm_show(xb) << " is " << pm_show(got));
				PM quo, rem;
				pm_divmod(xa * xb, got, quo, rem);
				SIM_CHECK(rem.empty(), "not-least", "the least common multiple of " << pm_show(xa) << " and " << pm_show(xb) << " is " << pm_show(got));
				check_gcd(r, xa, xb, xg, quo, "the product by the least common multiple");
				reach("lcm");
				break;
			}
			case 11: case 12:
				check_gcd(r, xa, xb, xg, got, "the divisor by pseudo division");
				break;
			case 13: case 14: {
				Exps la = pm_lead(xa), lb = pm_lead(xb), e;
				for (std::size_t i = 0; i < PM_VARS; ++i) e[i] = std::min(la[i], lb[i]);
				unsigned total = 0;
				for (auto d : e) total += d;
				SIM_CHECK(tr.tdeg() == total, "wrong-result", "total degree " << tr.tdeg() << " of the common divisor of the leading terms of " << pm_show(xa) << " and " << pm_show(xb));
				SIM_CHECK(got.size() == 1 && got.begin()->first == e, "wrong-result", "the common divisor of the leading terms of " << pm_show(xa) << " and " << pm_show(xb) << " is " << pm_show(got));
				break;
			}
			default: check_gcd(r, xa, xb, xg, got, "the common divisor"); state(mix(pm_hash(got), pm_hash(xa))); reach("gcd"); if (pm_deg(got) > 0) reach("proper"); break;
			}
			if (k < 9) {
				SIM_CHECK(pm_read(pv, *pa, "operand") == xa && pm_read(pv, *pb, "operand") == xb, "operand-changed", "an operand changed");
			}
		}
		{ Poly a, b; std::swap(a, res[t]); std::swap(b, res2[t]); }
		if (!share && r.chance(0.3)) {
			std::lock_guard<std::mutex> lg(mx);
			shared[at].p = pa;
			Quiet q;
			shared[at].x = xa;
		}
	}
	void task_end(int) override {}
	void finish() override {
		std::vector<Val> s;
		std::swap(s, shared);
	}
};
}
namespace sim { Harness* make_harness() { return new H; } }

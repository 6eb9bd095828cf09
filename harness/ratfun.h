// Rational functions over expanded or factorised (RATFUN_FACTORIZED) polynomials; included by the two harnesses.
#pragma once
#include "poly_model.h"
#include <carl/core/UnivariatePolynomial.h>
#include <carl-extpolys/FactorizedPolynomial.h>
#include <carl-extpolys/substitution.h>
#include <carl-extpolys/RationalFunction.h>
#include <algorithm>
#include <mutex>

using namespace sim;

namespace {
using sim::operator+;
using sim::operator-;
using sim::operator*;

#ifdef RATFUN_FACTORIZED
using FCache = carl::Cache<carl::PolynomialFactorizationPair<Poly>>;
using Pol = carl::FactorizedPolynomial<Poly>;
constexpr bool factorized = true;
#else
using Pol = Poly;
constexpr bool factorized = false;
#endif

/// Numerator and denominator.
struct Frac { PM n, d = pm_const(1); };

template<bool AS>
struct Part {
	using RF = carl::RationalFunction<Pol, AS>;
	struct Val { RF f; Frac x; };
	std::vector<Val> slots[MAXT];
	std::vector<Val> shared;
};

struct H : Harness {
	PolyVars pv;
	std::size_t nv = 2, nslots = 3;
	std::vector<PM> base;
	std::mutex mx;
	Part<false> lazy;
	Part<true> eager;

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 3);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(2, r.chance(0.1) ? 24 : 10);
		c.step_cap = 80000000;
		nslots = (std::size_t)r.range(2, 4);
		if (factorized) {
			c.preempt = false;
			c.track_races = false;
			faults = false;
		}
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.0, 0.0005, 0.005});
			c.max_faults = (int)r.range(1, 6);
		}
	}
#ifdef RATFUN_FACTORIZED
	std::shared_ptr<FCache> cache;
	Pol build(const PM& x) const { return Pol(expanded(x), cache); }
	static Poly expand(const Pol& p) { return carl::computePolynomial(p); }
#else
	Pol build(const PM& x) const { return expanded(x); }
	static const Poly& expand(const Pol& p) { return p; }
#endif
	Poly expanded(const PM& x) const {
		Poly p;
		for (auto& t : x) {
			Poly m(t.second);
			for (std::size_t i = 0; i < PM_VARS; ++i) for (unsigned k = 0; k < t.first[i]; ++k) m *= Poly(pv.vars[i]);
			p += m;
		}
		return p;
	}
	void setup(Rng& r) override {
		nv = (std::size_t)r.range(1, 3);
		for (std::size_t i = 0; i < nv; ++i) pv.vars.push_back(carl::freshRealVariable("x" + std::to_string(i)));
		std::sort(pv.vars.begin(), pv.vars.end());
		{
			Quiet q;
			int n = (int)r.range(2, 4);
			while ((int)base.size() < n) {
				PM x = pm_random(r, nv, 1, 3);
				if (x.empty()) continue;
				if (r.chance(0.25)) x = pm_scale(x, pm_rational(r));
				if (r.chance(0.1)) x = pm_var(r.below(nv), 2) + pm_const((long)r.range(1, 3));
				base.push_back(x);
			}
		}
		for (int t = 0; t < MAXT; ++t) { lazy.slots[t].resize(nslots); eager.slots[t].resize(nslots); }
		lazy.shared.resize(2);
		eager.shared.resize(2);
#ifdef RATFUN_FACTORIZED
		cache = std::make_shared<FCache>(r.chance(0.3) ? 10000 : r.range(1, 12), r.chance(0.5) ? 0.2 : 0.01 * r.range(1, 99), r.chance(0.5) ? 0.98 : 0.9);
#endif
		// first uses of the pools
		Pol a = build(pm_var(0) * pm_var(0) - pm_const(1)), b = build(pm_var(0) + pm_const(1));
		carl::RationalFunction<Pol, true> f(a, b);
		f += f;
	}
	PM product(Rng& r, unsigned factors) {
		PM x = pm_const(r.chance(0.5) ? Q(1) : pm_rational(r));
		for (unsigned i = 0; i < factors; ++i) {
			PM y = r.chance(0.7) ? base[r.below(base.size())] : pm_random(r, nv, 1, 2);
			if (y.empty()) continue;
			x = x * y;
		}
		return x;
	}
	static bool constant(const PM& x) { return pm_deg(x) == 0; }
	static Q number(const PM& x) { auto it = x.find(Exps{}); return it == x.end() ? Q(0) : it->second; }
	static std::string show(const Frac& f) { return "(" + pm_show(f.n) + ")/(" + pm_show(f.d) + ")"; }
	static bool same(const Frac& a, const Frac& b) { return a.n * b.d == b.n * a.d; }
	static bool isnumber(const Frac& a) {
		if (a.n.empty()) return true;
		Q c = a.n.begin()->second / a.d.begin()->second;
		return a.n == pm_scale(a.d, c);
	}
	/// Whether two polynomials have a common divisor of positive degree in v, except with negligible probability.
	bool common(Rng& r, const PM& a, const PM& b, std::size_t v) {
		if (pm_deg(a, v) == 0 || pm_deg(b, v) == 0) return false;
		bool any = false;
		for (int tries = 0; tries < 4; ++tries) {
			std::vector<Q> pt;
			for (std::size_t i = 0; i < PM_VARS; ++i) pt.push_back(Q((long)r.range(-1000000, 1000000)));
			auto eval = [&](const PM& p) {
				std::vector<Q> c(pm_deg(p, v) + 1);
				for (auto& t : p) {
					Q m = t.second;
					for (std::size_t i = 0; i < PM_VARS; ++i) if (i != v) for (unsigned k = 0; k < t.first[i]; ++k) m *= pt[i];
					c[t.first[v]] += m;
				}
				return c;
			};
			std::vector<Q> x = eval(a), y = eval(b);
			if (x.back() == 0 || y.back() == 0) continue;
			any = true;
			while (!y.empty()) {
				while (x.size() >= y.size()) {
					Q f = x.back() / y.back();
					for (std::size_t i = 0; i < y.size(); ++i) x[x.size() - y.size() + i] -= f * y[i];
					while (!x.empty() && x.back() == 0) x.pop_back();
				}
				x.swap(y);
			}
			if (x.size() == 1) return false;
		}
		return any;
	}
	/// Reads numerator and denominator.
	template<bool AS>
	Frac read(const typename Part<AS>::RF& f) const {
		Poly n = expand(f.nominator()), d = expand(f.denominator());
		bool c = f.isConstant();
		Q nn, dn;
		if (c) { nn = f.nominatorAsNumber(); dn = f.denominatorAsNumber(); }
		Frac g;
		{
			Quiet q;
			g.n = pm_read(pv, n, "numerator");
			g.d = pm_read(pv, d, "denominator");
			SIM_CHECK(!g.d.empty(), "wrong-result", "the denominator is zero");
			if (c) SIM_CHECK(g.n == pm_const(nn) && g.d == pm_const(dn), "wrong-observer", "number " << nn << "/" << dn << " as polynomials " << show(g));
		}
		return g;
	}
	/// f must be the function x; reduced if it was simplified.
	template<bool AS>
	Frac verify(Rng& r, const typename Part<AS>::RF& f, const Frac& x, const char* what) {
		Frac g = read<AS>(f);
		bool simple = f.isSimplified(), con = f.isConstant(), zero = f.isZero(), one = f.isOne();
		Quiet q;
		SIM_CHECK(same(g, x), "wrong-result", what << " is " << show(g) << ", expected " << show(x));
		SIM_CHECK(zero == x.n.empty(), "wrong-observer", show(g) << (zero ? " is" : " is not") << " zero");
		if (con) SIM_CHECK(isnumber(x), "wrong-observer", show(x) << " is taken for a number");
		SIM_CHECK(!one || x.n == x.d, "wrong-observer", show(x) << " is taken for one");
		if (AS) {
			SIM_CHECK(simple, "not-simplified", what << " " << show(g) << " is not marked as simplified");
			SIM_CHECK(con == isnumber(x), "not-simplified", what << " " << show(g) << " is not simplified to a number");
			SIM_CHECK(one == (x.n == x.d), "wrong-observer", show(x) << " is one: " << one);
		}
		if (simple && !con) {
			for (std::size_t v = 0; v < nv; ++v) SIM_CHECK(!common(r, g.n, g.d, v), "not-simplified", what << " " << show(g) << " has a common divisor in v" << v);
			reach("simplified");
		}
		return g;
	}
	template<bool AS>
	void step(int t, Rng& r, Part<AS>& P) {
		using RF = typename Part<AS>::RF;
		auto& S = P.slots[t];
		auto& a = S[r.below(nslots)];
		auto& b = S[r.below(nslots)];
		auto& d = S[r.below(nslots)];
		int k = (int)r.below(factorized ? 37 : 34), w = (int)r.below(4);
		bool inplace = r.chance(0.5);
		std::size_t v = r.below(nv);
		RF res;
		Frac x;
		bool done = false, produced = true;
		const char* what = "";
		// second operand of another kind
		PM y;
		Q c;
		{ Quiet q; y = product(r, (unsigned)r.below(3)); c = pm_rational(r, true); if (w == 3 && c == 0) c = Q(3, 2); }
		Pol py;
		PM ty;
		carl::Term<Q> pt;
		if (factorized && (k == 14 || k == 15 || k == 18 || k == 19)) k = 16;
		if (k >= 16 && k <= 19) {
			if (k >= 18) { Quiet q; ty = pm_term(y.begin()->first, k == 19 ? Q(1) : y.begin()->second); y = ty; }
			py = build(y);
			if (k >= 18) pt = expand(py).lterm();
		}
		{ Quiet q; SIM_LOG("t" << t << (AS ? " eager" : " lazy") << " operation " << k << "/" << w << (inplace ? " in place" : "") << " a=" << show(a.x) << " b=" << show(b.x) << " y=" << pm_show(y) << " c=" << c << " v" << v); }
		auto expect = [&](const PM& n, const PM& m) {
			// a op n/m
			Quiet q;
			switch (w) {
			case 0: x.n = a.x.n * m + n * a.x.d; x.d = a.x.d * m; break;
			case 1: x.n = a.x.n * m - n * a.x.d; x.d = a.x.d * m; break;
			case 2: x.n = a.x.n * n; x.d = a.x.d * m; break;
			default: x.n = a.x.n * m; x.d = a.x.d * n; break;
			}
		};
#define OPS(rhs) \
		switch (w) { \
		case 0: if (inplace) { res = a.f; res += rhs; } else res = a.f + rhs; break; \
		case 1: if (inplace) { res = a.f; res -= rhs; } else res = a.f - rhs; break; \
		case 2: if (inplace) { res = a.f; res *= rhs; } else res = a.f * rhs; break; \
		default: if (inplace) { res = a.f; res /= rhs; } else res = a.f / rhs; break; \
		}
		try {
			switch (k) {
			case 0: case 1: case 2: case 3: {
				PM n, m;
				{ Quiet q; n = product(r, (unsigned)r.below(factorized ? 5 : 3)); m = product(r, (unsigned)r.below(factorized ? 5 : 3)); if (r.chance(0.05)) n.clear(); if (r.chance(0.1)) m = pm_scale(n, pm_rational(r)); if (m.empty()) m = pm_const(-2); SIM_LOG("new " << pm_show(n) << " / " << pm_show(m)); }
				Pol pn = build(n), pm = build(m);
				bool whole = r.chance(0.2), mv = r.chance(0.5);
				{ Quiet q; if (whole) m = pm_const(1); x.n = n; x.d = m; }
				Faulty f;
				if (whole) res = mv ? RF(std::move(pn)) : RF(pn);
				else res = mv ? RF(std::move(pn), std::move(pm)) : RF(pn, pm);
				what = "the new function";
				break;
			}
			case 4: {
				if (r.chance(0.5)) { { Quiet q; x.n = pm_const(c); } Faulty f; res = RF(c); }
				else { Pol p = build(pm_var(v)); { Quiet q; x.n = pm_var(v); } Faulty f; res = RF(p); }
				what = "the new function";
				break;
			}
			case 5: case 6: case 7: case 8: case 9: case 10: case 11: case 12: case 13: {
				if (k < 7) w = k - 5;
				if (w == 3 && b.x.n.empty()) return;
				{ Quiet q; if (pm_deg(a.x.n) + pm_deg(a.x.d) + pm_deg(b.x.n) + pm_deg(b.x.d) > (factorized ? 14 : 9)) return; }
				expect(b.x.n, b.x.d);
				bool self = &a == &b && r.chance(0.7);
				Faulty f;
				if (self) { res = a.f; switch (w) { case 0: res += res; break; case 1: res -= res; break; case 2: res *= res; break; default: res /= res; } }
				else OPS(b.f)
				what = "the combination of two functions";
				break;
			}
			case 16: case 17: {
				{ Quiet q; if (w == 3 && y.empty()) return; }
				expect(y, pm_const(1));
				Faulty f;
				OPS(py)
				what = "the combination with a polynomial";
				break;
			}
#ifndef RATFUN_FACTORIZED
			case 18: {
				expect(y, pm_const(1));
				Faulty f;
				OPS(pt)
				what = "the combination with a term";
				break;
			}
			case 19: {
				if (!pt.monomial()) return;
				expect(y, pm_const(1));
				Faulty f;
				OPS(pt.monomial())
				what = "the combination with a monomial";
				break;
			}
#ifndef RATFUN_FACTORIZED
			case 14: case 15: {
				expect(pm_var(v), pm_const(1));
				Faulty f;
				OPS(pv.vars[v])
				what = "the combination with a variable";
				break;
			}
#endif
#endif
			case 20: case 21: {
				expect(pm_const(c), pm_const(1));
				Faulty f;
				OPS(c)
				what = "the combination with a number";
				break;
			}
			case 22: {
				long n = (long)r.range(1, 9);
				w = inplace ? 2 : 3;
				expect(pm_const(Q(n)), pm_const(1));
				Faulty f;
				if (inplace) res = r.chance(0.5) ? a.f * carl::sint(n) : carl::sint(n) * a.f;
				else res = a.f / (unsigned long)n;
				what = "the combination with an integer";
				break;
			}
			case 23: {
				{ Quiet q; x.n = pm_scale(a.x.n, -1); x.d = a.x.d; }
				Faulty f;
				res = -a.f;
				what = "the negation";
				break;
			}
			case 24: case 25: {
				{ Quiet q; if (a.x.n.empty()) return; x.n = a.x.d; x.d = a.x.n; }
				Faulty f;
				res = a.f.inverse();
				what = "the inverse";
				break;
			}
			case 26: {
				{ Quiet q; x = a.x; }
				res = a.f;
				Faulty f;
				if (!AS) res.simplify();
				what = "the simplified function";
				break;
			}
			case 27: case 28: {
				std::map<carl::Variable, Q> m;
				{
					Quiet q;
					std::map<std::size_t, PM> s;
					for (std::size_t i = 0; i < nv; ++i) if (r.chance(0.6)) { Q z = r.chance(0.5) ? Q((long)r.range(-2, 2)) : pm_rational(r, true); s[i] = pm_const(z); m.emplace(pv.vars[i], z); }
					x.n = pm_subst(a.x.n, s);
					x.d = pm_subst(a.x.d, s);
					if (x.d.empty()) return;
				}
				Faulty f;
				res = a.f.substitute(m);
				what = "the result of the substitution";
				break;
			}
			case 29: {
				std::map<carl::Variable, Q> m;
				Q e, got;
				{
					Quiet q;
					std::vector<Q> p(PM_VARS);
					for (std::size_t i = 0; i < nv; ++i) { p[i] = pm_rational(r, true); m.emplace(pv.vars[i], p[i]); }
					Q z = pm_eval(a.x.d, p);
					if (z == 0) return;
					e = pm_eval(a.x.n, p) / z;
				}
				{ Faulty f; got = a.f.evaluate(m); }
				produced = false;
				Quiet q;
				SIM_CHECK(got == e, "wrong-result", show(a.x) << " evaluates to " << got << ", expected " << e);
				reach("evaluated");
				break;
			}
			case 30: {
				bool eq, ne, lt, gt;
				std::size_t ha, hb;
				{ Faulty f; eq = a.f == b.f; ne = a.f != b.f; lt = a.f < b.f; gt = b.f < a.f; }
				{ ha = std::hash<RF>()(a.f); hb = std::hash<RF>()(b.f); }
				bool ca = a.f.isConstant(), cb = b.f.isConstant();
				produced = false;
				Quiet q;
				bool e = same(a.x, b.x);
				SIM_CHECK(eq != ne && (!eq || e), "wrong-comparison", show(a.x) << " and " << show(b.x) << ": == is " << eq << ", != is " << ne);
				if (AS) SIM_CHECK(eq == e, "wrong-comparison", "the same function as " << show(a.x) << " and as " << show(b.x) << " compares different");
				SIM_CHECK(!eq || factorized || ha == hb, "wrong-hash", show(a.x) << " and " << show(b.x) << " have different hashes");
				SIM_CHECK(lt + gt <= 1 && (!eq || lt + gt == 0), "wrong-comparison", show(a.x) << " and " << show(b.x) << ": < is " << lt << ", > is " << gt);
				if (AS || ca == cb) SIM_CHECK((lt + gt == 0) == e, "wrong-comparison", show(a.x) << " and " << show(b.x) << ": < is " << lt << ", > is " << gt);
				if (e && &a != &b) reach("equal functions compared");
				break;
			}
			case 31: {
				{ Quiet q; if (number(a.x.d) == 0) return; }
				Q got;
				{ Faulty f; got = a.f.constantPart(); }
				produced = false;
				Quiet q;
				SIM_CHECK(got == number(a.x.n) / number(a.x.d), "wrong-observer", "constant part of " << show(a.x) << " is " << got);
				break;
			}
#ifdef RATFUN_FACTORIZED
			case 34: case 35: {
				{ Quiet q; if (pm_deg(a.x.d) > 3) return; x.n = pm_derivative(a.x.n, v, 1) * a.x.d - a.x.n * pm_derivative(a.x.d, v, 1); x.d = a.x.d * a.x.d; }
				res = a.f.derivative(pv.vars[v]);
				what = "the derivative";
				break;
			}
			case 36: {
				std::string s = a.f.toString(), t2 = a.f.toString(false);
				produced = false;
				Quiet q;
				SIM_CHECK(!s.empty() && (s.find("/(") != std::string::npos) == (a.x.d != pm_const(1)) && (t2.rfind("(/ ", 0) == 0) == (a.x.d != pm_const(1)), "wrong-text", show(a.x) << " is written " << s << " and " << t2);
				break;
			}
#endif
			case 32: {
				std::lock_guard<std::mutex> lg(mx);
				auto& s = P.shared[r.below(P.shared.size())];
				if (r.chance(0.5)) { s.f = a.f; Quiet q; s.x = a.x; }
				else { a.f = s.f; Quiet q; a.x = s.x; }
				produced = false;
				break;
			}
			default: {
				RF m(std::move(a.f));
				a.f = RF();
				b.f = std::move(m);
				Quiet q;
				Frac z = a.x;
				a.x = Frac();
				b.x = z;
				produced = false;
			}
			}
			done = true;
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "unexpected-exception", "bad_alloc without a failed allocation");
		}
#undef OPS
		if (done && produced) {
			Frac g = verify<AS>(r, res, x, what);
			bool keep;
			{ Quiet q; keep = pm_deg(g.n) <= (factorized ? 8 : 5) && pm_deg(g.d) <= (factorized ? 8 : 5) && g.n.size() <= (factorized ? 40 : 14) && g.d.size() <= (factorized ? 40 : 14); if (w == 3) reach("division"); observe(mix(pm_hash(g.n), pm_hash(g.d))); }
			// the same function from another quotient
			if (AS && r.chance(0.4)) {
				PM n, m;
				{ Quiet q; PM z = product(r, (unsigned)r.below(2)); n = g.n * z; m = g.d * z; }
				Pol pn = build(n), pm = build(m);
				RF other(pn, pm);
				bool eq = other == res, lt = other < res, gt = res < other;
				std::size_t ha = std::hash<RF>()(other), hb = std::hash<RF>()(res);
				Frac o = read<AS>(other);
				Quiet q;
				SIM_CHECK(eq && !lt && !gt && (factorized || ha == hb), "wrong-comparison", what << " is " << show(g) << ", which is the same function as " << show(o) << " but compares different");
			}
			// the operands are still the same
			for (auto* p : {&a, &b}) {
				Frac o = read<AS>(p->f);
				Quiet q;
				SIM_CHECK(o.n == p->x.n && o.d == p->x.d, "operand-changed", show(p->x) << " became " << show(o));
			}
			if (keep) {
				std::swap(d.f, res);
				Quiet q;
				d.x = g;
			}
		}
		Quiet q;
		std::uint64_t h = 0;
		for (auto& s : S) h = mix(h, mix(pm_hash(s.x.n), pm_hash(s.x.d)));
		state(h);
	}
	void op(int t, int, Rng& r) override {
		if (r.chance(0.6)) step(t, r, eager);
		else step(t, r, lazy);
	}
	template<bool AS>
	void last(Part<AS>& P) {
		for (int t = 0; t < MAXT; ++t) {
			for (auto& s : P.slots[t]) { Frac o = read<AS>(s.f); Quiet q; SIM_CHECK(o.n == s.x.n && o.d == s.x.d, "wrong-result", show(s.x) << " became " << show(o)); }
			std::vector<typename Part<AS>::Val> z;
			std::swap(z, P.slots[t]);
		}
		for (auto& s : P.shared) { Frac o = read<AS>(s.f); Quiet q; SIM_CHECK(o.n == s.x.n && o.d == s.x.d, "wrong-result", show(s.x) << " became " << show(o)); }
		std::vector<typename Part<AS>::Val> z;
		std::swap(z, P.shared);
	}
	void task_end(int) override {}
	void finish() override {
		last(lazy);
		last(eager);
#ifdef RATFUN_FACTORIZED
		cache.reset();
#endif
	}
};
}
namespace sim { Harness* make_harness() { return new H; } }

// Virtual substitution: clients compute the zeros of polynomials in a variable as expressions with square roots over the
// other variables, calculate with such expressions and put them, a point just above them or an infinite value in place of
// the variable of a constraint, on constraints and expressions they share.
// build-flags: -DNDEBUG -include @VERIF@/harness/cocoa_stub.h
#include "poly_model.h"
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/polynomialfunctions/Definiteness.h>
#include <carl/core/polynomialfunctions/Factorization.h>
#include <carl/core/polynomialfunctions/to_univariate_polynomial.h>
#include <carl/formula/Constraint.h>
#include <carl/ran/ran.h>
#include <carl/vs/substitute.h>
#include <cfenv>
#include <mutex>

using namespace sim;
namespace sim { const char* const harness_name = "vs"; }

namespace {
using sim::operator+;
using sim::operator-;
using sim::operator*;
using Con = carl::Constraint<Poly>;
using SE = carl::SqrtEx<Poly>;
using VTerm = carl::vs::Term<Poly>;
using Cases = carl::vs::CaseDistinction<Poly>;
using Zero = carl::vs::zero<Poly>;
using VC = carl::VariableComparison<Poly>;
using RAN = carl::RealAlgebraicNumber<Q>;
using carl::Relation;

const Relation ALL[] = {Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};

bool holds(Relation rel, int s) {
	switch (rel) {
	case Relation::EQ: return s == 0;
	case Relation::NEQ: return s != 0;
	case Relation::LESS: return s < 0;
	case Relation::LEQ: return s <= 0;
	case Relation::GREATER: return s > 0;
	default: return s >= 0;
	}
}
/// The number a + b * sqrt(n).
struct Surd { Q a, b, n; };
int sign(const Surd& s) {
	int sa = sgn(s.a), sb = sgn(s.n) == 0 ? 0 : sgn(s.b);
	if (sb == 0) return sa;
	if (sa == 0 || sa == sb) return sb;
	int c = sgn(Q(s.a * s.a - s.b * s.b * s.n));
	return c == 0 ? 0 : (c > 0 ? sa : sb);
}
/// The sign of x - y.
int compare(const Surd& x, const Surd& y) {
	Surd u{x.a - y.a, x.b, x.n};
	int su = sign(u), sv = sign(Surd{0, y.b, y.n});
	if (su != sv) return su > sv ? 1 : -1;
	return su * sign(Surd{u.a * u.a + u.b * u.b * u.n - y.b * y.b * y.n, 2 * u.a * u.b, u.n});
}
Surd mul(const Surd& x, const Surd& y) { return {x.a * y.a + x.b * y.b * x.n, x.a * y.b + x.b * y.a, x.n}; }

/// An expression (c + f * sqrt(r)) / d.
struct SM { PM c, f, d, r; };

struct H : Harness {
	PolyVars pv;
	std::size_t nv = 2;
	struct Ex { std::shared_ptr<const SE> e; SM x; };
	struct Co { std::shared_ptr<const Con> c; PM x; Relation rel; };
	std::vector<Ex> exprs;
	std::vector<Co> cons;
	std::mutex mx;
	SE res[MAXT];
	std::optional<Cases> cases[MAXT];
	std::vector<Zero> zeros[MAXT];
	std::optional<std::variant<Cases, VC>> vres[MAXT];

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 3);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(1, r.chance(0.1) ? 16 : 6);
		c.step_cap = 80000000;
		if (faults) {
			c.rate[F_FPENV] = pick_from(r, {0.0, 0.3, 0.8});
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.0, 0.0005, 0.005});
			c.max_faults = (int)r.range(1, 6);
		}
	}
	Poly build(const PM& x) const {
		Poly p;
		for (auto& t : x) {
			Poly m(t.second);
			for (std::size_t i = 0; i < PM_VARS; ++i) for (unsigned k = 0; k < t.first[i]; ++k) m *= Poly(pv.vars[i]);
			p += m;
		}
		return p;
	}
	SM read(const SE& e, const char* what) {
		return {pm_read(pv, e.constantPart(), what), pm_read(pv, e.factor(), what), pm_read(pv, e.denominator(), what), pm_read(pv, e.radicand(), what)};
	}
	std::string show(const SM& s) { return "(" + pm_show(s.c) + " + (" + pm_show(s.f) + ") * sqrt(" + pm_show(s.r) + ")) / (" + pm_show(s.d) + ")"; }
	void setup(Rng& r) override {
		nv = (std::size_t)r.range(1, 4);
		for (std::size_t i = 0; i < nv; ++i) pv.vars.push_back(carl::freshRealVariable("x" + std::to_string(i)));
		std::sort(pv.vars.begin(), pv.vars.end());
		exprs.resize(3);
		for (auto& e : exprs) make_expr(r, e, r.below(nv));
		cons.resize(3);
		for (auto& c : cons) make_con(r, c);
		// first uses of the pools
		Poly x(pv.vars[0]), p = x * x - Poly(Q(2));
		Con c(p, Relation::LEQ);
		std::vector<Zero> z;
		carl::vs::gather_zeros(c, pv.vars[0], z);
		carl::vs::substitute(c, pv.vars[0], VTerm::minus_infty());
		carl::UnivariatePolynomial<Q> u(pv.vars[0], std::vector<Q>{Q(-2), Q(0), Q(1)});
		auto roots = carl::ran::real_roots(u);
		VC v(pv.vars[0], roots.roots()[0], Relation::LESS);
		carl::vs::substitute(v, pv.vars[0], VTerm::normal(SE(Poly(Q(1)))));
	}
	PM small(Rng& r, unsigned deg, unsigned terms, std::size_t without) {
		PM x = pm_random(r, nv, deg, terms), y;
		for (auto& t : x) if (without >= nv || t.first[without] == 0) y.insert(t);
		return y;
	}
	/// A random expression without variable v.
	SM random_expr(Rng& r, std::size_t v) {
		SM s;
		s.c = r.chance(0.15) ? PM() : small(r, 2, 2, v);
		s.f = r.chance(0.35) ? PM() : r.chance(0.6) ? pm_const(pm_rational(r)) : small(r, 1, 2, v);
		s.d = r.chance(0.5) ? pm_const(pm_rational(r)) : small(r, r.chance(0.8) ? 1 : 2, 2, v);
		if (s.d.empty()) s.d = pm_const(1);
		if (r.chance(0.15)) { PM g = small(r, 1, 2, v); g = g * g + pm_const(r.chance(0.5) ? 0 : 1); if (!g.empty()) { s.c = s.c * g; s.f = s.f * g; s.d = s.d * g; } }
		s.r = r.chance(0.3) ? pm_const(Q((long)r.range(0, 20)) / Q((long)r.range(1, 4))) : small(r, 2, 2, v);
		if (r.chance(0.2)) s.r = s.r * s.r;
		if (r.chance(0.2)) { Q q = pm_rational(r); s.r = pm_scale(s.r, q * q); }
		if (pm_deg(s.r) == 0 && !s.r.empty() && s.r.begin()->second < 0) s.r = pm_scale(s.r, -1);
		return s;
	}
	void make_expr(Rng& r, Ex& o, std::size_t v) {
		SM s;
		{ Quiet q; s = random_expr(r, v); }
		auto e = std::make_shared<const SE>(build(s.c), build(s.f), build(s.d), build(s.r));
		Quiet q;
		o.x = read(*e, "a new expression");
		o.e.swap(*const_cast<std::shared_ptr<const SE>*>(&e));
	}
	void make_con(Rng& r, Co& o) {
		for (int tries = 0;; ++tries) {
			PM x;
			{
				Quiet q;
				x = pm_random(r, nv, 2, 3);
				if (r.chance(0.15)) { // coefficients that can all vanish
					std::size_t v = r.below(nv);
					x = small(r, 1, 2, v) * pm_var(v, 2) + small(r, 1, 2, v) * pm_var(v) + small(r, 1, 2, v);
				} else if (r.chance(0.15)) x = x * small(r, 1, 2, nv);
				if (r.chance(0.1)) x = x * pm_var(r.below(nv), (unsigned)r.range(1, 2));
				if (pm_deg(x) > 4 || x.size() > 6) x.clear();
			}
			auto c = std::make_shared<const Con>(build(x), ALL[r.below(6)]);
			Quiet q;
			o.x = pm_read(pv, c->lhs(), "the left side of a constraint");
			if (pm_deg(o.x) == 0 && tries < 100) continue;
			o.rel = c->relation();
			o.c.swap(*const_cast<std::shared_ptr<const Con>*>(&c));
			return;
		}
	}
	/// Ordering and hashing sort the terms of a polynomial: clients work on copies of what they share.
	Ex pick_expr(Rng& r) {
		Ex o;
		{ std::lock_guard<std::mutex> g(mx); o = exprs[r.below(exprs.size())]; }
		o.e = std::make_shared<const SE>(*o.e);
		return o;
	}
	Co pick_con(Rng& r) { std::lock_guard<std::mutex> g(mx); return cons[r.below(cons.size())]; }

	std::vector<Q> point(Rng& r) {
		std::vector<Q> pt;
		bool unit = r.chance(0.3); // where coefficients vanish together
		for (std::size_t i = 0; i < PM_VARS; ++i) pt.push_back(unit ? Q((long)r.range(-1, 1)) : r.chance(0.3) ? Q((long)r.range(-2, 2)) : Q((long)r.range(-9, 9)) / Q((long)r.range(1, 4)));
		for (auto& x : pt) x.canonicalize();
		return pt;
	}
	/// The value of an expression at a point; false if it has none there.
	bool value(const SM& s, const std::vector<Q>& pt, Surd& out) {
		Q d = pm_eval(s.d, pt), n = pm_eval(s.r, pt), f = pm_eval(s.f, pt);
		if (d == 0 || (n < 0 && !s.f.empty())) return false;
		if (s.f.empty()) n = 0;
		out = {pm_eval(s.c, pt) / d, f / d, n};
		return true;
	}
	/// The coefficients of a polynomial in variable v at a point.
	std::vector<Q> at(const PM& p, std::size_t v, const std::vector<Q>& pt) {
		std::vector<Q> c(pm_deg(p, v) + 1);
		for (auto& t : p) {
			Q m = t.second;
			for (std::size_t i = 0; i < PM_VARS; ++i) if (i != v) for (unsigned k = 0; k < t.first[i]; ++k) m *= pt[i];
			c[t.first[v]] += m;
		}
		return c;
	}
	Surd horner(const std::vector<Q>& c, const Surd& x) {
		Surd r{0, 0, x.n};
		for (std::size_t i = c.size(); i-- > 0;) { r = mul(r, x); r.a += c[i]; }
		return r;
	}
	bool holds_con(const Con& c, const std::vector<Q>& pt) { return holds(c.relation(), sgn(pm_eval(pm_read(pv, c.lhs(), "a constraint of the result"), pt))); }
	bool holds_cases(const Cases& cs, const std::vector<Q>& pt) {
		for (auto& conj : cs) {
			bool all = true;
			for (auto& c : conj) if (!holds_con(c, pt)) { all = false; break; }
			if (all) return true;
		}
		return false;
	}
	std::string show(const std::vector<Q>& pt) {
		std::string s;
		for (std::size_t i = 0; i < nv; ++i) s += (i ? ", " : "") + pt[i].get_str();
		return s;
	}
	/// Compares a library expression to the value it should have at random points. The root of a square of a polynomial
	/// may be taken with either sign.
	template<class F> void same_value(Rng& r, const SE& e, F&& want, const char* what) {
		SM s = read(e, what);
		for (int k = 0; k < 6; ++k) {
			std::vector<Q> pt = point(r);
			Surd w, g;
			if (!want(pt, w)) continue;
			SIM_CHECK(value(s, pt, g), "no-value", std::string(what) + " is " + show(s) + " which has no value at " + show(pt));
			int c = compare(g, w);
			if (c != 0 && s.f.empty() && sgn(w.b) != 0) { Surd m{w.a, -w.b, w.n}; c = compare(g, m); reach("root-of-square"); }
			SIM_CHECK(c == 0, "wrong-value", std::string(what) + " is " + show(s) + " which is wrong at " + show(pt));
			reach("value");
		}
	}
	template<class F> void guarded(F&& f) {
		try { Faulty ff; f(); } catch (const std::bad_alloc&) { SIM_CHECK(faults_in_op(F_ALLOC) > 0, "exception", "bad_alloc without a failed allocation"); failed = true; }
	}
	bool failed_[MAXT] = {};
	struct FailRef { H* h; FailRef& operator=(bool b) { h->failed_[self()] = b; return *this; } operator bool() const { return h->failed_[self()]; } } failed{this};

	void construct(int t, Rng& r) {
		SM s;
		{ Quiet q; s = random_expr(r, nv); SIM_LOG("new expression " + show(s)); }
		Poly c = build(s.c), f = build(s.f), d = build(s.d), n = build(s.r);
		guarded([&] { res[t] = SE(c, f, d, n); });
		if (failed) return;
		{
			Quiet q;
			same_value(r, res[t], [&](auto& pt, Surd& w) { return value(s, pt, w); }, "a new expression");
		}
		auto e = std::make_shared<const SE>(res[t]);
		std::lock_guard<std::mutex> g(mx);
		Quiet q;
		Ex& o = exprs[r.below(exprs.size())];
		o.x = read(*e, "a copy of an expression");
		o.e.swap(*const_cast<std::shared_ptr<const SE>*>(&e));
	}
	void arithmetic(int t, Rng& r) {
		Ex a = pick_expr(r), b;
		int k = (int)r.below(4);
		SM y;
		{
			Quiet q;
			y = random_expr(r, nv);
			y.r = a.x.r;
			if (a.x.f.empty()) y.f.clear();
			if (k == 3 || r.chance(0.3)) { y.f.clear(); y.r.clear(); }
		}
		SE sb(build(y.c), build(y.f), build(y.d), build(y.r));
		bool swap = k < 3 && r.chance(0.4);
		SM s;
		{
			Quiet q;
			s = read(sb, "an operand");
			if (!s.f.empty() && s.r != a.x.r) return;
			if (k == 3 && s.c.empty()) return;
			SIM_LOG(std::string("+-*/").substr((std::size_t)k, 1) + (swap ? " swapped " : " ") + show(a.x) + " and " + show(s));
		}
		const SE& x = swap ? sb : *a.e;
		const SE& z = swap ? *a.e : sb;
		guarded([&] {
			if (k == 0) res[t] = x + z;
			else if (k == 1) res[t] = x - z;
			else if (k == 2) res[t] = x * z;
			else res[t] = x / z;
		});
		if (failed) return;
		Quiet q;
		same_value(r, res[t], [&](auto& pt, Surd& w) {
			Surd u, v;
			if (!value(swap ? s : a.x, pt, u) || !value(swap ? a.x : s, pt, v)) return false;
			if (sgn(u.n) == 0) u.n = v.n; else v.n = u.n;
			if (k == 0) w = {u.a + v.a, u.b + v.b, u.n};
			else if (k == 1) w = {u.a - v.a, u.b - v.b, u.n};
			else if (k == 2) w = mul(u, v);
			else { if (v.a == 0) return false; w = {u.a / v.a, u.b / v.a, u.n}; }
			return true;
		}, k == 0 ? "a sum" : k == 1 ? "a difference" : k == 2 ? "a product" : "a quotient");
		SIM_CHECK(read(*a.e, "an operand").c == a.x.c, "operand-changed", "an operand changed");
		reach("arithmetic");
	}
	void observe_expr(int t, Rng& r) {
		Ex a = pick_expr(r);
		bool poly = a.e->isPolynomial(), cst = a.e->isConstant(), rat = a.e->isRational(), in = a.e->isInteger(), sq = a.e->hasSqrt();
		Poly p;
		Q c = 0, q0 = 0;
		if (poly) p = a.e->asPolynomial();
		if (rat) { q0 = a.e->asRational(); if (cst) c = a.e->asConstant(); }
		std::string text = a.e->toString(true, true);
		Ex b = pick_expr(r);
		bool eq = *a.e == *b.e;
		std::size_t ha = std::hash<SE>()(*a.e), hb = std::hash<SE>()(*b.e);
		Quiet q;
		SIM_LOG("observers of " + show(a.x));
		SIM_CHECK(poly == (a.x.f.empty() && pm_deg(a.x.d) == 0), "wrong-observer", "being a polynomial is wrong for " + show(a.x));
		SIM_CHECK(sq == !a.x.f.empty(), "wrong-observer", "having a square root is wrong for " + show(a.x));
		SIM_CHECK(cst == (pm_deg(a.x.c) + pm_deg(a.x.f) + pm_deg(a.x.d) + pm_deg(a.x.r) == 0), "wrong-observer", "being constant is wrong for " + show(a.x));
		SIM_CHECK(rat == (a.x.f.empty() && pm_deg(a.x.c) + pm_deg(a.x.d) == 0), "wrong-observer", "being rational is wrong for " + show(a.x));
		if (poly) pm_check(pv, p, pm_scale(a.x.c, 1 / a.x.d.begin()->second), "an expression as a polynomial");
		if (rat) {
			Q w = a.x.c.empty() ? Q(0) : Q(a.x.c.begin()->second / a.x.d.begin()->second);
			SIM_CHECK(q0 == w, "wrong-observer", show(a.x) + " as a rational is " + q0.get_str());
			if (cst) SIM_CHECK(c == w, "wrong-observer", show(a.x) + " as a constant is " + c.get_str());
			SIM_CHECK(in == (w.get_den() == 1), "wrong-observer", "being an integer is wrong for " + show(a.x));
			reach("rational");
		} else SIM_CHECK(!in, "wrong-observer", show(a.x) + " is said to be an integer");
		bool same = a.x.c == b.x.c && a.x.f == b.x.f && a.x.d == b.x.d && a.x.r == b.x.r;
		SIM_CHECK(eq == same, "wrong-equality", "equality of " + show(a.x) + " and " + show(b.x));
		SIM_CHECK(!eq || ha == hb, "wrong-hash", "equal expressions have different hashes");
		SIM_CHECK(!text.empty(), "no-text", "an expression has no text");
	}
	void evaluate(int t, Rng& r) {
		Ex a = pick_expr(r);
		std::vector<Q> pt;
		Surd w;
		int rounding = 0;
		{
			Quiet q;
			pt = point(r);
			if (!value(a.x, pt, w)) return;
			bool exact = mpz_perfect_square_p(w.n.get_num_mpz_t()) && mpz_perfect_square_p(w.n.get_den_mpz_t());
			rounding = exact ? (int)r.range(-1, 1) : r.chance(0.5) ? 1 : -1;
			if (!exact && w.b == 0) return;
			SIM_LOG("value of " + show(a.x) + " at " + show(pt) + " rounded " + std::to_string(rounding));
		}
		std::map<carl::Variable, Q> m;
		for (std::size_t i = 0; i < nv; ++i) m.emplace(pv.vars[i], pt[i]);
		Q out;
		bool exact = false;
		std::uint64_t f;
		{ Faulty fa; f = fault(F_FPENV); }
		int old = std::fegetround();
		if (f) { static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; std::fesetround(modes[f % 4]); reach("other-mode"); }
		guarded([&] { exact = a.e->evaluate(out, m, rounding); });
		std::fesetround(old);
		if (failed) return;
		Quiet q;
		int c = compare(Surd{out, 0, 0}, w);
		bool want = mpz_perfect_square_p(w.n.get_num_mpz_t()) && mpz_perfect_square_p(w.n.get_den_mpz_t());
		SIM_CHECK(exact == want, "wrong-exactness", "the value of " + show(a.x) + " at " + show(pt) + " is said to be " + (exact ? "exact" : "rounded"));
		SIM_CHECK(exact ? c == 0 : c == rounding, "wrong-rounding", "the value of " + show(a.x) + " at " + show(pt) + " is " + out.get_str() + ", rounded " + std::to_string(rounding));
		Q eps = (w.b * w.b * (w.n + 1) + 1) / 1000000;
		SIM_CHECK(compare(Surd{out + eps, 0, 0}, w) >= 0 && compare(Surd{out - eps, 0, 0}, w) <= 0, "wrong-value", "the value of " + show(a.x) + " at " + show(pt) + " is " + out.get_str());
		reach(exact ? "exact" : "rounded");
	}
	void partial(int t, Rng& r) {
		Ex a = pick_expr(r);
		std::vector<Q> pt;
		std::size_t n = r.below(nv + 1);
		{
			Quiet q;
			pt = point(r);
			std::map<std::size_t, PM> s;
			for (std::size_t i = 0; i < n; ++i) s[i] = pm_const(pt[i]);
			PM d = pm_subst(a.x.d, s), rad = pm_subst(a.x.r, s);
			if (d.empty() || (pm_deg(rad) == 0 && !rad.empty() && rad.begin()->second < 0)) return;
			SIM_LOG("substitution of " + std::to_string(n) + " variables in " + show(a.x) + " by " + show(pt));
		}
		std::map<carl::Variable, Q> m;
		for (std::size_t i = 0; i < n; ++i) m.emplace(pv.vars[i], pt[i]);
		guarded([&] { res[t] = a.e->substitute(m); });
		if (failed) return;
		Quiet q;
		SM s = read(res[t], "an expression with values for variables");
		for (std::size_t i = 0; i < n; ++i) SIM_CHECK(pm_deg(s.c, i) + pm_deg(s.f, i) + pm_deg(s.d, i) + pm_deg(s.r, i) == 0, "variable-left", "a replaced variable is in the result " + show(s));
		same_value(r, res[t], [&](std::vector<Q>& p, Surd& w) {
			for (std::size_t i = 0; i < n; ++i) p[i] = pt[i];
			return value(a.x, p, w);
		}, "an expression with values for variables");
		reach("partial");
	}
	void into_poly(int t, Rng& r) {
		Ex a = pick_expr(r);
		std::size_t v = r.below(nv);
		PM p;
		{
			Quiet q;
			if (pm_deg(a.x.c, v) + pm_deg(a.x.f, v) + pm_deg(a.x.d, v) + pm_deg(a.x.r, v)) return;
			p = pm_random(r, nv, r.chance(0.8) ? 2 : 4, 3);
			SIM_LOG("substitution of " + show(a.x) + " for x" + std::to_string(v) + " in " + pm_show(p));
		}
		Poly lp = build(p);
		guarded([&] { res[t] = SE::subBySqrtEx(lp, pv.vars[v], *a.e); });
		if (failed) return;
		Quiet q;
		same_value(r, res[t], [&](auto& pt, Surd& w) {
			Surd x;
			if (!value(a.x, pt, x)) return false;
			w = horner(at(p, v, pt), x);
			return true;
		}, "a polynomial with an expression for a variable");
		reach("into-polynomial");
	}
	void find_zeros(int t, Rng& r) {
		Co c = pick_con(r);
		std::size_t v = r.below(nv);
		{ Quiet q; SIM_LOG("zeros of " + pm_show(c.x) + " in x" + std::to_string(v)); }
		bool ok = false;
		zeros[t].clear();
		guarded([&] { ok = carl::vs::gather_zeros(*c.c, pv.vars[v], zeros[t]); });
		if (failed) { zeros[t].clear(); return; }
		{
			Quiet q;
			unsigned deg = pm_deg(c.x, v);
			SIM_CHECK(ok || deg > 2, "refused", "no zeros of " + pm_show(c.x) + " in x" + std::to_string(v));
			std::vector<SM> zs;
			for (auto& z : zeros[t]) {
				zs.push_back(read(z.sqrt_ex, "a zero"));
				SIM_CHECK(pm_deg(zs.back().c, v) + pm_deg(zs.back().f, v) + pm_deg(zs.back().d, v) + pm_deg(zs.back().r, v) == 0, "variable-left", "the zero " + show(zs.back()) + " contains the variable");
			}
			if (ok) for (int k = 0; k < 24; ++k) {
				std::vector<Q> pt = point(r), u = at(c.x, v, pt);
				while (!u.empty() && u.back() == 0) u.pop_back();
				if (u.empty()) continue;
				std::vector<Surd> found;
				for (std::size_t i = 0; i < zs.size(); ++i) {
					bool cond = true;
					for (auto& s : zeros[t][i].side_condition) if (!holds_con(s, pt)) { cond = false; break; }
					if (!cond) continue;
					Surd x;
					SIM_CHECK(value(zs[i], pt, x), "no-value", "the zero " + show(zs[i]) + " of " + pm_show(c.x) + " has no value at " + show(pt));
					SIM_CHECK(sign(horner(u, x)) == 0, "no-zero", show(zs[i]) + " is no zero of " + pm_show(c.x) + " in x" + std::to_string(v) + " at " + show(pt));
					bool old = false;
					for (auto& f : found) if (compare(f, x) == 0) old = true;
					if (!old) found.push_back(x);
				}
				std::size_t want;
				if (u.size() == 1) want = 0;
				else if (u.size() == 2) want = 1;
				else if (u.size() == 3) { int s = sgn(Q(u[1] * u[1] - 4 * u[0] * u[2])); want = s > 0 ? 2 : s == 0 ? 1 : 0; }
				else continue;
				SIM_CHECK(found.size() == want, "zero-missing", pm_show(c.x) + " has " + std::to_string(want) + " zeros in x" + std::to_string(v) + " at " + show(pt) + " but " + std::to_string(found.size()) + " are listed");
				reach(want == 2 ? "two-zeros" : want ? "one-zero" : "no-zero");
			}
		}
		if (!zeros[t].empty() && r.chance(0.7)) {
			auto e = std::make_shared<const SE>(zeros[t][r.below(zeros[t].size())].sqrt_ex);
			std::lock_guard<std::mutex> g(mx);
			Quiet q;
			Ex& o = exprs[r.below(exprs.size())];
			o.x = read(*e, "a copy of an expression");
			o.e.swap(*const_cast<std::shared_ptr<const SE>*>(&e));
		}
		zeros[t].clear();
	}
	VTerm term(Rng& r, int kind, const SE& e) {
		switch (kind) {
		case 0: return VTerm::normal(e);
		case 1: return VTerm::plus_eps(e);
		case 2: return VTerm::minus_infty();
		default: return VTerm::plus_infty();
		}
	}
	void into_constraint(int t, Rng& r) {
		Co c = pick_con(r);
		Ex a = pick_expr(r);
		std::size_t v = r.below(nv);
		int kind = r.chance(0.5) ? 0 : (int)r.range(1, 3);
		{
			Quiet q;
			if (kind < 2 && pm_deg(a.x.c, v) + pm_deg(a.x.f, v) + pm_deg(a.x.d, v) + pm_deg(a.x.r, v)) return;
			static const char* const names[] = {"", " + epsilon", "-infinity", "infinity"};
			SIM_LOG("substitution of " + (kind < 2 ? show(a.x) : std::string()) + names[kind] + " for x" + std::to_string(v) + " in " + pm_show(c.x) + " rel " + std::to_string((int)c.rel));
		}
		VTerm tm = term(r, kind, *a.e);
		guarded([&] { cases[t] = carl::vs::substitute(*c.c, pv.vars[v], tm); });
		if (failed) { cases[t].reset(); return; }
		{
			Quiet q;
			if (!cases[t]) {
				SIM_CHECK(pm_deg(c.x, v) > 2, "refused", "no substitution in " + pm_show(c.x));
				reach("refused");
				return;
			}
			for (auto& conj : *cases[t]) for (auto& k : conj) SIM_CHECK(pm_deg(pm_read(pv, k.lhs(), "the result"), v) == 0, "variable-left", "the replaced variable is in the result " + pm_show(pm_read(pv, k.lhs(), "")));
			for (int k = 0; k < 24; ++k) {
				std::vector<Q> pt = point(r), u = at(c.x, v, pt);
				int s = 0;
				if (kind < 2) {
					Surd x;
					if (!value(a.x, pt, x)) continue;
					s = sign(horner(u, x));
					while (kind == 1 && s == 0 && u.size() > 1) {
						for (std::size_t i = 1; i < u.size(); ++i) u[i - 1] = u[i] * (unsigned long)i;
						u.pop_back();
						s = sign(horner(u, x));
					}
				} else {
					while (!u.empty() && u.back() == 0) u.pop_back();
					if (!u.empty()) s = sgn(u.back()) * (kind == 2 && u.size() % 2 == 0 ? -1 : 1);
				}
				bool want = holds(c.rel, s), got = holds_cases(*cases[t], pt);
				SIM_CHECK(want == got, "wrong-substitution", "the result of the substitution " + std::string(got ? "holds" : "does not hold") + " at " + show(pt));
				reach(want ? "holds" : "does-not-hold");
			}
		}
		cases[t].reset();
	}
	void into_comparison(int t, Rng& r) {
		Ex a = pick_expr(r);
		std::size_t v = r.below(nv);
		int kind = r.chance(0.5) ? 0 : (int)r.range(1, 3);
		Surd y;
		Q scale;
		bool other = r.chance(0.1) && nv > 1;
		{
			Quiet q;
			if (kind < 2 && pm_deg(a.x.c, v) + pm_deg(a.x.f, v) + pm_deg(a.x.d, v) + pm_deg(a.x.r, v)) return;
			y = {pm_rational(r, true), pm_rational(r), Q((long)r.range(2, 12))};
			if (r.chance(0.2)) y.n = a.x.r.empty() || pm_deg(a.x.r) ? y.n : a.x.r.begin()->second;
			scale = pm_rational(r);
			if (mpz_perfect_square_p(y.n.get_num_mpz_t()) && y.n.get_den() == 1) y.n += 1;
		}
		std::size_t w = other ? (v + 1) % nv : v;
		Q c0, c1;
		{ Quiet q; c0 = (y.a * y.a - y.b * y.b * y.n) * scale; c1 = -2 * y.a * scale; }
		carl::UnivariatePolynomial<Q> u(pv.vars[w], std::vector<Q>{c0, c1, scale});
		auto roots = carl::ran::real_roots(u);
		SIM_CHECK(roots.is_univariate() && roots.roots().size() == 2, "harness", "not two roots");
		Relation rel = ALL[r.below(6)];
		bool neg = r.chance(0.3);
		VC vc(pv.vars[w], roots.roots()[y.b > 0 ? 1 : 0], rel, neg);
		{
			Quiet q;
			static const char* const names[] = {"", " + epsilon", "-infinity", "infinity"};
			SIM_LOG("substitution of " + (kind < 2 ? show(a.x) : std::string()) + names[kind] + " for x" + std::to_string(v) + " in x" + std::to_string(w) + " rel " + std::to_string((int)rel) + (neg ? " (negated) " : " ") + y.a.get_str() + " + " + y.b.get_str() + " * sqrt(" + y.n.get_str() + ")");
		}
		VTerm tm = term(r, kind, *a.e);
		guarded([&] { vres[t] = carl::vs::substitute(vc, pv.vars[v], tm); });
		if (failed) { vres[t].reset(); return; }
		if (vres[t] && std::holds_alternative<VC>(*vres[t])) {
			bool same = std::get<VC>(*vres[t]) == vc;
			Quiet q;
			SIM_CHECK(other && same, "wrong-comparison", "a comparison of the replaced variable is left");
			reach("other-variable");
		} else {
			Quiet q;
			SIM_CHECK(!other, "wrong-comparison", "a comparison of another variable changed");
			if (!vres[t]) SIM_CHECK(kind == 3, "refused", "no substitution in a comparison");
			else {
				auto& cs = std::get<Cases>(*vres[t]);
				for (int k = 0; k < 16; ++k) {
					std::vector<Q> pt = point(r);
					int s = kind == 2 ? -1 : 1;
					if (kind < 2) {
						Surd x;
						if (!value(a.x, pt, x)) continue;
						s = compare(x, y);
						if (s == 0 && kind == 1) s = 1;
					}
					bool want = holds(rel, s) != neg, got = holds_cases(cs, pt);
					SIM_CHECK(want == got, "wrong-comparison", "the result of the substitution " + std::string(got ? "holds" : "does not hold") + " at " + show(pt));
					reach("comparison");
				}
			}
		}
		vres[t].reset();
	}
	void op(int t, int, Rng& r) override {
		failed = false;
		int k = (int)r.below(20);
		if (k < 2) construct(t, r);
		else if (k < 5) arithmetic(t, r);
		else if (k < 6) observe_expr(t, r);
		else if (k < 7) evaluate(t, r);
		else if (k < 8) partial(t, r);
		else if (k < 10) into_poly(t, r);
		else if (k < 13) find_zeros(t, r);
		else if (k < 18) into_constraint(t, r);
		else if (k < 19) into_comparison(t, r);
		else {
			Co n;
			make_con(r, n);
			std::lock_guard<std::mutex> g(mx);
			Quiet q;
			std::swap(cons[r.below(cons.size())], n);
		}
		std::lock_guard<std::mutex> g(mx);
		Quiet q;
		state(mix(pm_hash(exprs[0].x.c), pm_hash(cons[0].x)));
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

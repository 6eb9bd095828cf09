// Polynomial arithmetic against exact rational arithmetic, on several threads sharing the term and monomial stores.
// build-flags: -DNDEBUG
// (the consistency assertions of the library allocate inside noexcept functions; the harness checks the normal form itself)
#include "poly_model.h"
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/polynomialfunctions/Content.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Division.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/PrimitivePart.h>
#include <carl/core/polynomialfunctions/Quotient.h>
#include <carl/core/polynomialfunctions/Remainder.h>
#include <carl/core/polynomialfunctions/SPolynomial.h>
#include <carl/core/polynomialfunctions/Substitution.h>
#include <carl/core/polynomialfunctions/to_univariate_polynomial.h>

using namespace sim;
using carl::Monomial;
using carl::Variable;
using UPoly = carl::UnivariatePolynomial<Poly>;
using UQ = carl::UnivariatePolynomial<Q>;

namespace sim { const char* const harness_name = "poly"; }

namespace {
struct Slot {
	Poly p;
	PM x;
};

struct H : Harness {
	std::size_t nvars = 3, nslots = 5, nconst = 2;
	unsigned maxdeg = 3, maxterms = 4;
	PolyVars pv;
	std::vector<Slot> slots[MAXT];
	std::vector<Slot> consts; // read by all threads, never changed
	std::vector<Slot> shared; // exchanged under a lock
	std::mutex shared_mutex;

	void configure(Rng& r, Config& c, bool faults) override {
		nvars = r.range(1, 4);
		maxdeg = (unsigned)r.range(1, 4);
		maxterms = (unsigned)r.range(1, 5);
		nslots = r.range(2, 6);
		c.ntasks = r.chance(0.35) ? 1 : (int)r.range(2, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(3, c.ntasks == 1 ? 40 : 12);
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.003, 0.02});
			c.rate[F_STALL] = 0.01;
		}
	}
	void setup(Rng& r) override {
		for (std::size_t i = 0; i < nvars; ++i) {
			Variable v = carl::freshRealVariable();
			Quiet q;
			pv.vars.push_back(v);
		}
		{
			Quiet q;
			for (auto& s : slots) s.resize(nslots);
			consts.resize(nconst);
			shared.resize(2);
		}
		for (auto& s : consts) {
			PM x;
			{ Quiet q; x = pm_random(r, nvars, maxdeg, maxterms); }
			Poly p = build(r, x, 0);
			Quiet q;
			s.p = std::move(p);
			s.x = x;
		}
		// first use of function-local objects
		Poly a(pv.vars[0]), b(pv.vars[0]);
		b += Q(1);
		SIM_CHECK(!(a == b), "wrong-result", "x == x + 1");
	}
	Monomial::Arg mono(const Exps& e) {
		std::vector<std::pair<Variable, carl::exponent>> c;
		for (std::size_t i = 0; i < nvars; ++i) if (e[i]) c.emplace_back(pv.vars[i], e[i]);
		if (c.empty()) return nullptr;
		return carl::createMonomial(std::move(c));
	}
	PTerm term(const Exps& e, const Q& c) {
		Monomial::Arg m = mono(e);
		return PTerm(c, m);
	}
	Poly build(Rng& r, const PM& x, int how) {
		std::vector<std::pair<Exps, Q>> ts;
		{
			Quiet q;
			for (auto& t : x) ts.push_back(t);
			for (std::size_t i = ts.size(); i > 1; --i) std::swap(ts[i - 1], ts[r.below(i)]);
			if (how == 1 && !ts.empty()) { // repeated and cancelling terms
				auto t = ts[r.below(ts.size())];
				ts.push_back({t.first, Q(7)});
				ts.insert(ts.begin(), {t.first, Q(-7)});
			}
		}
		switch (how) {
		case 0: case 1: {
			std::vector<PTerm> v;
			for (auto& t : ts) v.push_back(term(t.first, t.second));
			if (how == 1 || r.chance(0.5)) return Poly(std::move(v));
			return Poly(v, false, false);
		}
		case 2: {
			Poly p;
			for (auto& t : ts) p += term(t.first, t.second);
			return p;
		}
		case 3: {
			Poly p;
			for (auto& t : ts) p -= term(t.first, -t.second);
			return p;
		}
		case 4: { // by multiplication and addition of variables
			Poly p;
			for (auto& t : ts) {
				Poly f(t.second);
				for (std::size_t i = 0; i < nvars; ++i) for (unsigned k = 0; k < t.first[i]; ++k) f *= pv.vars[i];
				p += f;
			}
			return p;
		}
		default: {
			std::vector<Poly> v;
			v.emplace_back();
			for (auto& t : ts) v.emplace_back(term(t.first, t.second));
			return Poly(Poly::ConstructorOperation::ADD, v);
		}
		}
	}
	void check_queries(const Poly& p, const PM& x, std::size_t v) {
		SIM_CHECK(p.nrTerms() == x.size(), "wrong-result", "nrTerms of " << pm_show(x));
		SIM_CHECK(carl::isZero(p) == x.empty(), "wrong-result", "isZero of " << pm_show(x));
		unsigned td = pm_deg(x);
		SIM_CHECK(p.totalDegree() == td, "wrong-result", "total degree " << p.totalDegree() << " of " << pm_show(x));
		SIM_CHECK(carl::total_degree(p) == td, "wrong-result", "total degree " << carl::total_degree(p) << " of " << pm_show(x));
		SIM_CHECK(p.degree(pv.vars[v]) == pm_deg(x, v), "wrong-result", "degree of " << pm_show(x));
		SIM_CHECK(p.has(pv.vars[v]) == (pm_deg(x, v) > 0), "wrong-result", "has(v" << v << ") of " << pm_show(x));
		SIM_CHECK(p.isConstant() == (td == 0), "wrong-result", "isConstant of " << pm_show(x));
		SIM_CHECK(p.isLinear() == (td <= 1), "wrong-result", "isLinear of " << pm_show(x));
		SIM_CHECK(p.isNumber() == (td == 0), "wrong-result", "isNumber of " << pm_show(x));
		auto ci = x.find(Exps{});
		SIM_CHECK(p.constantPart() == (ci == x.end() ? Q(0) : ci->second), "wrong-result", "constant part of " << pm_show(x));
		SIM_CHECK(p.hasConstantTerm() == (ci != x.end()), "wrong-result", "hasConstantTerm of " << pm_show(x));
		SIM_CHECK(carl::isOne(p) == (x == pm_const(1)), "wrong-result", "isOne of " << pm_show(x));
		std::size_t used = 0;
		for (std::size_t i = 0; i < nvars; ++i) used += pm_deg(x, i) > 0;
		auto vars = carl::variables(p);
		SIM_CHECK(vars.size() == used, "wrong-result", "variables of " << pm_show(x));
		for (std::size_t i = 0; i < nvars; ++i) SIM_CHECK(vars.has(pv.vars[i]) == (pm_deg(x, i) > 0), "wrong-result", "variables of " << pm_show(x));
		SIM_CHECK(p.isUnivariate() == (used <= 1), "wrong-result", "isUnivariate of " << pm_show(x));
		if (!x.empty()) {
			Exps l = pm_lead(x);
			SIM_CHECK(p.lcoeff() == x.at(l) && pm_exps(pv, p.lmon()) == l, "wrong-result", "leading term of " << pm_show(x));
		}
	}
	/// where and how a variable occurs
	void check_info(const Poly& p, const PM& x, std::size_t v) {
		auto info = p.template getVarInfo<true>(pv.vars[v]);
		auto infos = p.template getVarInfo<false>();
		Quiet q;
		std::size_t occ = 0, low = 0;
		std::map<std::size_t, PM> cs;
		for (auto& m : x) {
			Exps e = m.first;
			std::size_t d = e[v];
			if (d > 0) { ++occ; low = low == 0 ? d : std::min(low, d); }
			e[v] = 0;
			pm_add(cs[d], e, m.second);
		}
		SIM_CHECK(info.occurence() == occ && info.maxDegree() == pm_deg(x, v) && info.minDegree() == low, "wrong-result", "occurrences of v" << v << " in " << pm_show(x));
		auto* one = infos.getVarInfo(pv.vars[v]);
		SIM_CHECK((one != nullptr) == (occ > 0) && infos.occurs(pv.vars[v]) == (occ > 0), "wrong-result", "occurrence of v" << v << " in " << pm_show(x));
		if (one) SIM_CHECK(one->occurence() == occ && one->maxDegree() == pm_deg(x, v) && one->minDegree() == low, "wrong-result", "occurrences of v" << v << " in " << pm_show(x));
		for (auto& c : cs) {
			auto it = info.coeffs().find(c.first);
			if (it == info.coeffs().end()) SIM_CHECK(c.first == 0, "wrong-result", "no coefficient of v" << v << "^" << c.first << " in " << pm_show(x));
			else SIM_CHECK(pm_read(pv, it->second, "coefficient") == c.second, "wrong-result", "coefficient of v" << v << "^" << c.first << " in " << pm_show(x));
		}
	}
	/// quotients, roots and comparisons of single terms
	void check_terms(Rng& r, const Exps& ea, const Q& ca, const PM& other, std::size_t v) {
		Exps eb{}, ec{};
		Q cb(1), cc = ca;
		bool square = r.chance(0.5);
		{
			Quiet q;
			if (!other.empty()) { eb = other.begin()->first; cb = other.begin()->second; }
			if (r.chance(0.5)) for (std::size_t i = 0; i < nvars; ++i) eb[i] = (unsigned)r.below(ea[i] + 1);
			if (r.chance(0.2)) { eb = Exps{}; eb[v] = 1; cb = 1; }
			if (r.chance(0.2)) { eb = ea; if (r.chance(0.5)) cb = ca; }
			if (cb == 0) cb = 1;
			if (cc == 0) cc = 2;
			for (std::size_t i = 0; i < nvars; ++i) ec[i] = square ? 2 * ea[i] : ea[i];
			if (square) cc *= cc;
		}
		PTerm a = term(ea, cc), b = term(eb, cb), res;
		Monomial::Arg mb = mono(eb);
		Variable var = pv.vars[v];
		auto is = [&](const PTerm& x, const Exps& e, const Q& c) { Quiet q; return x.coeff() == c && pm_exps(pv, x.monomial()) == e; };
		bool div = true;
		Exps eq{}, ev = ea;
		for (std::size_t i = 0; i < nvars; ++i) { if (ea[i] < eb[i]) div = false; eq[i] = ea[i] - eb[i]; }
		bool ok = a.divide(b, res);
		SIM_CHECK(ok == div && (!ok || is(res, eq, cc / cb)), "wrong-result", "quotient of the terms " << pm_show(pm_term(ea, cc)) << " and " << pm_show(pm_term(eb, cb)));
		res = PTerm();
		ok = a.divide(mb, res);
		SIM_CHECK(ok == div && (!ok || is(res, eq, cc)), "wrong-result", "quotient of the term " << pm_show(pm_term(ea, cc)) << " by " << pm_show(pm_term(eb, 1)));
		if (ev[v] > 0) --ev[v];
		for (int k = 0; k < 2; ++k) {
			res = PTerm();
			ok = k ? a.divide(var, res) : carl::try_divide(a, var, res);
			SIM_CHECK(ok == (ea[v] > 0) && (!ok || is(res, ev, cc)), "wrong-result", "quotient of the term " << pm_show(pm_term(ea, cc)) << " by v" << v);
		}
		PTerm s = term(ec, cc), root;
		bool even = true;
		Q rc;
		for (std::size_t i = 0; i < nvars; ++i) even &= ec[i] % 2 == 0;
		if (s.sqrt(root)) SIM_CHECK(even && is(root * root, ec, cc), "wrong-result", "square root of the term " << pm_show(pm_term(ec, cc)));
		else SIM_CHECK(!square, "wrong-result", "no square root of the term " << pm_show(pm_term(ec, cc)));
		// comparisons: like those of the operands made terms
		const char* bad = "wrong-result";
		auto cmp = [&](const PTerm& x, const auto& y, const PTerm& ty, const char* kind) {
			bool lt = x < ty, gt = ty < x, eqv = x.coeff() == ty.coeff() && x.monomial() == ty.monomial();
			SIM_CHECK(int(lt) + int(gt) + int(eqv) == 1, bad, "order of terms");
			SIM_CHECK((x < y) == lt && (x > y) == gt && (x <= y) == !gt && (x >= y) == !lt && (x == y) == eqv && (x != y) == !eqv, bad, "comparison of a term with a " << kind);
			SIM_CHECK((y > x) == lt && (y < x) == gt && (y >= x) == !gt && (y <= x) == !lt && (y == x) == eqv && (y != x) == !eqv, bad, "comparison of a " << kind << " with a term");
		};
		PTerm one = term(eb, 1);
		cmp(a, b, b, "term");
		cmp(b, a, a, "term");
		if (mb) { cmp(a, mb, one, "monomial"); cmp(b, mb, one, "monomial"); }
		PTerm tv(var), tc(cc);
		cmp(a, var, tv, "variable");
		cmp(b, var, tv, "variable");
		cmp(a, cc, tc, "number");
		cmp(b, cb, PTerm(cb), "number");
		// sums of comparisons with polynomials
		Poly pb(b), zero(PTerm(Q(0)));
		SIM_CHECK(carl::isZero(zero) && zero.nrTerms() == 0, bad, "polynomial of the zero term");
		SIM_CHECK((pb == b) && (b == pb) && (pb == a) == (a == b) && (a == pb) == (a == b), bad, "comparison of a polynomial and a term");
		SIM_CHECK((pb == var) == (b == var) && (var == pb) == (b == var) && (pb != var) == (b != var), bad, "comparison of a polynomial and a variable");
		SIM_CHECK((pb == cc) == (b == cc) && (cc == pb) == (b == cc) && (pb != cc) == (b != cc), bad, "comparison of a polynomial and a number");
		if (mb) SIM_CHECK((pb == mb) == (b == mb) && (mb == pb) == (b == mb), bad, "comparison of a polynomial and a monomial");
	}
	/// every polynomial that is held still has its value
	void check_own(int t) {
		Quiet q;
		std::uint64_t h = 0;
		for (auto& s : slots[t]) { pm_check(pv, s.p, s.x, "held polynomial"); h = mix(h, pm_hash(s.x)); }
		state(h);
	}
	void op(int t, int, Rng& r) override {
		std::vector<Slot>& S = slots[t];
		std::size_t ia = r.below(nslots), ib = r.below(nslots), d = r.below(nslots), v = r.below(nvars);
		const Slot& A = r.chance(0.2) ? consts[r.below(nconst)] : S[ia];
		const Slot& B = r.chance(0.2) ? consts[r.below(nconst)] : S[ib];
		const Poly &pa = A.p, &pb = B.p;
		Variable var = pv.vars[v];
		Poly res;
		PM want, xa, xb, xr;
		std::map<std::size_t, PM> sub;
		std::vector<Q> pt;
		Q c;
		Exps e{};
		bool store = true, failed = false, inplace = false;
		unsigned n = (unsigned)r.range(0, 3);
		{
			Quiet q;
			xa = A.x;
			xb = B.x;
			xr = pm_random(r, nvars, maxdeg, maxterms);
			c = pm_rational(r, true);
			for (std::size_t i = 0; i < PM_VARS; ++i) pt.push_back(pm_rational(r, true));
			unsigned dg = (unsigned)r.range(0, (int)maxdeg);
			for (unsigned k = 0; k < dg; ++k) ++e[r.below(nvars)];
		}
		bool big = xa.size() * xb.size() > 48 || pm_deg(xa) + pm_deg(xb) > 12;
		int k = (int)r.below(33);
		if (r.chance(0.25) || (xa.empty() && r.chance(0.7))) k = 0;
		const char* what = "";
		Poly target; // operand of in-place operations
		try {
			Faulty f;
			switch (k) {
			case 0: {
				what = "construction";
				{ Quiet q; want = xr; }
				res = build(r, xr, (int)r.below(6));
				break;
			}
			case 1: {
				what = "sum";
				{ Quiet q; want = xa + xb; }
				res = pa + pb;
				break;
			}
			case 2: {
				what = "difference";
				{ Quiet q; want = xa - xb; }
				res = pa - pb;
				break;
			}
			case 3: case 4: {
				what = "product";
				if (big) { store = false; break; }
				{ Quiet q; want = xa * xb; }
				res = pa * pb;
				break;
			}
			case 5: {
				what = "negation";
				{ Quiet q; want = pm_scale(xa, -1); }
				res = -pa;
				break;
			}
			case 6: {
				what = "power";
				if (xa.size() > 5 || pm_deg(xa) * n > 12) { store = false; break; }
				if (xa.empty() && n == 0) { store = false; break; } // 0^0
				{ Quiet q; want = pm_pow(xa, n); }
				res = r.chance(0.8) ? carl::pow(pa, n) : carl::pow_naive(pa, n);
				break;
			}
			case 7: {
				what = "derivative";
				{ Quiet q; want = pm_derivative(xa, v, n); }
				res = carl::derivative(pa, var, n);
				break;
			}
			case 8: {
				what = "substitution of one variable";
				if (pm_deg(xa, v) * pm_deg(xb) > 8 || xb.size() > 4 || xa.size() > 8) { store = false; break; }
				{ Quiet q; sub[v] = xb; want = pm_subst(xa, sub); }
				if (r.chance(0.5)) res = carl::substitute(pa, var, pb);
				else {
					res = pa;
					carl::substitute_inplace(res, var, pb);
				}
				break;
			}
			case 9: {
				what = "substitution of numbers";
				std::map<Variable, Q> m;
				{
					Quiet q;
					for (std::size_t i = 0; i < nvars; ++i) if (r.chance(0.5)) sub[i] = pm_const(pt[i]);
					want = pm_subst(xa, sub);
				}
				for (auto& s : sub) m[pv.vars[s.first]] = pt[s.first];
				res = carl::substitute(pa, m);
				break;
			}
			case 10: {
				what = "simultaneous substitution";
				unsigned dg = 0;
				{
					Quiet q;
					for (std::size_t i = 0; i < nvars; ++i) if (r.chance(0.6)) {
						const Slot& s = S[r.below(nslots)];
						sub[i] = r.chance(0.2) ? PM() : s.x;
						if (s.x.size() > 3) { store = false; break; }
						dg = std::max(dg, pm_deg(s.x));
					}
					if (pm_deg(xa) * dg > 8 || xa.size() > 6) store = false;
				}
				if (!store) break;
				{ Quiet q; want = pm_subst(xa, sub); }
				std::map<Variable, Poly> m;
				for (auto& s : sub) m[pv.vars[s.first]] = build(r, s.second, 0);
				res = carl::substitute(pa, m);
				break;
			}
			case 11: {
				what = "substitution of terms";
				if (pm_deg(xa) * maxdeg > 12) { store = false; break; }
				if (c == 0) c = 1;
				{ Quiet q; sub[v] = pm_term(e, c); want = pm_subst(xa, sub); }
				std::map<Variable, PTerm> m;
				m[var] = term(e, c);
				res = carl::substitute(pa, m);
				break;
			}
			case 12: {
				what = "evaluation";
				Q w;
				{ Quiet q; w = pm_eval(xa, pt); }
				std::map<Variable, Q> m;
				for (std::size_t i = 0; i < nvars; ++i) m[pv.vars[i]] = pt[i];
				Q got = carl::evaluate(pa, m);
				SIM_CHECK(got == w, "wrong-result", "evaluation of " << pm_show(xa) << " gives " << got << ", expected " << w);
				store = false;
				break;
			}
			case 13: {
				what = "exact quotient";
				if (big || xb.empty()) { store = false; break; }
				Poly prod = pa * pb;
				{ Quiet q; want = xa; }
				if (r.chance(0.5)) res = carl::quotient(prod, pb);
				else {
					bool ok = carl::try_divide(prod, pb, res);
					SIM_CHECK(ok, "wrong-result", "exact division of (" << pm_show(xa) << ")*(" << pm_show(xb) << ") by the second fails");
				}
				break;
			}
			case 14: {
				what = "division with remainder";
				if (xb.empty() || xa.size() > 12) { store = false; break; }
				PM xq, xrem;
				{ Quiet q; pm_divmod(xa, xb, xq, xrem); }
				int w = (int)r.below(3);
				if (w == 0) {
					{ Quiet q; want = xrem; }
					res = carl::remainder(pa, pb);
				} else if (w == 1) {
					{ Quiet q; want = xq; }
					res = carl::quotient(pa, pb);
				} else {
					Poly quo;
					bool ok = carl::try_divide(pa, pb, quo);
					SIM_CHECK(ok == xrem.empty(), "wrong-result", "divisibility of " << pm_show(xa) << " by " << pm_show(xb) << " reported as " << ok);
					if (!ok) { store = false; break; }
					{ Quiet q; want = xq; }
					res = std::move(quo);
				}
				break;
			}
			case 15: {
				what = "sum with a term";
				{ Quiet q; want = xa + pm_term(e, c); }
				PTerm tm = term(e, c);
				res = r.chance(0.5) ? pa + tm : tm + pa;
				break;
			}
			case 16: {
				what = "difference with a term";
				{ Quiet q; want = xa - pm_term(e, c); }
				res = pa - term(e, c);
				break;
			}
			case 17: {
				what = "product with a term";
				{ Quiet q; want = xa * pm_term(e, c); }
				if (pm_deg(want) > 12) { store = false; break; }
				PTerm tm = term(e, c);
				res = r.chance(0.5) ? pa * tm : tm * pa;
				break;
			}
			case 18: {
				what = "sum with a number";
				{ Quiet q; want = xa + pm_const(c); }
				res = r.chance(0.5) ? pa + c : c + pa;
				break;
			}
			case 19: {
				what = "difference with a number or variable";
				if (r.chance(0.5)) {
					{ Quiet q; want = xa - pm_const(c); }
					res = pa - c;
				} else {
					{ Quiet q; want = xa - pm_var(v); }
					res = pa - var;
				}
				break;
			}
			case 20: {
				what = "product with a number";
				{ Quiet q; want = pm_scale(xa, c); }
				res = r.chance(0.5) ? pa * c : c * pa;
				break;
			}
			case 21: {
				what = "quotient by a number";
				if (c == 0) { store = false; break; }
				{ Quiet q; want = pm_scale(xa, 1 / c); }
				if (r.chance(0.5)) res = carl::divide(pa, c);
				else { res = pa; res /= c; }
				break;
			}
			case 22: {
				what = "sum with a monomial";
				if (pm_tdeg(e) == 0) { store = false; break; }
				auto m = mono(e);
				if (r.chance(0.5)) {
					{ Quiet q; want = xa + pm_term(e, 1); }
					res = pa + m;
				} else {
					{ Quiet q; want = xa - pm_term(e, 1); }
					res = pa - m;
				}
				break;
			}
			case 23: {
				what = "product with a monomial or variable";
				if (pm_deg(xa) > 8) { store = false; break; }
				if (r.chance(0.5) && pm_tdeg(e) > 0) {
					{ Quiet q; want = xa * pm_term(e, 1); }
					res = pa * mono(e);
				} else {
					{ Quiet q; want = xa * pm_var(v); }
					res = pa * var;
				}
				break;
			}
			case 24: {
				what = "in-place arithmetic";
				target = pa;
				inplace = true;
				bool self = r.chance(0.2);
				const Poly& o = self ? target : pb;
				const PM& xo = self ? xa : xb;
				int w = (int)r.below(3);
				if (w == 2 && (big || (self && xa.size() > 6) || (self && pm_deg(xa) > 6))) { store = false; break; }
				{ Quiet q; want = w == 0 ? xa + xo : w == 1 ? xa - xo : xa * xo; }
				if (w == 0) target += o;
				else if (w == 1) target -= o;
				else target *= o;
				res = std::move(target);
				inplace = false;
				break;
			}
			case 25: {
				what = "subtractProduct";
				if (c == 0) c = 2;
				{ Quiet q; want = xa - pm_term(e, c) * xb; }
				if (pm_deg(want) > 12) { store = false; break; }
				res = pa;
				res.subtractProduct(term(e, c), pb);
				break;
			}
			case 26: {
				what = "addTerm";
				if (c == 0) c = 3;
				{ Quiet q; want = xa + pm_term(e, c); }
				res = pa;
				res.addTerm(term(e, c));
				break;
			}
			case 27: {
				what = "normalisation";
				if (xa.empty()) { store = false; break; }
				int w = (int)r.below(5);
				{
					Quiet q;
					Exps l = pm_lead(xa);
					mpz_class num = 0, den = 1;
					for (auto& tt : xa) { num = gcd(num, tt.second.get_num()); den = lcm(den, tt.second.get_den()); }
					Q fac(den, num);
					fac.canonicalize();
					if (w == 0) want = pm_scale(xa, 1 / xa[l]);
					else if (w == 1) want = pm_scale(xa, xa[l] < 0 ? Q(-fac) : fac);
					else if (w == 2) want = pm_scale(xa, fac);
					else if (w == 3) { want = xa; want.erase(l); }
					else { want.clear(); for (auto& tt : xa) if (tt.first[v] == n) { Exps ee = tt.first; ee[v] = 0; pm_add(want, ee, tt.second); } }
				}
				if (w == 0) res = pa.normalize();
				else if (w == 1) res = pa.coprimeCoefficients();
				else if (w == 2) res = pa.coprimeCoefficientsSignPreserving();
				else if (w == 3) {
					if (r.chance(0.5)) res = pa.tail(r.chance(0.5));
					else { res = pa; res.stripLT(); }
				} else res = pa.coeff(var, n);
				break;
			}
			case 28: {
				what = "S-polynomial";
				if (xa.empty() || xb.empty() || big) { store = false; break; }
				{
					Quiet q;
					Exps la = pm_lead(xa), lb = pm_lead(xb), l = pm_lcm(la, lb);
					want = xa * pm_term(pm_quot(l, la), 1 / xa[la]) - xb * pm_term(pm_quot(l, lb), 1 / xb[lb]);
				}
				res = carl::SPolynomial(pa.normalize(), pb.normalize());
				break;
			}
			case 29: { // conversion to a polynomial in one variable and back
				what = "univariate representation";
				if (xa.size() > 12 || big) { store = false; break; }
				UPoly u = carl::to_univariate_polynomial(pa, var);
				SIM_CHECK(xa.empty() || u.degree() == pm_deg(xa, v), "wrong-result", "degree of univariate view of " << pm_show(xa));
				int w = (int)r.below(6);
				if (w == 0) {
					{ Quiet q; want = xa; }
					res = Poly(u);
				} else if (w == 1) {
					{ Quiet q; want = pm_derivative(xa, v, n); }
					res = Poly(carl::derivative(u, n));
				} else if (w == 2) {
					{ Quiet q; want = xa + xb; }
					res = Poly(u + carl::to_univariate_polynomial(pb, var));
				} else if (w == 3) {
					{ Quiet q; want = xa - xb; }
					res = Poly(u - carl::to_univariate_polynomial(pb, var));
				} else if (w == 4) {
					{ Quiet q; want = xa * xb; }
					res = Poly(u * carl::to_univariate_polynomial(pb, var));
				} else {
					if (pm_deg(xa, v) * pm_deg(xb) > 8 || xb.size() > 4) { store = false; break; }
					{ Quiet q; sub[v] = xb; want = pm_subst(xa, sub); }
					carl::substitute_inplace(u, var, pb);
					res = Poly(u);
				}
				break;
			}
			case 30: {
				what = "comparison";
				bool eq = pa == pb, ne = pa != pb;
				SIM_CHECK(eq == (xa == xb) && ne == (xa != xb), "wrong-result", "equality of " << pm_show(xa) << " and " << pm_show(xb));
				// ordering and hashing sort the terms of their arguments: only on own copies
				Poly ca(pa), cb(pb);
				bool lt = ca < cb, gt = ca > cb, le = ca <= cb;
				SIM_CHECK(int(lt) + int(gt) + int(xa == xb) == 1 && le == (lt || xa == xb), "wrong-result", "ordering of " << pm_show(xa) << " and " << pm_show(xb));
				{ Quiet q; pm_check(pv, ca, xa, "polynomial after comparison"); }
				if (xa == xb) SIM_CHECK(std::hash<Poly>()(ca) == std::hash<Poly>()(cb), "wrong-result", "hash differs for equal polynomials " << pm_show(xa));
				Q k0 = c;
				SIM_CHECK((pa == k0) == (xa == pm_const(k0)), "wrong-result", "equality of " << pm_show(xa) << " and " << k0);
				SIM_CHECK((pa == term(e, c)) == (xa == pm_term(e, c)), "wrong-result", "equality of " << pm_show(xa) << " and a term");
				store = false;
				break;
			}
			case 31: {
				what = "terms";
				check_terms(r, e, c, xr, v);
				store = false;
				break;
			}
			default: { // exchange with other threads
				std::size_t i = r.below(shared.size());
				std::lock_guard<std::mutex> l(shared_mutex);
				Poly copy(pa);
				Poly old(shared[i].p);
				{
					Quiet q;
					want = shared[i].x;
					std::swap(shared[i].p, copy);
					shared[i].x = xa;
				}
				what = "exchange";
				res = std::move(old);
				break;
			}
			}
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "exception", "bad_alloc without allocation failure in " << what);
			reach("alloc-failure-survived");
			failed = true;
		}
		SIM_LOG("t" << t << " " << what << " a=" << pm_show(xa) << " b=" << pm_show(xb) << (failed ? " -> bad_alloc" : ""));
		{
			Quiet q;
			if (failed && inplace) pm_read(pv, target, "target of a failed operation"); // some valid polynomial
			pm_check(pv, pa, xa, "argument");
			pm_check(pv, pb, xb, "argument");
		}
		if (!failed && store) {
			Quiet q;
			pm_check(pv, res, want, what);
			check_queries(res, want, v);
			observe(pm_hash(want));
		}
		if (!failed && store && r.chance(0.3)) check_info(res, want, v);
		if (!failed && store && want.size() <= 16 && pm_deg(want) <= 12) {
			Quiet q;
			std::swap(S[d].p, res);
			S[d].x = want;
		}
		check_own(t);
	}
	void finish() override {
		for (auto& s : consts) { Quiet q; pm_check(pv, s.p, s.x, "shared polynomial"); }
		for (auto& s : shared) { Quiet q; pm_check(pv, s.p, s.x, "exchanged polynomial"); }
		for (auto& v : slots) for (auto& s : v) { Quiet q; pm_check(pv, s.p, s.x, "held polynomial"); }
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

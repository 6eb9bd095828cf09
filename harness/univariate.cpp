// Polynomials in one main variable, over the rationals, the integers and other polynomials, on several threads
// sharing the monomial and term stores: arithmetic, division, common divisors, real root counting, elimination.
// build-flags: -DNDEBUG
// (the consistency assertions of the library allocate inside noexcept functions; the harness checks the normal form itself)
#include "poly_model.h"
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Division.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/Factorization.h>
#include <carl/core/polynomialfunctions/Factorization_univariate.h>
#include <carl/core/polynomialfunctions/GCD_univariate.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/PrimitivePart.h>
#include <carl/core/polynomialfunctions/Remainder.h>
#include <carl/core/polynomialfunctions/Representation.h>
#include <carl/core/polynomialfunctions/Resultant.h>
#include <carl/core/polynomialfunctions/RootBounds.h>
#include <carl/core/polynomialfunctions/RootCounting.h>
#include <carl/core/polynomialfunctions/RootElimination.h>
#include <carl/core/polynomialfunctions/SignVariations.h>
#include <carl/core/polynomialfunctions/SquareFreePart.h>
#include <carl/core/polynomialfunctions/SturmSequence.h>
#include <carl/core/polynomialfunctions/Substitution.h>
#include <carl/core/polynomialfunctions/to_univariate_polynomial.h>

using namespace sim;
using carl::Variable;
using Z = mpz_class;
using UP = carl::UnivariatePolynomial<Poly>;
using UQ = carl::UnivariatePolynomial<Q>;
using UZ = carl::UnivariatePolynomial<Z>;
using Iv = carl::Interval<Q>;

namespace sim { const char* const harness_name = "univariate"; }

namespace {
// ---- reference: coefficient vectors without leading zeroes
using V = std::vector<Q>;
void trim(V& a) { while (!a.empty() && a.back() == 0) a.pop_back(); }
V v_add(const V& a, const V& b, const Q& f = 1) {
	V r(std::max(a.size(), b.size()));
	for (std::size_t i = 0; i < a.size(); ++i) r[i] += a[i];
	for (std::size_t i = 0; i < b.size(); ++i) r[i] += f * b[i];
	trim(r);
	return r;
}
V v_scale(const V& a, const Q& c) { V r = a; for (auto& x : r) x *= c; trim(r); return r; }
V v_mul(const V& a, const V& b) {
	if (a.empty() || b.empty()) return V();
	V r(a.size() + b.size() - 1);
	for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
	return r;
}
V v_pow(const V& a, unsigned n) { V r{Q(1)}; while (n--) r = v_mul(r, a); return r; }
void v_divmod(const V& a, const V& b, V& q, V& r) {
	r = a;
	q.assign(a.size() >= b.size() ? a.size() - b.size() + 1 : 0, Q(0));
	while (r.size() >= b.size() && !r.empty()) {
		Q f = r.back() / b.back();
		std::size_t d = r.size() - b.size();
		q[d] = f;
		for (std::size_t i = 0; i < b.size(); ++i) r[d + i] -= f * b[i];
		trim(r);
	}
	trim(q);
}
V v_rem(const V& a, const V& b) { V q, r; v_divmod(a, b, q, r); return r; }
V v_quo(const V& a, const V& b) { V q, r; v_divmod(a, b, q, r); return q; }
V v_monic(const V& a) { return a.empty() ? a : v_scale(a, 1 / a.back()); }
V v_gcd(V a, V b) { while (!b.empty()) { V r = v_rem(a, b); a = v_monic(b); b = r; } return v_monic(a); }
V v_derive(const V& a, unsigned n = 1) {
	V r = a;
	while (n--) {
		if (r.empty()) break;
		for (std::size_t i = 1; i < r.size(); ++i) r[i - 1] = r[i] * Q((unsigned long)i);
		r.pop_back();
	}
	trim(r);
	return r;
}
Q v_eval(const V& a, const Q& x) { Q r = 0; for (std::size_t i = a.size(); i-- > 0;) r = r * x + a[i]; return r; }
bool v_proportional(const V& a, const V& b) { return a.empty() ? b.empty() : !b.empty() && v_monic(a) == v_monic(b); }
bool v_squarefree(const V& a) { return a.size() < 2 || v_gcd(a, v_derive(a)).size() == 1; }
std::string v_show(const V& a) {
	std::string s = "[";
	for (auto& x : a) s += (s.size() > 1 ? " " : "") + x.get_str();
	return s + "]";
}
std::uint64_t v_hash(const V& a) {
	std::uint64_t h = a.size();
	for (auto& x : a) h = mix(h, mix(x.get_num().get_ui() ^ (x < 0 ? 77 : 0), x.get_den().get_ui()));
	return h;
}
Q determinant(std::vector<std::vector<Q>> m) {
	Q d = 1;
	for (std::size_t c = 0; c < m.size(); ++c) {
		std::size_t p = c;
		while (p < m.size() && m[p][c] == 0) ++p;
		if (p == m.size()) return 0;
		if (p != c) { std::swap(m[p], m[c]); d = -d; }
		d *= m[c][c];
		for (std::size_t i = c + 1; i < m.size(); ++i) {
			if (m[i][c] == 0) continue;
			Q f = m[i][c] / m[c][c];
			for (std::size_t j = c; j < m.size(); ++j) m[i][j] -= f * m[c][j];
		}
	}
	return d;
}
/// Determinant of the Sylvester matrix; both arguments non-constant.
Q sylvester(const V& a, const V& b) {
	std::size_t n = a.size() - 1, k = b.size() - 1;
	std::vector<std::vector<Q>> m(n + k, std::vector<Q>(n + k));
	for (std::size_t i = 0; i < k; ++i) for (std::size_t j = 0; j <= n; ++j) m[i][i + j] = a[n - j];
	for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j <= k; ++j) m[k + i][i + j] = b[k - j];
	return determinant(std::move(m));
}

/// Real number whose order against rationals is known exactly: sign * sqrt(square).
struct Root {
	int sign;
	Q square;
	bool operator<(const Root& o) const { return sign != o.sign ? sign < o.sign : sign > 0 ? square < o.square : square > o.square; }
};
Root root_of(const Q& q) { return Root{sgn(q), q * q}; }

struct SlotQ { UQ p; V x; };
struct SlotP { UP p; PM x; std::size_t v; };

struct H : Harness {
	std::size_t nvars = 2, nslots = 4;
	unsigned maxdeg = 4, coeffdeg = 1, coeffterms = 2, pdeg = 2;
	Variable uv; // main variable of the polynomials with number coefficients
	PolyVars pv;
	std::vector<SlotQ> sq[MAXT], cq, xq;
	std::vector<SlotP> sp[MAXT], cp, xp;
	std::mutex exchange;

	void configure(Rng& r, Config& c, bool faults) override {
		nvars = r.range(1, 3);
		nslots = r.range(2, 4);
		maxdeg = (unsigned)r.range(1, 6);
		coeffdeg = (unsigned)r.range(0, 2);
		coeffterms = (unsigned)r.range(1, 2);
		pdeg = (unsigned)r.range(1, 4);
		c.ntasks = r.chance(0.35) ? 1 : (int)r.range(2, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(3, c.ntasks == 1 ? 30 : 10);
		if (r.chance(0.3)) c.preempt = false;
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.002, 0.01});
			c.rate[F_STALL] = 0.01;
		}
	}
	void setup(Rng& r) override {
		uv = carl::freshRealVariable();
		for (std::size_t i = 0; i < nvars; ++i) {
			Variable v = carl::freshRealVariable();
			Quiet q;
			pv.vars.push_back(v);
		}
		for (int t = 0; t < MAXT; ++t) for (std::size_t i = 0; i < nslots; ++i) {
			Quiet q;
			sq[t].push_back(SlotQ{UQ(uv), V()});
			sp[t].push_back(SlotP{UP(pv.vars[i % nvars]), PM(), i % nvars});
		}
		for (int i = 0; i < 2; ++i) {
			V x;
			PM y;
			std::size_t v = r.below(nvars);
			{ Quiet q; x = random_v(r); y = random_p(r, v); }
			UQ p = make(x, r);
			UP u = make(y, v);
			Quiet q;
			cq.push_back(SlotQ{p, x});
			xq.push_back(SlotQ{p, x});
			cp.push_back(SlotP{u, y, v});
			xp.push_back(SlotP{u, y, v});
		}
		// first use of function-local objects
		Poly a(pv.vars[0]), b(pv.vars[0]);
		b += Q(1);
		SIM_CHECK(!(a == b), "wrong-result", "x == x + 1");
		carl::constant_one<Poly>::get();
		carl::constant_zero<Poly>::get();
		carl::constant_one<Q>::get();
		carl::constant_zero<Q>::get();
	}
	// ---- random values (inside Quiet)
	Q coefficient(Rng& r) { return r.chance(0.3) ? Q(0) : pm_rational(r); }
	V random_v(Rng& r) {
		V x;
		unsigned d = (unsigned)r.range(0, (int)maxdeg + 1);
		for (unsigned i = 0; i < d; ++i) x.push_back(coefficient(r));
		trim(x);
		return x;
	}
	/// product of factors with known real roots
	V with_roots(Rng& r, std::map<Root, unsigned>& roots, bool repeat) {
		V x{pm_rational(r)};
		int n = (int)r.range(1, 4);
		for (int i = 0; i < n; ++i) {
			unsigned m = repeat && r.chance(0.4) ? (unsigned)r.range(2, 3) : 1;
			V f;
			int k = (int)r.below(5);
			if (k < 3) {
				Q a = r.chance(0.2) ? Q(0) : Q((long)r.range(-6, 6), (long)r.range(1, 4));
				a.canonicalize();
				if (!repeat && roots.count(root_of(a))) continue;
				f = V{-a, Q(1)};
				roots[root_of(a)] += m;
			} else if (k == 3) {
				Q s = (long)pick_from(r, {2.0, 3.0, 5.0});
				if (!repeat && roots.count(Root{1, s})) continue;
				f = V{-s, Q(0), Q(1)};
				roots[Root{1, s}] += m;
				roots[Root{-1, s}] += m;
			} else f = V{Q((long)r.range(1, 4)), Q(0), Q(1)};
			if (r.chance(0.4)) f = v_scale(f, Q((long)r.range(-3, -1)));
			x = v_mul(x, v_pow(f, m));
			if (x.size() > 9) break;
		}
		return x;
	}
	PM random_p(Rng& r, std::size_t v) {
		PM x;
		unsigned d = (unsigned)r.range(0, (int)pdeg + 1);
		for (unsigned i = 0; i < d; ++i) {
			if (r.chance(0.2)) continue;
			PM c;
			unsigned n = (unsigned)r.range(1, (int)coeffterms);
			for (unsigned k = 0; k < n; ++k) {
				Exps e{};
				unsigned g = nvars > 1 ? (unsigned)r.range(0, (int)coeffdeg) : 0;
				for (unsigned j = 0; j < g; ++j) { std::size_t w = r.below(nvars - 1); ++e[w >= v ? w + 1 : w]; }
				pm_add(c, e, r.chance(0.7) ? Q((long)r.range(-4, 4)) : pm_rational(r));
			}
			x = x + c * pm_var(v, i);
		}
		return x;
	}
	/// integer multiple has small outer coefficients (the search for linear factors tries their divisors one by one)
	static bool small(const V& x) {
		Z l = 1;
		for (auto& c : x) mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), c.get_den().get_mpz_t());
		std::size_t i = 0;
		while (x[i] == 0) ++i;
		return abs(x[i] * l) < 5000 && abs(x.back() * l) < 5000;
	}
	/// coefficient of the i-th power of v
	static PM coeff(const PM& x, std::size_t v, unsigned i) {
		PM c;
		for (auto& t : x) if (t.first[v] == i) { Exps e = t.first; e[v] = 0; pm_add(c, e, t.second); }
		return c;
	}
	/// all variables but v replaced by numbers
	static V specialise(const PM& x, std::size_t v, std::vector<Q> pt) {
		V r(pm_deg(x, v) + 1);
		pt[v] = 1;
		for (unsigned i = 0; i < r.size(); ++i) r[i] = pm_eval(coeff(x, v, i), pt);
		trim(r);
		return r;
	}
	// ---- library objects
	Poly poly(const PM& x) {
		std::vector<PTerm> ts;
		for (auto& t : x) {
			std::vector<std::pair<Variable, carl::exponent>> c;
			for (std::size_t i = 0; i < nvars; ++i) if (t.first[i]) c.emplace_back(pv.vars[i], t.first[i]);
			ts.emplace_back(t.second, c.empty() ? carl::Monomial::Arg() : carl::createMonomial(std::move(c)));
		}
		return Poly(std::move(ts));
	}
	UQ make(const V& x, Rng& r) {
		switch (r.below(4)) {
		case 0: return UQ(uv, x);
		case 1: {
			std::map<carl::uint, Q> m;
			for (std::size_t i = 0; i < x.size(); ++i) if (x[i] != 0) m.emplace(i, x[i]);
			if (m.empty()) return UQ(uv);
			return UQ(uv, m);
		}
		case 2: {
			UQ p(uv);
			for (std::size_t i = 0; i < x.size(); ++i) p += UQ(uv, x[i], i);
			return p;
		}
		default: {
			std::vector<Q> c(x);
			c.push_back(Q(0));
			return UQ(uv, std::move(c));
		}
		}
	}
	UP make(const PM& x, std::size_t v) {
		std::vector<Poly> c;
		for (unsigned i = 0; i <= pm_deg(x, v); ++i) {
			PM k;
			{ Quiet q; k = coeff(x, v, i); }
			c.push_back(poly(k));
		}
		return UP(pv.vars[v], c);
	}
	UP make_view(const PM& x, std::size_t v) { return carl::to_univariate_polynomial(poly(x), pv.vars[v]); }

	// ---- checks (inside Quiet)
	void check(const UQ& p, const V& want, const char* what) {
		SIM_CHECK(p.coefficients().empty() || p.coefficients().back() != 0, "normal-form", what << ": leading coefficient is zero");
		V got(p.coefficients().begin(), p.coefficients().end());
		SIM_CHECK(got == want, "wrong-result", what << ": got " << v_show(got) << ", expected " << v_show(want));
		SIM_CHECK(p.mainVar() == uv, "wrong-result", what << ": main variable changed");
	}
	PM read(const UP& p, std::size_t v, const char* what) {
		SIM_CHECK(p.mainVar() == pv.vars[v], "wrong-result", what << ": main variable changed");
		PM x;
		for (std::size_t i = 0; i < p.coefficients().size(); ++i) {
			PM c = pm_read(pv, p.coefficients()[i], what);
			SIM_CHECK(pm_deg(c, v) == 0, "normal-form", what << ": a coefficient contains the main variable: " << pm_show(c));
			x = x + c * pm_var(v, (unsigned)i);
		}
		SIM_CHECK(p.coefficients().empty() || !carl::isZero(p.coefficients().back()), "normal-form", what << ": leading coefficient is zero");
		return x;
	}
	void check(const UP& p, const PM& want, std::size_t v, const char* what) {
		PM got = read(p, v, what);
		SIM_CHECK(got == want, "wrong-result", what << ": got " << pm_show(got) << ", expected " << pm_show(want) << " in v" << v);
	}
	void check_own(int t) {
		Quiet q;
		std::uint64_t h = 0;
		for (auto& s : sq[t]) { check(s.p, s.x, "held polynomial"); h = mix(h, v_hash(s.x)); }
		for (auto& s : sp[t]) { check(s.p, s.x, s.v, "held polynomial"); h = mix(h, pm_hash(s.x)); }
		state(h);
	}
	void op(int t, int, Rng& r) override {
		if (r.chance(0.5)) op_number(t, r);
		else op_poly(t, r);
		check_own(t);
	}

	void op_number(int t, Rng& r) {
		auto& S = sq[t];
		const SlotQ& A = r.chance(0.2) ? cq[r.below(cq.size())] : S[r.below(nslots)];
		const SlotQ& B = r.chance(0.2) ? cq[r.below(cq.size())] : S[r.below(nslots)];
		const UQ &pa = A.p, &pb = B.p;
		std::size_t d = r.below(nslots);
		UQ res(uv);
		V xa, xb, xr, want;
		std::map<Root, unsigned> roots;
		Q c, pt;
		unsigned n = (unsigned)r.range(0, 3);
		bool store = true, failed = false;
		const char* what = "";
		int k = (int)r.below(24), w = (int)r.below(8);
		{
			Quiet q;
			xa = A.x;
			xb = B.x;
			if (r.chance(k == 18 ? 0.7 : 0.3) || (k >= 13 && k <= 17)) xr = with_roots(r, roots, k != 15 && r.chance(0.6));
			else xr = random_v(r);
			c = pm_rational(r, true);
			pt = pm_rational(r, true);
			if (r.chance(0.3) || (xa.empty() && r.chance(0.7))) k = 0;
		}
		bool big = xa.size() > 9 || xb.size() > 9;
		SIM_LOG("t" << t << " operation " << k << "/" << w << " a=" << v_show(xa) << " b=" << v_show(xb) << " c=" << v_show(xr) << " " << c << " " << pt);
		try {
			Faulty f;
			switch (k) {
			case 0: {
				what = "construction";
				{ Quiet q; want = xr; }
				res = make(xr, r);
				break;
			}
			case 1: case 2: {
				what = "sum or difference";
				{ Quiet q; want = v_add(xa, xb, w % 2 ? -1 : 1); }
				if (w == 0) res = pa + pb;
				else if (w == 1) res = pa - pb;
				else if (w % 2 == 0) { UQ p(pa); p += pb; res = std::move(p); }
				else { UQ p(pa); p -= pb; res = std::move(p); }
				break;
			}
			case 3: {
				what = "product";
				if (xa.size() + xb.size() > 12) { store = false; break; }
				{ Quiet q; want = v_mul(xa, xb); }
				if (w % 2) res = pa * pb;
				else { UQ p(pa); p *= pb; res = std::move(p); }
				break;
			}
			case 4: {
				what = "operation with a number";
				V vc;
				{ Quiet q; vc = V{c}; trim(vc); }
				switch (w) {
				case 0: { Quiet q; want = v_add(xa, vc); } res = pa + c; break;
				case 1: { Quiet q; want = v_add(xa, vc); } res = c + pa; break;
				case 2: { Quiet q; want = v_add(xa, vc, -1); } res = pa - c; break;
				case 3: { Quiet q; want = v_add(vc, xa, -1); } res = c - pa; break;
				case 4: { Quiet q; want = v_scale(xa, c); } res = pa * c; break;
				case 5: { Quiet q; want = v_scale(xa, c); } res = c * pa; break;
				case 6: if (c == 0) { store = false; break; } { Quiet q; want = v_scale(xa, 1 / c); } res = pa / c; break;
				default: { Quiet q; want = v_scale(xa, -1); } res = -pa; break;
				}
				break;
			}
			case 5: {
				what = "product with the main variable";
				{ Quiet q; want = v_mul(xa, V{Q(0), Q(1)}); }
				if (w % 3 == 0) res = pa * uv;
				else if (w % 3 == 1) res = uv * pa;
				else { UQ p(pa); p *= uv; res = std::move(p); }
				break;
			}
			case 6: {
				what = "power";
				if (xa.size() * n > 14) { store = false; break; }
				{ Quiet q; want = v_pow(xa, n); }
				res = w % 2 ? carl::pow(pa, n) : pa.pow(n);
				break;
			}
			case 7: case 8: {
				what = "division";
				if (xb.empty() || big) { store = false; break; }
				V quo, rem;
				{ Quiet q; v_divmod(xa, xb, quo, rem); want = w % 2 ? quo : rem; }
				if (w == 0) res = carl::remainder(pa, pb);
				else {
					auto dr = carl::divide(pa, pb);
					{ Quiet q; check(dr.quotient, quo, "quotient"); check(dr.remainder, rem, "remainder"); }
					res = w % 2 ? dr.quotient : dr.remainder;
				}
				reach("division");
				break;
			}
			case 9: {
				what = "greatest common divisor";
				if (xa.empty() || xb.empty() || big) { store = false; break; }
				bool common = w < 5 && !xr.empty() && xa.size() + xb.size() + 2 * xr.size() < 18;
				UQ pc = make(xr, r);
				UQ a = common ? pa * pc : pa, b = common ? pb * pc : pb;
				{ Quiet q; want = v_gcd(common ? v_mul(xa, xr) : xa, common ? v_mul(xb, xr) : xb); }
				res = carl::gcd(a, b);
				if (want.size() > 1) reach("common-divisor");
				break;
			}
			case 10: {
				what = "extended greatest common divisor";
				if (xa.empty() || xb.empty() || big) { store = false; break; }
				UQ s(uv), u(uv);
				{ Quiet q; want = v_gcd(xa, xb); }
				res = carl::extended_gcd(pa, pb, s, u);
				Quiet q;
				V vs(s.coefficients()), vu(u.coefficients());
				SIM_CHECK(v_add(v_mul(vs, xa), v_mul(vu, xb)) == want, "wrong-result", "cofactors " << v_show(vs) << " and " << v_show(vu) << " of " << v_show(xa) << " and " << v_show(xb) << " do not give " << v_show(want));
				break;
			}
			case 11: {
				what = "derivative";
				{ Quiet q; want = v_derive(xa, n); }
				res = w % 2 ? carl::derivative(pa, n) : carl::derivative(pa, uv, n);
				break;
			}
			case 12: {
				what = "evaluation";
				Q value = carl::evaluate(pa, pt);
				Quiet q;
				SIM_CHECK(value == v_eval(xa, pt), "wrong-result", "value of " << v_show(xa) << " at " << pt << " is " << value);
				SIM_CHECK(pa.evaluate(pt) == value && carl::is_root_of(pa, pt) == (value == 0), "wrong-result", "value of " << v_show(xa) << " at " << pt);
				store = false;
				break;
			}
			case 13: case 14: {
				what = "number of real roots";
				store = false;
				Q lo, hi;
				int count = 0, with_mult = 0;
				{
					Quiet q;
					do { lo = Q((long)r.range(-40, 40), (long)r.range(1, 6)); lo.canonicalize(); } while (v_eval(xr, lo) == 0);
					do { hi = lo + Q((long)r.range(1, 60), (long)r.range(1, 6)); hi.canonicalize(); } while (v_eval(xr, hi) == 0);
					for (auto& x : roots) if (root_of(lo) < x.first && x.first < root_of(hi)) { ++count; with_mult += (int)x.second; }
				}
				UQ p = make(xr, r);
				Iv iv(lo, carl::BoundType::STRICT, hi, carl::BoundType::STRICT);
				int got;
				if (w < 5) got = carl::count_real_roots(p, iv);
				else got = carl::count_real_roots(carl::sturm_sequence(p), iv);
				carl::uint var = carl::sign_variations(p, iv);
				Quiet q;
				SIM_CHECK(got == count, "wrong-result", v_show(xr) << " has " << count << " real roots between " << lo << " and " << hi << ", counted " << got);
				SIM_CHECK((int)var >= with_mult && ((int)var - with_mult) % 2 == 0, "wrong-result", v_show(xr) << " has " << with_mult << " real roots between " << lo << " and " << hi << ", but " << var << " sign variations");
				reach("roots-counted");
				break;
			}
			case 15: {
				what = "sturm sequence";
				store = false;
				UQ p = make(xr, r);
				auto seq = w % 2 ? carl::sturm_sequence(p) : carl::sturm_sequence(p, pa);
				Quiet q;
				std::vector<V> ref{xr, w % 2 ? v_derive(xr) : xa};
				if (!ref[0].empty() && !ref[1].empty()) while (true) {
					V x = v_scale(v_rem(ref[ref.size() - 2], ref.back()), -1);
					if (x.empty()) break;
					ref.push_back(x);
				}
				SIM_CHECK(seq.size() == ref.size(), "wrong-result", "sequence of length " << seq.size() << " instead of " << ref.size());
				for (std::size_t i = 0; i < ref.size(); ++i) check(seq[i], ref[i], "member of a sturm sequence");
				break;
			}
			case 16: {
				what = "root bounds";
				store = false;
				UQ p = make(xr, r);
				Q ca = carl::cauchyBound(p), hm = carl::hirstMaceyBound(p), la = carl::lagrangeBound(p);
				Q pu = carl::lagrangePositiveUpperBound(p), pl = carl::lagrangePositiveLowerBound(p), nu = carl::lagrangeNegativeUpperBound(p);
				Quiet q;
				for (auto& x : roots) {
					for (const Q& b : {ca, hm, la}) SIM_CHECK(!(root_of(b) < x.first) && !(x.first < root_of(-b)), "wrong-result", "bound " << b << " excludes a root of " << v_show(xr));
					if (x.first.sign > 0) SIM_CHECK(!(root_of(pu) < x.first) && !(x.first < root_of(pl)), "wrong-result", "positive bounds " << pl << " and " << pu << " exclude a root of " << v_show(xr));
					if (x.first.sign < 0) SIM_CHECK(!(root_of(nu) < x.first), "wrong-result", "negative upper bound " << nu << " excludes a root of " << v_show(xr));
				}
				reach("root-bounds");
				break;
			}
			case 17: {
				what = "square-free part";
				{ Quiet q; want = v_monic(v_quo(xr, v_gcd(xr, v_derive(xr)))); }
				UQ p = make(xr, r);
				UQ s = carl::squareFreePart(p);
				Quiet q;
				SIM_CHECK(v_proportional(V(s.coefficients()), want), "wrong-result", "square-free part of " << v_show(xr) << " is " << v_show(V(s.coefficients())));
				res = s.normalized();
				reach("square-free-part");
				break;
			}
			case 18: {
				what = "factorization";
				store = false;
				if (big || xr.empty() || !small(xr)) break;
				UQ p = make(xr, r);
				V prod;
				{ Quiet q; prod = V{Q(1)}; }
				if (w < 5) {
					auto fs = carl::factorization(p);
					Quiet q;
					std::vector<V> parts;
					for (auto& x : fs) {
						V fx(x.first.coefficients());
						prod = v_mul(prod, v_pow(fx, (unsigned)x.second));
						if (fx.size() < 2) continue;
						SIM_CHECK(v_squarefree(fx), "wrong-result", "factor " << v_show(fx) << " of " << v_show(xr) << " is not square-free");
						for (auto& o : parts) SIM_CHECK(v_gcd(o, fx).size() == 1, "wrong-result", "factors " << v_show(o) << " and " << v_show(fx) << " of " << v_show(xr) << " are not coprime");
						parts.push_back(fx);
					}
					SIM_CHECK(prod == xr, "wrong-result", "product of the factors of " << v_show(xr) << " is " << v_show(prod));
					reach("factorization");
				} else if (xr.size() > 1) {
					auto fs = carl::squareFreeFactorization(p);
					Quiet q;
					std::vector<V> parts;
					for (auto& x : fs) {
						V fx(x.second.coefficients());
						prod = v_mul(prod, v_pow(fx, (unsigned)x.first));
						SIM_CHECK(v_squarefree(fx), "wrong-result", "factor " << v_show(fx) << " of " << v_show(xr) << " is not square-free");
						for (auto& o : parts) SIM_CHECK(v_gcd(o, fx).size() == 1, "wrong-result", "factors " << v_show(o) << " and " << v_show(fx) << " of " << v_show(xr) << " are not coprime");
						parts.push_back(fx);
					}
					SIM_CHECK(v_proportional(prod, xr), "wrong-result", "product of the square-free factors of " << v_show(xr) << " is " << v_show(prod));
				}
				break;
			}
			case 19: {
				what = "scaling to coprime coefficients";
				if (xa.empty()) { store = false; break; }
				UZ z = w % 2 ? pa.coprimeCoefficients() : pa.coprimeCoefficientsSignPreserving();
				Q fac = pa.coprimeFactor(), cont = pa.numericContent();
				Z den = pa.mainDenom();
				{
					Quiet q;
					Z g = 0, l = 1;
					V got;
					for (auto& x : z.coefficients()) { mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), x.get_mpz_t()); got.push_back(Q(x)); }
					for (auto& x : xa) mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), x.get_den().get_mpz_t());
					SIM_CHECK(g == 1 && v_proportional(got, xa), "wrong-result", "coprime coefficients of " << v_show(xa) << " are " << v_show(got));
					if (w % 2 == 0) SIM_CHECK(sgn(got.back()) == sgn(xa.back()), "wrong-result", "the sign of " << v_show(xa) << " changed");
					SIM_CHECK(abs(fac) == abs(got.back() / xa.back()), "wrong-result", "coprime factor " << fac << " of " << v_show(xa));
					SIM_CHECK(den == l, "wrong-result", "main denominator " << den << " of " << v_show(xa));
					SIM_CHECK(abs(cont * fac) == 1, "wrong-result", "numeric content " << cont << " of " << v_show(xa));
					want = v_monic(xa);
				}
				res = pa.normalized();
				SIM_CHECK(res.isNormal(), "wrong-result", "normalized polynomial is not normal");
				break;
			}
			case 20: {
				what = "rearrangement";
				if (xa.empty()) { store = false; break; }
				if (w < 2) {
					{ Quiet q; want = xa; std::reverse(want.begin(), want.end()); trim(want); }
					res = pa.reverseCoefficients();
				} else if (w < 4) {
					{ Quiet q; want = xa; for (std::size_t i = 1; i < want.size(); i += 2) want[i] = -want[i]; }
					res = pa.negateVariable();
				} else if (w < 5) {
					{ Quiet q; want = xa; want.pop_back(); trim(want); }
					res = pa;
					res.truncate();
				} else if (w < 6) {
					{ Quiet q; want = xa; while (want.front() == 0) want.erase(want.begin()); }
					res = pa;
					carl::eliminate_zero_root(res);
				} else {
					if (xa.size() > 8) { store = false; break; }
					UQ lin(uv, {-pt, Q(1)});
					res = pa * lin;
					if (w == 6) {
						{ Quiet q; want = xa; while (v_eval(want, pt) == 0) want = v_quo(want, V{-pt, Q(1)}); }
						carl::eliminate_root(res, pt);
					} else {
						{ Quiet q; want = xa; }
						Q im = res.syntheticDivision(pt);
						SIM_CHECK(im == 0, "wrong-result", "division of a multiple of the divisor leaves " << im);
					}
				}
				break;
			}
			case 21: {
				what = "conversion to a multivariate polynomial";
				Poly m(pa);
				{
					Quiet q;
					PolyVars one;
					one.vars.push_back(uv);
					PM x;
					for (std::size_t i = 0; i < xa.size(); ++i) pm_add(x, Exps{(unsigned char)i}, xa[i]);
					pm_check(one, m, x, what);
				}
				if (xa.size() < 2) { store = false; break; }
				{ Quiet q; want = xa; }
				res = carl::to_univariate_polynomial(m);
				break;
			}
			case 22: {
				what = "comparison";
				store = false;
				bool eq = pa == pb, lt = pa < pb, gt = pb < pa;
				std::less<UQ> ls;
				bool l1 = ls(pa, pb), l2 = ls(pb, pa);
				SIM_CHECK(eq == (xa == xb) && (pa != pb) == !eq && int(eq) + int(lt) + int(gt) == 1, "wrong-result", "comparison of " << v_show(xa) << " and " << v_show(xb));
				SIM_CHECK(int(eq) + int(l1) + int(l2) == 1, "wrong-result", "ordering of " << v_show(xa) << " and " << v_show(xb));
				if (eq) SIM_CHECK(std::hash<UQ>()(pa) == std::hash<UQ>()(pb), "wrong-result", "hash differs for equal polynomials " << v_show(xa));
				V vc;
				{ Quiet q; vc = V{c}; trim(vc); }
				SIM_CHECK((pa == c) == (xa == vc) && (c == pa) == (xa == vc), "wrong-result", "comparison of " << v_show(xa) << " and " << c);
				break;
			}
			default:
				if (w < 4) { // over the integers
					what = "division over the integers";
					store = false;
					if (xa.empty() || xb.empty()) break;
					UZ a = pa.coprimeCoefficients(), b = pb.coprimeCoefficients();
					if (w < 3) a *= b;
					auto dr = carl::divide(a, b);
					UZ back = b * dr.quotient + dr.remainder;
					SIM_CHECK(back == a, "wrong-result", "quotient and remainder of the integer multiples of " << v_show(xa) << " and " << v_show(xb) << " do not give the dividend");
					if (w < 3) {
						UZ z = pa.coprimeCoefficients();
						SIM_CHECK(dr.quotient == z && carl::isZero(dr.remainder), "wrong-result", "quotient of a multiple of " << v_show(xb) << " over the integers");
					}
					reach("integer-division");
					break;
				}
				{
					what = "exchange";
					std::size_t i = r.below(xq.size());
					std::lock_guard<std::mutex> l(exchange);
					UQ copy(pa), old(xq[i].p);
					{ Quiet q; want = xq[i].x; std::swap(xq[i].p, copy); xq[i].x = xa; }
					res = std::move(old);
				}
			}
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "exception", "bad_alloc without allocation failure in " << what);
			reach("alloc-failure-survived");
			failed = true;
		}
		SIM_LOG("t" << t << " " << what << (failed ? " -> bad_alloc" : ""));
		Quiet q;
		check(pa, xa, "argument");
		check(pb, xb, "argument");
		if (failed || !store) return;
		check(res, want, what);
		SIM_CHECK(carl::isZero(res) == want.empty() && carl::is_constant(res) == (want.size() < 2) && res.isLinearInMainVar() == (want.size() < 3), "wrong-result", "queries about " << v_show(want));
		SIM_CHECK(want.empty() || (res.degree() == want.size() - 1 && res.lcoeff() == want.back() && res.tcoeff() == want.front() && res.constantPart() == want.front() && res.zeroIsRoot() == (want.front() == 0)), "wrong-result", "queries about " << v_show(want));
		observe(v_hash(want));
		bool keep = want.size() <= 12;
		for (auto& x : want) keep = keep && mpz_sizeinbase(x.get_num_mpz_t(), 2) < 90 && mpz_sizeinbase(x.get_den_mpz_t(), 2) < 90;
		if (keep) { std::swap(S[d].p, res); S[d].x = want; }
	}

	/// The resultant has, up to its sign, the value of the determinant wherever the leading coefficients stay.
	void check_resultant(Rng& r, bool disc, const PM& xa, const PM& xd, std::size_t v, const PM& got, std::vector<Q> pt) {
		const char* what = disc ? "discriminant" : "resultant";
		unsigned da = pm_deg(xa, v), db = pm_deg(xd, v);
		Q ratio = 0;
		for (int i = 0; i < 4; ++i) {
			V a = specialise(xa, v, pt), b = specialise(xd, v, pt);
			if (a.size() == da + 1 && b.size() == db + 1) {
				Q value = pm_eval(got, pt), ref = sylvester(a, b);
				if (disc) ref /= a.back();
				SIM_CHECK((value == 0) == (ref == 0), "wrong-result", what << " of " << pm_show(xa) << " and " << pm_show(xd) << " in v" << v << " is " << pm_show(got) << (ref == 0 ? ", but" : ", but no") << " common root at " << v_show(V(pt)));
				if (value != 0) {
					SIM_CHECK(ratio == 0 || value / ref == ratio, "wrong-result", what << " of " << pm_show(xa) << " and " << pm_show(xd) << " in v" << v << " is " << pm_show(got) << ", no multiple of the determinant of their coefficients");
					if (!disc) SIM_CHECK(value == ref || value == -ref, "wrong-result", what << " of " << pm_show(xa) << " and " << pm_show(xd) << " in v" << v << " is " << pm_show(got) << ", which has the value " << value << " instead of " << ref);
					ratio = value / ref;
					reach(disc ? "discriminant-nonzero" : "resultant-nonzero");
				} else reach(disc ? "discriminant-zero" : "resultant-zero");
			}
			for (auto& x : pt) x += (long)r.range(1, 3);
		}
	}
	/// Few terms, leaving large gaps between the degrees of a remainder sequence.
	PM sparse_p(Rng& r, std::size_t v, unsigned deg) {
		PM p = pm_pow(pm_var(v), deg);
		if (r.chance(0.3)) p = p * pm_const(Q((long)r.range(2, 3)));
		for (int i = (int)r.range(1, 2); i > 0; --i) {
			PM c = pm_const(Q((long)pick_from(r, {-3, -1, 1, 2})));
			std::size_t o = r.below(nvars);
			if (o != v && r.chance(0.5)) c = r.chance(0.5) ? pm_var(o) : pm_var(o) + c;
			p = p + c * pm_pow(pm_var(v), (unsigned)r.below(r.chance(0.6) ? 2 : deg));
		}
		return p;
	}
	void op_poly(int t, Rng& r) {
		auto& S = sp[t];
		const SlotP& A = r.chance(0.2) ? cp[r.below(cp.size())] : S[r.below(nslots)];
		std::size_t v = A.v, d = r.below(nslots), o = r.below(nvars); // o: some variable
		Variable mv = pv.vars[v], ov = pv.vars[o];
		const UP& pa = A.p;
		UP pb(mv);
		PM xa, xb, xc, xr, want;
		std::vector<Q> pt;
		std::size_t vr = v; // main variable of the result
		{
			Quiet q;
			xa = A.x;
			xb = random_p(r, v);
			xc = nvars > 1 ? coeff(random_p(r, v), v, (unsigned)r.below(3)) : pm_const(pm_rational(r, true));
			for (std::size_t i = 0; i < PM_VARS; ++i) pt.push_back(Q((long)r.range(-9, 9)));
		}
		UP res(mv);
		unsigned n = (unsigned)r.range(0, 3);
		bool store = true, failed = false;
		const char* what = "";
		int k = (int)r.below(23), w = (int)r.below(8);
		Q c = pt[0];
		if (r.chance(0.3) || (xa.empty() && r.chance(0.7))) k = 0;
		bool big = xa.size() > 12 || pm_deg(xa, v) > 6;
		SIM_LOG("t" << t << " operation " << k << "/" << w << " v" << v << " v" << o << " a=" << pm_show(xa) << " b=" << pm_show(xb) << " c=" << pm_show(xc));
		try {
			Faulty f;
			pb = r.chance(0.5) ? make(xb, v) : make_view(xb, v);
			Poly pc = poly(xc);
			switch (k) {
			case 0: {
				what = "construction";
				vr = r.below(nvars);
				{ Quiet q; want = random_p(r, vr); }
				if (w < 4) res = make(want, vr);
				else if (w < 6) res = make_view(want, vr);
				else {
					UP p(pv.vars[vr]);
					for (unsigned i = 0; i <= pm_deg(want, vr); ++i) {
						PM ci;
						{ Quiet q; ci = coeff(want, vr, i); }
						p += UP(pv.vars[vr], poly(ci), i);
					}
					res = std::move(p);
				}
				break;
			}
			case 1: case 2: {
				what = "sum or difference";
				{ Quiet q; want = w % 2 ? xa - xb : xa + xb; }
				if (w == 0) res = pa + pb;
				else if (w == 1) res = pa - pb;
				else if (w % 2 == 0) { UP p(pa); p += pb; res = std::move(p); }
				else { UP p(pa); p -= pb; res = std::move(p); }
				break;
			}
			case 3: {
				what = "product";
				if (big) { store = false; break; }
				{ Quiet q; want = xa * xb; }
				if (w % 2) res = pa * pb;
				else { UP p(pa); p *= pb; res = std::move(p); }
				break;
			}
			case 4: {
				what = "operation with a coefficient";
				if (big) { store = false; break; }
				switch (w) {
				case 0: { Quiet q; want = xa + xc; } { UP p(pa); p += pc; res = std::move(p); } break;
				case 1: { Quiet q; want = xa - xc; } { UP p(pa); p -= pc; res = std::move(p); } break;
				case 2: { Quiet q; want = xa - xc; } res = pa - pc; break;
				case 3: { Quiet q; want = xc - xa; } res = pc - pa; break;
				case 4: { Quiet q; want = xa * xc; } res = pa * pc; break;
				case 5: { Quiet q; want = xa * xc; } res = pc * pa; break;
				case 6: { Quiet q; want = pm_scale(xa, -1); } res = -pa; break;
				default: { Quiet q; want = xa * xc; } { UP p(pa); p *= pc; res = std::move(p); } break;
				}
				break;
			}
			case 5: {
				what = "product with a variable";
				{ Quiet q; want = xa * pm_var(o); }
				if (w % 3 == 0) res = pa * ov;
				else if (w % 3 == 1) res = ov * pa;
				else { UP p(pa); p *= ov; res = std::move(p); }
				break;
			}
			case 6: {
				what = "power";
				if (xa.size() > 4 && n > 2) n = 2;
				if (big) { store = false; break; }
				{ Quiet q; want = pm_pow(xa, n); }
				res = w % 2 ? carl::pow(pa, n) : pa.pow(n);
				break;
			}
			case 7: case 8: {
				what = "pseudo-remainder";
				if (xb.empty() || xa.empty() || big || pm_deg(xb, v) == 0) { store = false; break; }
				if (w < 6) res = carl::pseudo_remainder(pa, pb);
				else res = carl::to_univariate_polynomial(carl::pseudo_remainder(Poly(pa), Poly(pb), mv), mv);
				Quiet q;
				want = read(res, v, what);
				unsigned da = pm_deg(xa, v), db = pm_deg(xb, v);
				for (int i = 0; i < 2; ++i) {
					V a = specialise(xa, v, pt), b = specialise(xb, v, pt), got = specialise(want, v, pt);
					if (b.size() == db + 1) { // the leading coefficient of the divisor stays
						V ref = v_rem(a, b);
						if (da >= db) for (unsigned j = 0; j < da - db + 1; ++j) ref = v_scale(ref, b.back());
						SIM_CHECK(got == ref, "wrong-result", "pseudo-remainder of " << pm_show(xa) << " by " << pm_show(xb) << " in v" << v << " is " << pm_show(want));
						reach("pseudo-remainder");
					}
					for (auto& x : pt) x += 3;
				}
				break;
			}
			case 9: case 10: case 11: {
				bool disc = k == 11;
				what = disc ? "discriminant" : "resultant";
				unsigned da = pm_deg(xa, v), db = disc ? da - 1 : pm_deg(xb, v);
				store = false;
				if (da < (disc ? 2u : 1u) || db < 1 || xa.size() > 7 || xb.size() > 7 || da > 4) break;
				auto strategy = w < 4 ? carl::SubresultantStrategy::Lazard : w < 6 ? carl::SubresultantStrategy::Generic : carl::SubresultantStrategy::Ducos;
				UP rs = disc ? carl::discriminant(pa, strategy) : carl::resultant(pa, pb, strategy);
				Quiet q;
				PM got = read(rs, v, what);
				SIM_CHECK(pm_deg(got, v) == 0, "wrong-result", what << " of " << pm_show(xa) << " and " << pm_show(xb) << " still has v" << v);
				check_resultant(r, disc, xa, disc ? pm_derivative(xa, v, 1) : xb, v, got, pt);
				break;
			}
			case 12: {
				what = "subresultants";
				unsigned da = pm_deg(xa, v), db = pm_deg(xb, v);
				store = false;
				bool common = w % 2;
				if (da < 1 || db < 1 || xa.size() > 6 || xb.size() > 6 || da > 3 || (common && da + db > 5)) break;
				UP a(pa), b(pb);
				PM ya, yb;
				{ Quiet q; ya = xa; yb = xb; }
				if (common) { // a common factor in the main variable
					PM xf;
					{ Quiet q; xf = pm_var(v) + xc; ya = xa * xf; yb = xb * xf; }
					UP pf = make(xf, v);
					a *= pf;
					b *= pf;
				}
				auto chain = carl::subresultants(a, b, w < 5 ? carl::SubresultantStrategy::Lazard : w < 6 ? carl::SubresultantStrategy::Generic : carl::SubresultantStrategy::Ducos);
				auto psc = carl::principalSubresultantsCoefficients(a, b);
				Quiet q;
				SIM_CHECK(!chain.empty(), "wrong-result", "no subresultants");
				PM last = read(chain.front(), v, what);
				unsigned dl = pm_deg(last, v);
				da = pm_deg(ya, v);
				db = pm_deg(yb, v);
				for (int i = 0; i < 3; ++i) {
					V sa = specialise(ya, v, pt), sb = specialise(yb, v, pt), sl = specialise(last, v, pt);
					if (sa.size() == da + 1 && sb.size() == db + 1 && sl.size() == dl + 1) {
						SIM_CHECK(v_proportional(sl, v_gcd(sa, sb)), "wrong-result", "last subresultant of " << pm_show(ya) << " and " << pm_show(yb) << " in v" << v << " is " << pm_show(last) << ", no greatest common divisor at " << v_show(V(pt)));
						reach(dl ? "subresultant-common" : "subresultant-constant");
					}
					for (auto& x : pt) x += (long)r.range(1, 3);
				}
				SIM_CHECK(!psc.empty(), "wrong-result", "no principal subresultant coefficients");
				for (auto& x : psc) SIM_CHECK(pm_deg(read(x, v, what), v) == 0, "wrong-result", "a principal subresultant coefficient has the main variable");
				break;
			}
			case 22: {
				what = "resultant";
				store = false;
				PM ya, yb;
				{
					Quiet q;
					unsigned da = (unsigned)r.range(2, 7);
					ya = sparse_p(r, v, da);
					yb = sparse_p(r, v, (unsigned)r.range(1, da));
					if (r.chance(0.5)) std::swap(ya, yb);
				}
				if (pm_deg(ya, v) == 0 || pm_deg(yb, v) == 0) break;
				SIM_LOG("t" << t << " sparse " << pm_show(ya) << " and " << pm_show(yb));
				UP a = make(ya, v), b = make(yb, v);
				UP rs = carl::resultant(a, b, w < 4 ? carl::SubresultantStrategy::Lazard : w < 6 ? carl::SubresultantStrategy::Generic : carl::SubresultantStrategy::Ducos);
				Quiet q;
				PM got = read(rs, v, what);
				SIM_CHECK(pm_deg(got, v) == 0, "wrong-result", what << " of " << pm_show(ya) << " and " << pm_show(yb) << " still has v" << v);
				check_resultant(r, false, ya, yb, v, got, pt);
				reach("sparse-resultant");
				break;
			}
			case 13: {
				what = "derivative";
				{ Quiet q; want = pm_derivative(xa, w % 2 ? v : o, n); }
				res = w % 2 ? carl::derivative(pa, n) : carl::derivative(pa, ov, n);
				break;
			}
			case 14: case 15: {
				what = "substitution";
				if (xa.size() > 6 || pm_deg(xa) > 5 || pm_deg(xc, v) > 0) { store = false; break; }
				std::map<std::size_t, PM> sub;
				{ Quiet q; sub[o] = xc; want = pm_subst(xa, sub); }
				if (w < 3) { res = pa; carl::substitute_inplace(res, ov, pc); }
				else if (w < 7) res = carl::substitute(pa, ov, pc);
				else {
					{ Quiet q; sub.clear(); sub[v] = xc; want = pm_subst(xa, sub); }
					res = UP(mv, carl::evaluate(pa, pc));
				}
				break;
			}
			case 16: {
				what = "change of the main variable";
				{ Quiet q; want = xa; vr = o; }
				res = carl::switch_main_variable(pa, ov);
				break;
			}
			case 17: {
				what = "division by a coefficient";
				if (xc.empty() || big) { store = false; break; }
				if (w < 2) {
					Q k0 = c == 0 ? Q(7) : c;
					{ Quiet q; want = pm_scale(xa, 1 / k0); }
					res = carl::divide(pa, k0).quotient;
					break;
				}
				UP prod = pa * pc;
				PM xp0;
				{ Quiet q; xp0 = xa * xc; want = xa; }
				if (w < 4) {
					UP quo(mv);
					bool ok = carl::try_divide(prod, pc, quo);
					SIM_CHECK(ok, "wrong-result", pm_show(xp0) << " is not divided by its factor " << pm_show(xc));
					res = std::move(quo);
				} else if (w < 6) {
					res = prod / pc;
				} else {
					PM qq, rr;
					{ Quiet q; pm_divmod(xa, xc, qq, rr); want = qq; }
					UP quo(mv);
					bool ok = carl::try_divide(pa, pc, quo);
					SIM_CHECK(ok == rr.empty(), "wrong-result", pm_show(xc) << (ok ? " divides " : " does not divide ") << pm_show(xa));
					if (ok) res = std::move(quo);
					else store = false;
				}
				break;
			}
			case 18: {
				what = "scaling to coprime coefficients";
				if (xa.empty()) { store = false; break; }
				res = w % 2 ? pa.coprimeCoefficients() : pa.coprimeCoefficientsSignPreserving();
				Q cont = pa.numericContent();
				Z den = pa.mainDenom();
				UP pp = carl::pseudo_primitive_part(pa), nn = pa.normalized();
				SIM_CHECK(nn.isNormal(), "wrong-result", "normalized polynomial is not normal");
				Quiet q;
				want = read(res, v, what);
				Z g = 0, l = 1;
				for (auto& x : want) {
					SIM_CHECK(x.second.get_den() == 1, "wrong-result", "coprime coefficients of " << pm_show(xa) << " in v" << v << " are " << pm_show(want));
					mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), x.second.get_num().get_mpz_t());
				}
				for (auto& x : xa) mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), x.second.get_den().get_mpz_t());
				SIM_CHECK(g == 1, "wrong-result", "coprime coefficients of " << pm_show(xa) << " in v" << v << " are " << pm_show(want));
				Q f = want.empty() ? Q(0) : Q(want.begin()->second / xa.begin()->second);
				SIM_CHECK(pm_scale(xa, f) == want && (w % 2 || f > 0), "wrong-result", "coprime coefficients of " << pm_show(xa) << " in v" << v << " are " << pm_show(want));
				SIM_CHECK(den == l, "wrong-result", "main denominator " << den << " of " << pm_show(xa));
				SIM_CHECK(abs(cont * f) == 1, "wrong-result", "numeric content " << cont << " of " << pm_show(xa));
				check(pp, pm_scale(xa, 1 / cont), v, "pseudo-primitive part");
				PM xn = read(nn, v, "normalized polynomial");
				SIM_CHECK(xn == xa || xn == pm_scale(xa, -1), "wrong-result", "normalized polynomial " << pm_show(xn) << " of " << pm_show(xa));
				break;
			}
			case 19: {
				what = "comparison";
				store = false;
				bool eq = pa == pb, lt = pa < pb, gt = pb < pa;
				SIM_CHECK(eq == (xa == xb) && (pa != pb) == !eq && int(eq) + int(lt) + int(gt) == 1, "wrong-result", "comparison of " << pm_show(xa) << " and " << pm_show(xb));
				UP other = carl::switch_main_variable(pb, ov), same = carl::switch_main_variable(pa, ov);
				SIM_CHECK((pa == other) == (xa == xb), "wrong-result", "comparison of " << pm_show(xa) << " and " << pm_show(xb) << " in different variables");
				SIM_CHECK(pa == same, "wrong-result", pm_show(xa) << " differs from itself in another variable");
				std::less<UP> ls;
				bool l1 = ls(pa, other), l2 = ls(other, pa);
				SIM_CHECK(!(l1 && l2), "wrong-result", pm_show(xa) << " and " << pm_show(xb) << " in different variables are each less than the other");
				break;
			}
			case 20: {
				what = "conversion to a multivariate polynomial";
				store = false;
				Poly m(pa);
				unsigned td = (unsigned)carl::total_degree(pa);
				auto vars = carl::variables(pa);
				bool num = pa.isNumber(), uni = pa.isUnivariate();
				Quiet q;
				pm_check(pv, m, xa, what);
				SIM_CHECK(td == pm_deg(xa), "wrong-result", "total degree " << td << " of " << pm_show(xa));
				bool only = true;
				for (std::size_t i = 0; i < nvars; ++i) {
					SIM_CHECK(vars.has(pv.vars[i]) == (pm_deg(xa, i) > 0), "wrong-result", "variables of " << pm_show(xa));
					if (i != v) { only = only && pm_deg(xa, i) == 0; SIM_CHECK(pa.has(pv.vars[i]) == (pm_deg(xa, i) > 0), "wrong-result", "has() of " << pm_show(xa)); }
				}
				SIM_CHECK(uni == only && num == (pm_deg(xa) == 0), "wrong-result", "queries about " << pm_show(xa));
				auto ci = xa.find(Exps{});
				SIM_CHECK(pa.constantPart() == (ci == xa.end() ? Q(0) : ci->second), "wrong-result", "constant part of " << pm_show(xa));
				if (only) {
					UQ nc = pa.toNumberCoefficients();
					V x(nc.coefficients()), ref = specialise(xa, v, pt);
					SIM_CHECK(x == ref, "wrong-result", "number coefficients of " << pm_show(xa));
				}
				break;
			}
			default: {
				what = "exchange";
				std::size_t i = r.below(xp.size());
				std::lock_guard<std::mutex> l(exchange);
				UP copy(pa), old(xp[i].p);
				{ Quiet q; want = xp[i].x; vr = xp[i].v; std::swap(xp[i].p, copy); xp[i].x = xa; xp[i].v = v; }
				res = std::move(old);
			}
			}
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "exception", "bad_alloc without allocation failure in " << what);
			reach("alloc-failure-survived");
			failed = true;
		}
		SIM_LOG("t" << t << " " << what << (failed ? " -> bad_alloc" : ""));
		Quiet q;
		check(pa, xa, v, "argument");
		if (failed || !store) return;
		check(res, want, vr, what);
		SIM_CHECK(carl::isZero(res) == want.empty() && carl::is_constant(res) == (pm_deg(want, vr) == 0), "wrong-result", "queries about " << pm_show(want));
		SIM_CHECK(want.empty() || res.degree() == pm_deg(want, vr), "wrong-result", "degree of " << pm_show(want));
		observe(pm_hash(want));
		bool keep = want.size() <= 14 && pm_deg(want) <= 9;
		for (auto& x : want) keep = keep && mpz_sizeinbase(x.second.get_num_mpz_t(), 2) < 60 && mpz_sizeinbase(x.second.get_den_mpz_t(), 2) < 60;
		if (keep) { std::swap(S[d].p, res); S[d].x = want; S[d].v = vr; }
	}
	void finish() override {
		Quiet q;
		for (auto& s : cq) check(s.p, s.x, "shared polynomial");
		for (auto& s : cp) check(s.p, s.x, s.v, "shared polynomial");
		for (auto& s : xq) check(s.p, s.x, "exchanged polynomial");
		for (auto& s : xp) check(s.p, s.x, s.v, "exchanged polynomial");
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

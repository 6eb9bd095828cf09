// Reference model of multivariate polynomials over the rationals. Used inside Quiet only.
#pragma once
#include "common.h"
#include <carl/core/Monomial.h>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/VariablePool.h>
#include <gmpxx.h>
#include <array>

namespace sim {
constexpr std::size_t PM_VARS = 6;
using Q = mpq_class;
using Poly = carl::MultivariatePolynomial<Q>;
using PTerm = carl::Term<Q>;
using Exps = std::array<unsigned char, PM_VARS>;
using PM = std::map<Exps, Q>; // exponents -> non-zero coefficient

struct PolyVars {
	std::vector<carl::Variable> vars;
	std::size_t index(carl::Variable v) const {
		for (std::size_t i = 0; i < vars.size(); ++i) if (vars[i] == v) return i;
		return 999;
	}
};

inline void pm_add(PM& a, const Exps& e, const Q& c) {
	if (c == 0) return;
	auto it = a.find(e);
	if (it == a.end()) a.emplace(e, c);
	else {
		it->second += c;
		if (it->second == 0) a.erase(it);
	}
}
inline PM pm_const(const Q& c) { PM r; pm_add(r, Exps{}, c); return r; }
inline PM pm_var(std::size_t v, unsigned e = 1) { PM r; Exps x{}; x[v] = (unsigned char)e; r.emplace(x, Q(1)); return r; }
inline PM pm_term(const Exps& e, const Q& c) { PM r; pm_add(r, e, c); return r; }
inline PM operator+(const PM& a, const PM& b) { PM r = a; for (auto& t : b) pm_add(r, t.first, t.second); return r; }
inline PM operator-(const PM& a, const PM& b) { PM r = a; for (auto& t : b) pm_add(r, t.first, -t.second); return r; }
inline PM operator*(const PM& a, const PM& b) {
	PM r;
	for (auto& s : a) for (auto& t : b) {
		Exps e;
		for (std::size_t i = 0; i < PM_VARS; ++i) e[i] = (unsigned char)(s.first[i] + t.first[i]);
		pm_add(r, e, s.second * t.second);
	}
	return r;
}
inline PM pm_scale(const PM& a, const Q& c) { PM r; for (auto& t : a) pm_add(r, t.first, t.second * c); return r; }
inline PM pm_pow(const PM& a, unsigned n) { PM r = pm_const(1); while (n--) r = r * a; return r; }
inline PM pm_derivative(const PM& a, std::size_t v, unsigned n) {
	PM r = a;
	while (n--) {
		PM d;
		for (auto& t : r) if (t.first[v]) {
			Exps e = t.first;
			Q c = t.second * Q((unsigned long)e[v]);
			--e[v];
			pm_add(d, e, c);
		}
		r.swap(d);
	}
	return r;
}
/// Simultaneous substitution.
inline PM pm_subst(const PM& a, const std::map<std::size_t, PM>& s) {
	PM r;
	for (auto& t : a) {
		Exps e = t.first;
		PM f = pm_const(t.second);
		for (auto& p : s) { f = f * pm_pow(p.second, e[p.first]); e[p.first] = 0; }
		r = r + f * pm_term(e, 1);
	}
	return r;
}
inline Q pm_eval(const PM& a, const std::vector<Q>& pt) {
	Q r = 0;
	for (auto& t : a) {
		Q c = t.second;
		for (std::size_t i = 0; i < PM_VARS; ++i) for (unsigned k = 0; k < t.first[i]; ++k) c *= pt[i];
		r += c;
	}
	return r;
}
inline unsigned pm_tdeg(const Exps& e) { unsigned d = 0; for (auto x : e) d += x; return d; }
inline unsigned pm_deg(const PM& a) { unsigned d = 0; for (auto& t : a) d = std::max(d, pm_tdeg(t.first)); return d; }
inline unsigned pm_deg(const PM& a, std::size_t v) { unsigned d = 0; for (auto& t : a) d = std::max<unsigned>(d, t.first[v]); return d; }
/// Graded ordering of the library: higher total degree first, ties by the smaller variable having the smaller exponent.
inline bool pm_less(const Exps& a, const Exps& b) {
	unsigned da = pm_tdeg(a), db = pm_tdeg(b);
	if (da != db) return da < db;
	for (std::size_t i = 0; i < PM_VARS; ++i) if (a[i] != b[i]) return a[i] > b[i];
	return false;
}
inline Exps pm_lead(const PM& a) {
	Exps best = a.begin()->first;
	for (auto& t : a) if (pm_less(best, t.first)) best = t.first;
	return best;
}
inline Exps pm_mul(const Exps& a, const Exps& b) { Exps e; for (std::size_t i = 0; i < PM_VARS; ++i) e[i] = (unsigned char)(a[i] + b[i]); return e; }
inline bool pm_divides(const Exps& d, const Exps& a) { for (std::size_t i = 0; i < PM_VARS; ++i) if (d[i] > a[i]) return false; return true; }
inline Exps pm_quot(const Exps& a, const Exps& d) { Exps e; for (std::size_t i = 0; i < PM_VARS; ++i) e[i] = (unsigned char)(a[i] - d[i]); return e; }
inline Exps pm_lcm(const Exps& a, const Exps& b) { Exps e; for (std::size_t i = 0; i < PM_VARS; ++i) e[i] = std::max(a[i], b[i]); return e; }
/// Remainder and quotient of division by one polynomial (graded ordering).
inline void pm_divmod(const PM& a, const PM& b, PM& quo, PM& rem) {
	PM p = a;
	quo.clear();
	rem.clear();
	Exps lb = pm_lead(b);
	while (!p.empty()) {
		Exps l = pm_lead(p);
		Q c = p[l];
		if (pm_divides(lb, l)) {
			PM f = pm_term(pm_quot(l, lb), c / b.at(lb));
			quo = quo + f;
			p = p - f * b;
		} else {
			pm_add(rem, l, c);
			p.erase(l);
		}
	}
}
inline std::string pm_show(const PM& a) {
	if (a.empty()) return "0";
	std::ostringstream os;
	bool first = true;
	for (auto& t : a) {
		if (!first) os << " + ";
		first = false;
		os << t.second.get_str();
		for (std::size_t i = 0; i < PM_VARS; ++i) if (t.first[i]) { os << "*v" << i; if (t.first[i] > 1) os << "^" << (int)t.first[i]; }
	}
	return os.str();
}
inline Exps pm_exps(const PolyVars& pv, const carl::Monomial::Arg& m) {
	Exps e{};
	if (m) for (auto& p : m->exponents()) {
		std::size_t i = pv.index(p.first);
		SIM_CHECK(i < PM_VARS, "wrong-result", "unknown variable in a polynomial");
		e[i] = (unsigned char)p.second;
	}
	return e;
}
/// Reads a library polynomial term by term; checks its normal form on the way.
inline PM pm_read(const PolyVars& pv, const Poly& p, const char* what) {
	PM r;
	std::size_t n = p.getTerms().size(), i = 0;
	Exps last{}, prev{};
	for (auto& t : p.getTerms()) {
		Exps e = pm_exps(pv, t.monomial());
		SIM_CHECK(t.coeff() != 0, "normal-form", what << ": zero term at position " << i);
		SIM_CHECK(r.emplace(e, t.coeff()).second, "normal-form", what << ": repeated monomial in " << pm_show(r));
		SIM_CHECK(i == 0 || pm_tdeg(e) > 0, "normal-form", what << ": constant term is not first");
		if (i > 0 && p.isOrdered()) SIM_CHECK(pm_less(prev, e), "normal-form", what << ": claims to be ordered and is not");
		prev = e;
		last = e;
		++i;
	}
	if (n) SIM_CHECK(last == pm_lead(r), "normal-form", what << ": leading term is not last in " << pm_show(r));
	return r;
}
inline void pm_check(const PolyVars& pv, const Poly& p, const PM& x, const char* what) {
	PM got = pm_read(pv, p, what);
	SIM_CHECK(got == x, "wrong-result", what << ": got " << pm_show(got) << ", expected " << pm_show(x));
}
inline std::uint64_t pm_hash(const PM& a) {
	std::uint64_t h = 14695981039346656037ull;
	for (auto& t : a) {
		for (auto c : t.first) h = (h ^ c) * 1099511628211ull;
		h = (h ^ t.second.get_num().get_ui()) * 1099511628211ull;
		h = (h ^ t.second.get_den().get_ui() ^ (t.second < 0 ? 77 : 0)) * 1099511628211ull;
	}
	return h;
}
inline Q pm_rational(Rng& r, bool zero = false) {
	long n = r.range(zero ? 0 : 1, 5);
	if (r.chance(0.05)) n = 1000003l * r.range(1, 2000000) * (n ? 1 : 0);
	Q q(r.chance(0.45) ? -n : n, r.chance(0.25) ? r.range(2, 6) : 1);
	q.canonicalize();
	return q;
}
inline PM pm_random(Rng& r, std::size_t nv, unsigned maxdeg, unsigned maxterms) {
	PM x;
	unsigned n = (unsigned)r.range(0, (int)maxterms);
	for (unsigned i = 0; i < n; ++i) {
		Exps e{};
		unsigned d = (unsigned)r.range(0, (int)maxdeg);
		for (unsigned k = 0; k < d; ++k) ++e[r.below(nv)];
		pm_add(x, e, pm_rational(r));
	}
	return x;
}
} // namespace sim

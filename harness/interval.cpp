// Floating-point intervals: clients compute with shared intervals while the ambient rounding mode changes under them.
// build-flags: -DNDEBUG -include @VERIF@/harness/cocoa_stub.h
#include "common.h"
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/MultivariateHorner.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/VariablePool.h>
#include <carl/interval/Interval.h>
#include <carl/interval/IntervalEvaluation.h>
#include <carl/interval/exponential.h>
#include <carl/interval/power.h>
#include <carl/interval/trigonometric.h>
#include <cfenv>
#include <cmath>
#include <mutex>

using namespace sim;
namespace sim { const char* const harness_name = "interval"; }

namespace {
using Iv = carl::Interval<double>;
using BT = carl::BoundType;
using Q = mpq_class;
using MP = carl::MultivariatePolynomial<Q>;
struct Simplified {
	static constexpr carl::variableSelectionHeurisics selectionType = carl::GREEDY_Is;
	static constexpr double targetDiameter = 0.1;
	static constexpr bool use_arithmeticOperationsCounter = false;
};

/// Oracle code computes in the default mode.
struct Nearest {
	int saved = std::fegetround();
	Nearest() { std::fesetround(FE_TONEAREST); }
	~Nearest() { std::fesetround(saved); }
};
bool lower_inf(const Iv& i) { return i.lowerBoundType() == BT::INFTY; }
bool upper_inf(const Iv& i) { return i.upperBoundType() == BT::INFTY; }
bool contains(const Iv& i, const Q& p) {
	if (!lower_inf(i)) {
		if (!std::isfinite(i.lower())) return false;
		int c = cmp(p, Q(i.lower()));
		if (c < 0 || (c == 0 && i.lowerBoundType() == BT::STRICT)) return false;
	}
	if (!upper_inf(i)) {
		if (!std::isfinite(i.upper())) return false;
		int c = cmp(p, Q(i.upper()));
		if (c > 0 || (c == 0 && i.upperBoundType() == BT::STRICT)) return false;
	}
	return true;
}
bool empty(const Iv& i) {
	return !lower_inf(i) && !upper_inf(i) && (i.lower() > i.upper() || (i.lower() == i.upper() && (i.lowerBoundType() == BT::STRICT || i.upperBoundType() == BT::STRICT)));
}
std::string show(const Iv& i) {
	std::ostringstream os;
	os.precision(17);
	os << (i.lowerBoundType() == BT::WEAK ? "[" : "(");
	if (lower_inf(i)) os << "-inf"; else os << i.lower();
	os << ", ";
	if (upper_inf(i)) os << "inf"; else os << i.upper();
	os << (i.upperBoundType() == BT::WEAK ? "]" : ")");
	return os.str();
}
/// Points of an interval, the ends included where they belong to it.
std::vector<Q> points(const Iv& i, Rng& r) {
	std::vector<Q> c;
	Q lo = lower_inf(i) ? (upper_inf(i) ? Q(-1000) : Q(i.upper()) - 1000) : Q(i.lower());
	Q hi = upper_inf(i) ? (lower_inf(i) ? Q(1000) : Q(i.lower()) + 1000) : Q(i.upper());
	c = {lo, hi, 0, (lo + hi) / 2, lo + (hi - lo) * Q(1, 1 << 20), hi - (hi - lo) * Q(1, 1 << 20), lo + (hi - lo) * Q((long)r.below(1000), 1000)};
	std::vector<Q> res;
	for (auto& p : c) { p.canonicalize(); if (contains(i, p)) res.push_back(p); }
	return res;
}

struct H : Harness {
	std::vector<Iv> slots[MAXT];
	std::vector<Iv> shared;
	std::mutex mx;
	carl::Variable x, y;
	double fp_rate = 0;

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 3);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(3, r.chance(0.1) ? 80 : 25);
		if (faults) c.rate[F_FPENV] = pick_from(r, {0.1, 0.3, 0.8});
	}
	void setup(Rng&) override {
		carl::VariablePool::getInstance();
		carl::MonomialPool::getInstance();
		x = carl::freshRealVariable("x");
		y = carl::freshRealVariable("y");
	}
	double number(Rng& r) {
		switch (r.below(9)) {
		case 0: return 0;
		case 1: return (double)r.range(-3, 3);
		case 2: return r.chance(0.5) ? 1 : -1;
		case 3: return (double)r.range(-1000, 1000) / 7;
		case 4: return (double)r.range(-1000, 1000) / 1024;
		case 5: return std::ldexp((double)r.range(-(1ll << 53), 1ll << 53), -(int)r.range(40, 60));
		case 6: return std::ldexp((double)r.range(-(1ll << 53), 1ll << 53), (int)r.range(-90, -30));
		case 7: return (double)r.range(-100, 100) / 10;
		default: return std::ldexp((double)r.range(-5, 5), (int)r.range(-100, 100));
		}
	}
	Iv fresh(Rng& r, bool closed = false) {
		double a = number(r), b = r.chance(0.25) ? a : number(r);
		if (r.chance(0.2)) b = std::nextafter(a, 1e300);
		if (r.chance(0.1)) b = -a;
		if (a > b) std::swap(a, b);
		BT l = BT::WEAK, u = BT::WEAK;
		if (!closed) {
			if (r.chance(0.25)) l = BT::STRICT;
			if (r.chance(0.25)) u = BT::STRICT;
			if (r.chance(0.12)) l = BT::INFTY;
			if (r.chance(0.12)) u = BT::INFTY;
			if (a == b && l != BT::INFTY && u != BT::INFTY) l = u = BT::WEAK;
		}
		return Iv(a, l, b, u);
	}
	bool keep(const Iv& i) {
		if (empty(i)) return false;
		for (double d : {i.lower(), i.upper()}) if (!std::isfinite(d) || std::fabs(d) > 1e60 || (d != 0 && std::fabs(d) < 1e-60)) return false;
		return true;
	}
	void store(int t, const Iv& i, Rng& r) { if (keep(i)) slots[t][r.below(slots[t].size())] = i; }

	void enclose(const char* what, const Iv& res, const Q& v, const std::string& args) {
		SIM_CHECK(contains(res, v), "enclosure", what << " of " << args << " gives " << show(res) << " without " << v << " (" << v.get_d() << ")");
	}
	template<typename F>
	Iv call(F&& f) {
		int mode = std::fegetround();
		Iv res = f();
		int after = std::fegetround();
		Quiet q;
		SIM_CHECK(after == mode, "rounding-mode", "the operation left rounding mode " << after << " instead of " << mode);
		if (mode != FE_TONEAREST) reach("operation-in-other-mode");
		return res;
	}
	void binary(int t, Rng& r) {
		Iv a, b;
		int k, form;
		{
			Quiet q; Nearest n;
			a = slots[t][r.below(slots[t].size())];
			b = r.chance(0.15) ? a : slots[t][r.below(slots[t].size())];
			k = (int)r.below(4);
			form = (int)r.below(2);
			if (k == 3 && contains(b, 0)) k = 2;
			SIM_LOG("t" << t << " " << "+-*/"[k] << " " << show(a) << " " << show(b));
		}
		Iv res = call([&] {
			if (k == 0) { if (form) { Iv c = a; c += b; return c; } return a + b; }
			if (k == 1) { if (form) { Iv c = a; c -= b; return c; } return a - b; }
			if (k == 2) { if (form) { Iv c = a; c *= b; return c; } return a * b; }
			if (form) { Iv c = a; c.div_assign(b); return c; }
			return a.div(b);
		});
		Quiet q; Nearest n;
		std::string args = show(a) + " and " + show(b);
		static const char* const names[] = {"the sum", "the difference", "the product", "the quotient"};
		for (auto& p : points(a, r)) for (auto& s : points(b, r)) enclose(names[k], res, k == 0 ? Q(p + s) : k == 1 ? Q(p - s) : k == 2 ? Q(p * s) : Q(p / s), args);
		store(t, res, r);
		reach(names[k]);
	}
	void scalar(int t, Rng& r) {
		Iv a;
		double d;
		int k;
		{
			Quiet q; Nearest n;
			a = slots[t][r.below(slots[t].size())];
			d = number(r);
			k = (int)r.below(10);
			if (k >= 8 && d == 0) d = 3;
			SIM_LOG("t" << t << " scalar " << k << " " << show(a) << " " << d);
		}
		Iv res = call([&] {
			Iv c = a;
			switch (k) {
			case 0: return a + d;
			case 1: return d + a;
			case 2: return a - d;
			case 3: return d - a;
			case 4: return a * d;
			case 5: return d * a;
			case 6: c += d; return c;
			case 7: c *= d; return c;
			case 8: c /= d; return c;
			default: return a / d;
			}
		});
		Quiet q; Nearest n;
		std::ostringstream args;
		args << show(a) << " and the number " << d;
		Q e(d);
		for (auto& p : points(a, r)) enclose("an operation", res, k < 2 || k == 6 ? Q(p + e) : k == 2 ? Q(p - e) : k == 3 ? Q(e - p) : k < 8 ? Q(p * e) : Q(p / e), args.str());
		store(t, res, r);
		reach("with-number");
	}
	void unary(int t, Rng& r) {
		Iv a;
		int k, n;
		{
			Quiet q; Nearest nn;
			a = slots[t][r.below(slots[t].size())];
			k = (int)r.below(6);
			n = (int)r.range(1, k == 2 ? 6 : 5);
			SIM_LOG("t" << t << " unary " << k << " " << n << " " << show(a));
		}
		Iv b;
		bool split = false, assign = r.chance(0.3);
		Iv res = call([&] {
			if (assign && k < 5 && k != 3) {
				Iv c = a;
				switch (k) {
				case 0: c.inverse_assign(); break;
				case 1: c.abs_assign(); break;
				case 2: carl::pow_assign(c, n); break;
				default: c.root_assign((unsigned)n);
				}
				return c;
			}
			switch (k) {
			case 0: return -a;
			case 1: return a.abs();
			case 2: return carl::pow(a, n);
			case 3: return carl::sqrt(a);
			case 4: return a.root(n);
			default: { Iv c; split = a.reciprocal(c, b); return c; }
			}
		});
		Quiet q; Nearest nn;
		std::string args = show(a) + " (" + std::to_string(n) + ")";
		for (auto& p : points(a, r)) {
			if (k == 0) enclose("the negation", res, -p, args);
			else if (k == 1) enclose("the absolute value", res, abs(p), args);
			else if (k == 2) { Q v = 1; for (int i = 0; i < n; ++i) v *= p; enclose("the power", res, v, args); }
			else if (k == 5) { if (p != 0) { Q v = 1 / p; SIM_CHECK(contains(res, v) || (split && contains(b, v)), "enclosure", "the reciprocal of " << args << " gives " << show(res) << (split ? show(b) : "") << " without " << v.get_d()); } }
			else {
				int deg = k == 3 ? 2 : n;
				if (p < 0 && deg % 2 == 0) continue;
				// the root itself is not rational: compare powers of the bounds
				auto power = [&](double d) { Q v = 1, e(d); for (int i = 0; i < deg; ++i) v *= e; return v; };
				bool lo = lower_inf(res) || (res.lower() < 0 && deg % 2 == 0) || (res.lowerBoundType() == BT::STRICT ? power(res.lower()) < p : power(res.lower()) <= p);
				bool hi = upper_inf(res) || ((res.upper() >= 0 || deg % 2) && (res.upperBoundType() == BT::STRICT ? power(res.upper()) > p : power(res.upper()) >= p));
				SIM_CHECK(lo && hi, "enclosure", "the root of degree " << deg << " of " << args << " gives " << show(res) << " without that of " << p << " (" << p.get_d() << ")");
			}
		}
		store(t, res, r);
		reach(k == 0 ? "negation" : k == 1 ? "absolute-value" : k == 2 ? "power" : k == 3 ? "sqrt" : k == 4 ? "root" : "reciprocal");
	}
	void extended(int t, Rng& r) {
		Iv a, b, u, v;
		bool split = false;
		{
			Quiet q; Nearest n;
			a = slots[t][r.below(slots[t].size())];
			b = slots[t][r.below(slots[t].size())];
			SIM_LOG("t" << t << " extended division " << show(a) << " " << show(b));
		}
		call([&] { split = a.div_ext(b, u, v); return u; });
		Quiet q; Nearest n;
		for (auto& p : points(a, r)) for (auto& s : points(b, r)) if (s != 0) {
			Q w = p / s;
			SIM_CHECK(contains(u, w) || (split && contains(v, w)), "enclosure", "extended division of " << show(a) << " by " << show(b) << " gives " << show(u) << (split ? " and " + show(v) : "") << " without " << w << " (" << w.get_d() << ")");
		}
		reach("extended-division");
	}
	void elementary(int t, Rng& r) {
		Iv a;
		int k;
		bool assign;
		{
			Quiet q; Nearest n;
			k = (int)r.below(14);
			double lo = -20, hi = 20;
			if (k == 1) lo = 1e-6;
			if (k == 5 || k == 6) { lo = -1; hi = 1; }
			if (k == 12) lo = 1;
			if (k == 13) { lo = -0.999; hi = 0.999; }
			auto num = [&] { double d = r.chance(0.3) ? number(r) : lo + (hi - lo) * (double)r.below(100001) / 100000; return std::max(lo, std::min(hi, d)); };
			double p = num(), s = r.chance(0.3) ? p : num();
			if (k == 4 && r.chance(0.7)) { p = std::fmod(p, 1.5); s = std::fmod(s, 1.5); }
			if (p > s) std::swap(p, s);
			a = Iv(p, s);
			assign = r.chance(0.3);
			SIM_LOG("t" << t << " function " << k << " " << show(a));
		}
		Iv res = call([&] {
			if (assign) {
				Iv c = a;
				switch (k) {
				case 0: carl::exp_assign(c); break;
				case 1: carl::log_assign(c); break;
				case 2: carl::sin_assign(c); break;
				case 3: carl::cos_assign(c); break;
				case 4: carl::tan_assign(c); break;
				case 5: carl::asin_assign(c); break;
				case 6: carl::acos_assign(c); break;
				case 7: carl::atan_assign(c); break;
				case 8: carl::sinh_assign(c); break;
				case 9: carl::cosh_assign(c); break;
				case 10: carl::tanh_assign(c); break;
				case 11: carl::asinh_assign(c); break;
				case 12: carl::acosh_assign(c); break;
				default: carl::atanh_assign(c);
				}
				return c;
			}
			switch (k) {
			case 0: return carl::exp(a);
			case 1: return carl::log(a);
			case 2: return carl::sin(a);
			case 3: return carl::cos(a);
			case 4: return carl::tan(a);
			case 5: return carl::asin(a);
			case 6: return carl::acos(a);
			case 7: return carl::atan(a);
			case 8: return carl::sinh(a);
			case 9: return carl::cosh(a);
			case 10: return carl::tanh(a);
			case 11: return carl::asinh(a);
			case 12: return carl::acosh(a);
			default: return carl::atanh(a);
			}
		});
		Quiet q; Nearest n;
		static const char* const names[] = {"exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"};
		for (int i = 0; i <= 6; ++i) {
			double d = i == 0 ? a.lower() : i == 1 ? a.upper() : a.lower() + (a.upper() - a.lower()) * (double)r.below(1000) / 1000;
			d = std::max(a.lower(), std::min(a.upper(), d));
			long double z = d, v;
			switch (k) {
			case 0: v = expl(z); break;
			case 1: v = logl(z); break;
			case 2: v = sinl(z); break;
			case 3: v = cosl(z); break;
			case 4: v = tanl(z); break;
			case 5: v = asinl(z); break;
			case 6: v = acosl(z); break;
			case 7: v = atanl(z); break;
			case 8: v = sinhl(z); break;
			case 9: v = coshl(z); break;
			case 10: v = tanhl(z); break;
			case 11: v = asinhl(z); break;
			case 12: v = acoshl(z); break;
			default: v = atanhl(z);
			}
			long double tol = fabsl(v) * 0x1p-58L; // accuracy of the reference
			bool ok = (lower_inf(res) || res.lower() <= v + tol) && (upper_inf(res) || res.upper() >= v - tol);
			SIM_CHECK(ok, "enclosure", names[k] << " of " << show(a) << " gives " << show(res) << " without that of " << d << ", " << (double)v);
		}
		reach("elementary-function");
	}
	void polynomial(int t, Rng& r) {
		MP p;
		std::map<carl::Variable, Iv> box;
		int form = (int)r.below(5);
		for (int i = (int)r.range(1, 4); i > 0; --i) {
			Q c((long)r.range(-9, 9), (long)r.range(1, 9));
			c.canonicalize();
			MP m(c);
			for (int e = (int)r.below(3); e > 0; --e) m *= MP(x);
			for (int e = (int)r.below(3); e > 0; --e) m *= MP(y);
			p += m;
		}
		{
			Quiet q; Nearest n;
			box[x] = slots[t][r.below(slots[t].size())];
			box[y] = slots[t][r.below(slots[t].size())];
			SIM_LOG("t" << t << " evaluate " << p << " x=" << show(box[x]) << " y=" << show(box[y]));
		}
		Iv res = call([&] {
			if (form == 2) return carl::IntervalEvaluation::evaluate(carl::to_univariate_polynomial(p, x), box);
			if (form == 3) return carl::IntervalEvaluation::evaluate(carl::MultivariateHorner<MP, carl::strategy>(p), box);
			if (form == 4) return carl::IntervalEvaluation::evaluate(carl::MultivariateHorner<MP, Simplified>(p), box);
			return carl::IntervalEvaluation::evaluate(p, box);
		});
		Quiet q; Nearest n;
		for (auto& a : points(box[x], r)) for (auto& b : points(box[y], r)) {
			Q v = 0;
			for (auto& term : p) {
				Q w = term.coeff();
				if (term.monomial()) for (auto& ve : *term.monomial()) for (std::size_t e = 0; e < ve.second; ++e) w *= ve.first == x ? a : b;
				v += w;
			}
			std::ostringstream args;
			args << p << (form == 2 ? " as univariate" : form > 2 ? " in Horner form" : "") << " for x=" << show(box[x]) << ", y=" << show(box[y]);
			enclose("the value", res, v, args.str());
		}
		store(t, res, r);
		reach(form < 2 ? "polynomial" : form == 2 ? "univariate-polynomial" : "horner-form");
	}
	void rational(int t, Rng& r) {
		Q a, b;
		BT l, u;
		int form;
		{
			Quiet q; Nearest n;
			a = Q((long)r.range(-1000, 1000), (long)r.range(1, 99));
			b = Q((long)r.below(50), (long)r.range(1, 99));
			a.canonicalize();
			b.canonicalize();
			b += a;
			if (r.chance(0.1)) a = -b;
			if (a > b) std::swap(a, b);
			form = (int)r.below(4);
			auto type = [&] { int k = (int)r.below(4); return k < 2 ? BT::WEAK : k == 2 ? BT::STRICT : BT::INFTY; };
			l = form ? type() : BT::WEAK;
			u = form ? type() : BT::WEAK;
			if (a == b && l != BT::INFTY && u != BT::INFTY) l = u = BT::WEAK;
			SIM_LOG("t" << t << " from rationals " << a << " " << (int)l << " " << b << " " << (int)u);
		}
		Iv res = call([&] { return form == 0 ? Iv(a, b) : Iv(a, l, b, u); });
		Quiet q; Nearest n;
		std::string args = a.get_str() + " (" + std::to_string((int)l) + ") and " + b.get_str() + " (" + std::to_string((int)u) + ")";
		if (l == BT::INFTY) enclose("the interval", res, b - 1000, args);
		else if (l == BT::WEAK) enclose("the interval", res, a, args);
		if (u == BT::INFTY) enclose("the interval", res, a + 1000, args);
		else if (u == BT::WEAK) enclose("the interval", res, b, args);
		if (a < b) enclose("the interval", res, (a + b) / 2, args);
		store(t, res, r);
		reach("from-rationals");
	}
	void op(int t, int, Rng& r) override {
		if (slots[t].empty()) { Quiet q; Nearest n; for (int i = 0; i < 4; ++i) { Iv f = fresh(r); slots[t].push_back(keep(f) ? f : Iv(1.0)); } }
		std::uint64_t f;
		{ Faulty fa; f = fault(F_FPENV); }
		if (f) { static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; std::fesetround(modes[f % 4]); }
		int k = (int)r.below(16);
		if (k < 2) { Quiet q; Nearest n; store(t, fresh(r), r); }
		else if (k < 7) binary(t, r);
		else if (k < 8) scalar(t, r);
		else if (k < 10) unary(t, r);
		else if (k < 11) extended(t, r);
		else if (k < 12) elementary(t, r);
		else if (k < 13) polynomial(t, r);
		else if (k < 14) rational(t, r);
		else {
			std::lock_guard<std::mutex> l(mx);
			Quiet q; Nearest n;
			if (shared.size() < 4) shared.push_back(slots[t][r.below(4)]);
			else { std::swap(shared[r.below(shared.size())], slots[t][r.below(4)]); reach("exchanged"); }
		}
		Quiet q;
		state(mix((std::uint64_t)std::fegetround(), std::hash<double>()(slots[t][0].lower())));
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

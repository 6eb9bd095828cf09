// Finite fields: clients fetch fields from the shared registry, compute with numbers of residue rings, with polynomials
// over them, and solve linear equations over the integers.
#include "poly_model.h"
#include <carl/core/DiophantineEquation.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/polynomialfunctions/Division.h>
#include <carl/core/polynomialfunctions/GCD.h>
#include <carl/numbers/GFNumber.h>
#include <carl/numbers/GaloisField.h>
#include <algorithm>
#include <mutex>

using namespace sim;
namespace sim { const char* const harness_name = "galois"; }

namespace {
using Z = mpz_class;
using F = carl::GaloisField<Z>;
using G = carl::GFNumber<Z>;
using UG = carl::UnivariatePolynomial<G>;
using UZ = carl::UnivariatePolynomial<Z>;
using MG = carl::MultivariatePolynomial<G>;
using MZ = carl::MultivariatePolynomial<Z>;
using V = std::vector<Z>;

Z zmod(const Z& a, const Z& m) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
void reduce(V& v, const Z& m) {
	for (auto& c : v) c = zmod(c, m);
	while (!v.empty() && v.back() == 0) v.pop_back();
}
V v_add(const V& a, const V& b, const Z& m, int sign = 1) {
	V r(std::max(a.size(), b.size()));
	for (std::size_t i = 0; i < r.size(); ++i) {
		if (i < a.size()) r[i] += a[i];
		if (i < b.size()) { if (sign > 0) r[i] += b[i]; else r[i] -= b[i]; }
	}
	reduce(r, m);
	return r;
}
V v_mul(const V& a, const V& b, const Z& m) {
	V r(a.empty() || b.empty() ? 0 : a.size() + b.size() - 1);
	for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
	reduce(r, m);
	return r;
}
Z inverse(const Z& a, const Z& m) { Z r; mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
V v_rem(V a, const V& b, const Z& m, V* quot = nullptr) {
	Z inv = inverse(b.back(), m);
	if (quot) quot->assign(a.size() >= b.size() ? a.size() - b.size() + 1 : 0, Z(0));
	while (a.size() >= b.size()) {
		Z f = zmod(a.back() * inv, m);
		std::size_t d = a.size() - b.size();
		if (quot) (*quot)[d] = f;
		for (std::size_t i = 0; i < b.size(); ++i) a[d + i] -= f * b[i];
		reduce(a, m);
	}
	if (quot) reduce(*quot, m);
	return a;
}
V v_monic(const V& a, const Z& m) { return a.empty() ? a : v_mul(a, {inverse(a.back(), m)}, m); }
V v_gcd(V a, V b, const Z& m) { while (!b.empty()) { V r = v_rem(a, b, m); a = b; b = r; } return v_monic(a, m); }
std::string show(const V& a) {
	std::string s = "[";
	for (auto& x : a) s += (s.size() > 1 ? " " : "") + x.get_str();
	return s + "]";
}

struct H : Harness {
	struct Fld { unsigned p, k; Z m; const F* f; };
	std::vector<Fld> fields;
	struct Num { G g; Z v; int f; };
	struct Pol { std::shared_ptr<const UG> p; V v; int f; };
	struct Mul { std::shared_ptr<const MG> p; PM x; int f; };
	std::vector<Num> nums;
	std::vector<Pol> pols;
	std::vector<Mul> muls;
	std::mutex mx, reg;
	carl::Variable x;
	PolyVars pv;
	/// Results, released outside of the injection of failures.
	std::shared_ptr<UG> res[MAXT], res2[MAXT], res3[MAXT];
	std::shared_ptr<MG> mres[MAXT];

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(2, r.chance(0.1) ? 24 : 9);
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.0, 0.001, 0.01});
			c.max_faults = (int)r.range(1, 6);
		}
	}
	void setup(Rng& r) override {
		x = carl::freshRealVariable("x");
		for (int i = 0; i < 3; ++i) pv.vars.push_back(carl::freshRealVariable("y" + std::to_string(i)));
		std::size_t n = (std::size_t)r.range(1, 3);
		while (fields.size() < n) {
			Fld f;
			f.p = pick_from(r, {2u, 3u, 5u, 7u, 11u, 13u, 101u, 65521u});
			f.k = r.chance(0.7) ? 1 : (unsigned)r.range(2, r.chance(0.2) ? 9 : 4);
			{ Quiet q; mpz_ui_pow_ui(f.m.get_mpz_t(), f.p, f.k); }
			f.f = carl::GaloisFieldManager<Z>::getInstance().getField(f.p, f.k);
			fields.push_back(f);
		}
		UZ u(x, {Z(1), Z(2)});
		for (int i = 0; i < (int)fields.size(); ++i) {
			nums.push_back({G(Z(1), fields[i].f), Z(1), i});
			UG p = u.toFiniteDomain(fields[i].f);
			p *= p;
			V v{1, 4, 4};
			{ Quiet q; reduce(v, fields[i].m); }
			pols.push_back({std::make_shared<const UG>(p), v, i});
			MG y(carl::Term<G>(G(Z(1), fields[i].f), pv.vars[0], 1));
			muls.push_back({std::make_shared<const MG>(y * y + MG(G(Z(1), fields[i].f))), {}, i});
			Quiet q;
			muls.back().x = pm_var(0) * pm_var(0) + pm_const(Q(1));
		}
	}
	Z random_int(Rng& r, const Z& m) {
		Z v(r.range(-9, 9));
		if (r.chance(0.3)) v = Z(r.range(-1000000, 1000000)) * Z(r.range(1, 1000000));
		if (r.chance(0.3)) v += m * r.range(-3, 3);
		if (r.chance(0.2)) v = m / 2 + r.range(-1, 1);
		return v;
	}
	void check(const G& g, const Z& want, int fi, const char* what) {
		const Fld& f = fields[fi];
		Z v, r, over, next;
		{
			Quiet q;
			v = zmod(want, f.m);
			r = g.representingInteger();
			over = v + f.m;
			next = v + 1;
			SIM_CHECK(zmod(r, f.m) == v && abs(r) * 2 <= f.m, "wrong-result", std::string(what) + ": " + r.get_str() + " instead of " + v.get_str() + " modulo " + f.m.get_str());
		}
		bool zero = carl::isZero(g) && g.isZero(), nzero = !carl::isZero(g) && !g.isZero(), one = carl::isOne(g) && g.isOne(), none = !carl::isOne(g) && !g.isOne();
		bool same = g == G(v, f.f) && G(over, f.f) == g && g == over && v == g, other = g != G(next, f.f) && !(g == next) && next != g;
		Quiet q;
		SIM_CHECK((v == 0 ? zero : nzero) && (v == 1 ? one : none), "wrong-result", std::string(what) + ": zero or one not recognised: " + v.get_str() + " modulo " + f.m.get_str());
		SIM_CHECK(same && other, "wrong-result", std::string(what) + ": comparison of " + r.get_str() + " modulo " + f.m.get_str());
	}
	Num take(Rng& r, int f) {
		std::lock_guard<std::mutex> l(mx);
		Num n = nums[r.below(nums.size())];
		if (n.f != f) n = nums[(std::size_t)f];
		return n;
	}
	void number(int t, Rng& r) {
		int fi = (int)r.below(fields.size());
		const Fld& f = fields[fi];
		Num a = take(r, fi), b = take(r, fi);
		Z i;
		{ Quiet q; i = random_int(r, f.m); }
		if (r.chance(0.3)) { b.g = G(i, f.f); Quiet q; b.v = i; }
		G g;
		Z v;
		int what = (int)r.below(16);
		if (what == 0) { g = G(i, f.f); Quiet q; v = i; }
		else if (what == 1) { g = a.g + b.g; Quiet q; v = a.v + b.v; }
		else if (what == 2) { g = a.g - b.g; Quiet q; v = a.v - b.v; }
		else if (what == 3) { g = a.g * b.g; Quiet q; v = a.v * b.v; }
		else if (what == 4) { g = a.g; g += b.g; Quiet q; v = a.v + b.v; }
		else if (what == 5) { g = a.g; g -= b.g; Quiet q; v = a.v - b.v; }
		else if (what == 6) { g = a.g; g *= b.g; Quiet q; v = a.v * b.v; }
		else if (what == 7) { g = a.g; if (r.chance(0.5)) { ++g; Quiet q; v = a.v + 1; } else { --g; Quiet q; v = a.v - 1; } }
		else if (what == 8) { g = -a.g; Quiet q; v = -a.v; }
		else if (what == 9) {
			int k = (int)r.below(3);
			g = k == 0 ? a.g + i : k == 1 ? a.g - i : a.g * i;
			Quiet q;
			v = k == 0 ? Z(a.v + i) : k == 1 ? Z(a.v - i) : Z(a.v * i);
		}
		else if (what == 10) {
			int k = (int)r.below(3);
			g = k == 0 ? i + a.g : k == 1 ? i - a.g : i * a.g;
			Quiet q;
			v = k == 0 ? Z(i + a.v) : k == 1 ? Z(i - a.v) : Z(i * a.v);
		}
		else if (what == 11) {
			int k = (int)r.below(3);
			g = a.g;
			if (k == 0) g += i; else if (k == 1) g -= i; else g *= i;
			Quiet q;
			v = k == 0 ? Z(a.v + i) : k == 1 ? Z(a.v - i) : Z(a.v * i);
		}
		else if (what == 12) {
			// numbers that do not know their field yet
			int k = (int)r.below(4);
			G c(Z(r.chance(0.5) ? 0 : 1));
			long cv = carl::isZero(c) ? 0 : 1;
			if (k == 0) g = a.g + c; else if (k == 1) g = c - a.g; else if (k == 2) g = c * a.g; else { g = c; g += a.g; }
			Quiet q;
			v = k == 1 ? Z(cv - a.v) : k == 2 ? Z(cv * a.v) : Z(a.v + cv);
		}
		else if (what == 13) {
			int o = (int)r.below(fields.size());
			g = G(i, fields[o].f).toGF(f.f);
			Quiet q;
			// the representative is what moves to the other field
			v = zmod(i, fields[o].m);
			if (v * 2 > fields[o].m || (v * 2 == fields[o].m && zmod(G(i, fields[o].f).representingInteger() - v, fields[o].m) == 0 && G(i, fields[o].f).representingInteger() < 0)) v -= fields[o].m;
		}
		else {
			Z d;
			bool unit;
			{ Quiet q; unit = gcd(b.v, f.m) == 1; if (unit) d = inverse(b.v, f.m); }
			if (!unit) return;
			if (what == 14) { g = b.g.inverse(); Quiet q; v = d; }
			else if (r.chance(0.5)) { g = r.chance(0.5) ? a.g / b.g : carl::quotient(a.g, b.g); Quiet q; v = a.v * d; }
			else { g = a.g; g /= b.g; Quiet q; v = a.v * d; }
			reach("division");
		}
		if (r.chance(0.2)) g.normalize();
		check(g, v, fi, "number");
		{ Quiet q; SIM_LOG("number " + std::to_string(what) + " in field " + std::to_string(fi)); observe(mix((std::uint64_t)what, zmod(v, f.m).get_ui())); }
		std::lock_guard<std::mutex> l(mx);
		{ Quiet q; v = zmod(v, f.m); }
		if (nums.size() < 12) nums.push_back({g, v, fi});
		else { std::size_t k = fields.size() + r.below(nums.size() - fields.size()); nums[k] = {g, v, fi}; }
	}
	V coefficients(const UG& p, const Z& m, const char* what, bool strict = true) {
		V v;
		for (auto& c : p.coefficients()) v.push_back(c.representingInteger());
		Quiet q;
		if (strict) SIM_CHECK(v.empty() || zmod(v.back(), m) != 0, "wrong-result", std::string(what) + ": leading coefficient is zero: " + show(v) + " modulo " + m.get_str());
		reduce(v, m);
		return v;
	}
	UG build(const V& v, const Fld& f) {
		std::vector<G> c;
		for (auto& k : v) c.emplace_back(k, f.f);
		return UG(x, std::move(c));
	}
	void polynomial(int t, Rng& r) {
		int fi, fj;
		Pol a, b;
		{
			std::lock_guard<std::mutex> l(mx);
			a = pols[r.below(pols.size())];
			fi = a.f;
			b = pols[r.below(pols.size())];
			if (b.f != fi) b = pols[(std::size_t)fi];
		}
		const Fld& f = fields[fi];
		V w;
		{
			Quiet q;
			for (int i = (int)r.range(0, 5); i > 0; --i) w.push_back(random_int(r, f.m));
			if (r.chance(0.3) && !w.empty()) w.back() = 1;
		}
		if (r.chance(0.4)) {
			UZ z(x, std::vector<Z>(w));
			Quiet q;
			V rw = w;
			reduce(rw, f.m);
			b.v = rw;
			b.f = -1;
		}
		if (b.f < 0) {
			UZ z(x, std::vector<Z>(w));
			b.p = std::make_shared<const UG>(z.toFiniteDomain(f.f));
			b.f = fi;
			V got = coefficients(*b.p, f.m, "conversion");
			Quiet q;
			SIM_CHECK(got == b.v, "wrong-result", "conversion of a polynomial: " + show(got) + " instead of " + show(b.v));
		}
		int what = (int)r.below(9);
		bool field = f.k == 1, lead, alead;
		{ Quiet q; lead = !b.v.empty() && gcd(b.v.back(), f.m) == 1; alead = !a.v.empty() && gcd(a.v.back(), f.m) == 1; if (a.v.size() + b.v.size() > 24 && what == 2) what = 0; }
		V want, want2;
		bool done = false;
		try {
			Faulty ft;
			if (what == 0) res[t] = std::make_shared<UG>(*a.p + *b.p);
			else if (what == 1) res[t] = std::make_shared<UG>(*a.p - *b.p);
			else if (what == 2) res[t] = std::make_shared<UG>(*a.p * *b.p);
			else if (what == 3) { res[t] = std::make_shared<UG>(*a.p); if (r.chance(0.5)) *res[t] += *b.p; else { *res[t] -= *b.p; what = 13; } }
			else if (what == 4) { G c(w.empty() ? Z(1) : w[0], f.f); res[t] = std::make_shared<UG>(*a.p * c); }
			else if (what == 5 && lead) { auto d = carl::divide(*a.p, *b.p); res[t] = std::make_shared<UG>(d.quotient); res2[t] = std::make_shared<UG>(d.remainder); }
			else if (what == 6 && field && alead && lead) res[t] = std::make_shared<UG>(carl::gcd(*a.p, *b.p));
			else if (what == 7 && field && alead && lead) {
				res2[t] = std::make_shared<UG>(x);
				res3[t] = std::make_shared<UG>(x);
				res[t] = std::make_shared<UG>(carl::extended_gcd(*a.p, *b.p, *res2[t], *res3[t]));
			}
			else if (what == 8) { res[t] = std::make_shared<UG>(a.p->toIntegerDomain().toFiniteDomain(f.f)); }
			else return;
			done = true;
		} catch (const std::bad_alloc&) { reach("failed operation"); }
		V pa = coefficients(*a.p, f.m, "operand"), pb = coefficients(*b.p, f.m, "operand");
		{
			Quiet q;
			SIM_CHECK(pa == a.v && pb == b.v, "operand-changed", "operand of an operation: " + show(pa) + " instead of " + show(a.v) + " or " + show(pb) + " instead of " + show(b.v));
		}
		if (!done) { SIM_LOG("polynomial " + std::to_string(what) + " failed"); res[t].reset(); res2[t].reset(); res3[t].reset(); return; }
		V got = coefficients(*res[t], f.m, "polynomial"), got2, got3;
		if (res2[t]) got2 = coefficients(*res2[t], f.m, "remainder", what == 5);
		if (res3[t]) got3 = coefficients(*res3[t], f.m, "cofactor", false);
		{
			Quiet q;
			if (what == 0 || what == 3) want = v_add(a.v, b.v, f.m);
			else if (what == 1 || what == 13) want = v_add(a.v, b.v, f.m, -1);
			else if (what == 2) want = v_mul(a.v, b.v, f.m);
			else if (what == 4) want = v_mul(a.v, {w.empty() ? Z(1) : w[0]}, f.m);
			else if (what == 5) { V rem = v_rem(a.v, b.v, f.m, &want); SIM_CHECK(got2 == rem, "wrong-result", "remainder of " + show(a.v) + " by " + show(b.v) + ": " + show(got2) + " instead of " + show(rem) + " modulo " + f.m.get_str()); reach("polynomial division"); }
			else if (what == 6) { want = v_gcd(a.v, b.v, f.m); got = v_monic(got, f.m); reach("gcd"); }
			else if (what == 7) {
				V lhs = v_add(v_mul(got2, a.v, f.m), v_mul(got3, b.v, f.m), f.m);
				SIM_CHECK(lhs == got, "wrong-result", "extended gcd of " + show(a.v) + " and " + show(b.v) + ": cofactors give " + show(lhs) + " instead of " + show(got) + " modulo " + f.m.get_str());
				want = v_gcd(a.v, b.v, f.m);
				got = v_monic(got, f.m);
				reach("extended gcd");
			}
			else want = a.v;
			SIM_CHECK(got == want, "wrong-result", "polynomial operation " + std::to_string(what) + " on " + show(a.v) + " and " + show(b.v) + ": " + show(got) + " instead of " + show(want) + " modulo " + f.m.get_str());
			std::uint64_t h = want.size();
			for (auto& c : want) h = mix(h, c.get_ui());
			observe(mix((std::uint64_t)what, h));
			SIM_LOG("polynomial " + std::to_string(what) + " in field " + std::to_string(fi));
		}
		if (what != 6 && what != 7) {
			std::lock_guard<std::mutex> l(mx);
			Pol p{std::move(res[t]), want, fi};
			if (pols.size() < 8) pols.push_back(p);
			else { std::size_t k = fields.size() + r.below(pols.size() - fields.size()); pols[k] = p; }
		}
		res[t].reset(); res2[t].reset(); res3[t].reset();
	}
	PM pm_mod(const PM& x, const Z& m) {
		PM y;
		for (auto& t : x) { Z c = zmod(t.second.get_num(), m); if (c != 0) y[t.first] = Q(c); }
		return y;
	}
	void multivariate(int t, Rng& r) {
		Mul a, b;
		{
			std::lock_guard<std::mutex> l(mx);
			a = muls[r.below(muls.size())];
			b = muls[r.below(muls.size())];
			if (b.f != a.f) b = muls[(std::size_t)a.f];
		}
		const Fld& f = fields[a.f];
		if (f.k != 1) return; // a product of terms is zero only if one of them is
		int what = (int)r.below(4);
		Z i;
		std::size_t vi = r.below(3);
		{ Quiet q; i = random_int(r, f.m); if (what == 2 && a.x.size() * b.x.size() > 40) what = 1; }
		bool done = false;
		try {
			Faulty ft;
			if (what == 0) mres[t] = std::make_shared<MG>(*a.p + *b.p);
			else if (what == 1) mres[t] = std::make_shared<MG>(*a.p - *b.p);
			else if (what == 2) mres[t] = std::make_shared<MG>(*a.p * *b.p);
			else { mres[t] = std::make_shared<MG>(*a.p); carl::Term<G> term(G(i, f.f), pv.vars[vi], 1); if (!carl::isZero(term)) *mres[t] += term; }
			done = true;
		} catch (const std::bad_alloc&) { reach("failed operation"); }
		if (!done) { mres[t].reset(); return; }
		PM got, want;
		for (auto& term : *mres[t]) {
			Exps e{};
			if (term.monomial()) for (auto& ve : *term.monomial()) {
				for (std::size_t k = 0; k < pv.vars.size(); ++k) if (pv.vars[k] == ve.first) e[k] = (unsigned)ve.second;
			}
			Z c = term.coeff().representingInteger();
			Quiet q;
			SIM_CHECK(zmod(c, f.m) != 0, "wrong-result", "polynomial keeps a term that is zero, operation " + std::to_string(what) + " on " + pm_show(a.x) + " and " + pm_show(b.x) + ", " + i.get_str() + " modulo " + f.m.get_str());
			got[e] = Q(zmod(c, f.m));
		}
		{
			Quiet q;
			want = what == 0 ? a.x + b.x : what == 1 ? a.x - b.x : what == 2 ? a.x * b.x : a.x + pm_scale(pm_var(vi), Q(i));
			want = pm_mod(want, f.m);
			SIM_CHECK(got == want, "wrong-result", "polynomial in several variables, operation " + std::to_string(what) + ": " + pm_show(got) + " instead of " + pm_show(want) + " modulo " + f.m.get_str());
			observe(mix((std::uint64_t)what, want.size()));
			SIM_LOG("multivariate " + std::to_string(what) + " in field " + std::to_string(a.f));
		}
		{
			std::lock_guard<std::mutex> l(mx);
			if (want.size() < 16 && !want.empty()) {
				Mul m{std::move(mres[t]), want, a.f};
				if (muls.size() < 8) muls.push_back(m);
				else muls[fields.size() + r.below(muls.size() - fields.size())] = m;
			}
		}
		mres[t].reset();
	}
	void equation(int, Rng& r) {
		// c0 + c1 y1 + ... = 0 with an integer solution
		std::size_t n = (std::size_t)r.range(1, 3);
		V c(n);
		Z c0;
		{
			Quiet q;
			for (auto& k : c) { do k = Z(r.range(-30, 30)); while (k == 0); if (r.chance(0.3)) k *= r.range(1, 60); c0 -= k * r.range(-12, 12); }
		}
		MZ p;
		for (std::size_t i = 0; i < n; ++i) p += MZ(c[i]) * MZ(pv.vars[i]);
		p += MZ(c0);
		std::vector<Z> s = carl::solveDiophantine(p);
		std::vector<std::pair<carl::Variable, Z>> order;
		for (auto& t : p) if (t.monomial()) order.emplace_back(t.getSingleVariable(), t.coeff());
		Quiet q;
		std::string text = c0.get_str();
		for (auto& k : c) text += " " + k.get_str();
		SIM_CHECK(s.size() == n && order.size() == n, "wrong-result", "solution of the wrong size for " + text);
		Z sum = c0;
		for (std::size_t i = 0; i < n; ++i) sum += order[i].second * s[i];
		SIM_CHECK(sum == 0, "wrong-result", "no solution of the linear equation " + text + ": " + show(s));
		observe(mix(n, c0.get_ui()));
		reach("linear equation");
	}
	void registry(int, Rng& r) {
		// fields are kept by the registry: asking again gives the same field
		std::size_t i = r.below(fields.size());
		std::lock_guard<std::mutex> l(reg);
		const F* f = carl::GaloisFieldManager<Z>::getInstance().getField(fields[i].p, fields[i].k);
		unsigned p = pick_from(r, {2u, 3u, 5u, 17u, 257u}), k = (unsigned)r.range(1, 5);
		const F* g = carl::GaloisFieldManager<Z>::getInstance().getField(p, k);
		Quiet q;
		Z m;
		mpz_ui_pow_ui(m.get_mpz_t(), p, k);
		SIM_CHECK(f == fields[i].f && f->p() == fields[i].p && f->k() == fields[i].k && f->size() == fields[i].m, "wrong-result", "field changed: " + f->size().get_str() + " instead of " + fields[i].m.get_str());
		SIM_CHECK(g->p() == p && g->k() == k && g->size() == m, "wrong-result", "field of " + std::to_string(p) + "^" + std::to_string(k) + " has size " + g->size().get_str());
		observe(mix(p, k));
	}
	void op(int t, int, Rng& r) override {
		int what = (int)r.below(20);
		if (what < 8) number(t, r);
		else if (what < 14) polynomial(t, r);
		else if (what < 17) multivariate(t, r);
		else if (what < 18) registry(t, r);
		else equation(t, r);
	}
	void finish() override {
		nums.clear();
		pols.clear();
		muls.clear();
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

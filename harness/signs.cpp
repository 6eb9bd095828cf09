// Signs of polynomials: clients ask for the definiteness of polynomials and terms and for decompositions into sums of
// squares, on polynomials they share.
// build-flags: -DNDEBUG -include @VERIF@/harness/cocoa_stub.h
#include "poly_model.h"
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/polynomialfunctions/Definiteness.h>
#include <carl/core/polynomialfunctions/SoSDecomposition.h>
#include <algorithm>
#include <mutex>

using namespace sim;
namespace sim { const char* const harness_name = "signs"; }

namespace {
using sim::operator+;
using sim::operator-;
using sim::operator*;
using D = carl::Definiteness;

struct H : Harness {
	PolyVars pv;
	std::size_t nv = 2;
	struct Val { std::shared_ptr<const Poly> p; PM x; bool form = false, even = false, minus = false; };
	std::vector<Val> shared;
	std::mutex mx;
	/// The result of an operation; released outside of the injection of failures.
	std::vector<std::pair<Q, Poly>> res[MAXT];

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(1, r.chance(0.1) ? 24 : 8);
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.0, 0.001, 0.01});
			c.max_faults = (int)r.range(1, 6);
		}
	}
	Poly build(const PM& x) const {
		Poly p;
		for (auto& t : x) {
			Poly m(t.second);
			for (std::size_t i = 0; i < PM_VARS; ++i) for (unsigned k = 0; k < t.first[i]; ++k) m *= Poly(pv.vars[i]);
			p += m;
		}
		return p;
	}
	void setup(Rng& r) override {
		nv = (std::size_t)r.range(1, 4);
		for (std::size_t i = 0; i < nv; ++i) pv.vars.push_back(carl::freshRealVariable("x" + std::to_string(i)));
		std::sort(pv.vars.begin(), pv.vars.end());
		shared.resize(2);
		for (auto& s : shared) { { Quiet q; s.x = pm_var(0, 2); s.form = s.even = true; } s.p = std::make_shared<const Poly>(build(s.x)); }
		carl::definiteness(*shared[0].p);
		carl::sos_decomposition(*shared[0].p);
	}
	PM linear(Rng& r, bool constant) {
		PM x;
		for (std::size_t i = 0; i < nv; ++i) if (r.chance(0.6)) x = x + pm_scale(pm_var(i), pm_rational(r));
		if (constant) x = x + pm_const(pm_rational(r, true));
		return x;
	}
	/// A polynomial whose sign is of interest. form: a positive definite quadratic form. even: a sum of positive multiples of
	/// even powers.
	PM interesting(Rng& r, bool& form, bool& even) {
		form = even = false;
		PM x;
		switch (r.below(6)) {
		case 0: // sum of squares, possibly with a constant that spoils it
			for (int n = (int)r.range(1, 3); n > 0; --n) { PM l = linear(r, r.chance(0.5)); x = x + pm_scale(l * l, abs(pm_rational(r))); }
			if (r.chance(0.5)) x = x + pm_const(pm_rational(r, true));
			break;
		case 1: { // triangular: every variable has its own square
			for (std::size_t i = 0; i < nv; ++i) {
				PM l = pm_var(i);
				for (std::size_t j = i + 1; j < nv; ++j) if (r.chance(0.5)) l = l + pm_scale(pm_var(j), pm_rational(r));
				x = x + pm_scale(l * l, abs(pm_rational(r)));
			}
			form = true;
			break;
		}
		case 2: // even powers
			for (int n = (int)r.range(1, 4); n > 0; --n) {
				Exps e{};
				for (std::size_t i = 0; i < nv; ++i) if (r.chance(0.5)) e[i] = (unsigned char)(2 * r.range(0, 2));
				pm_add(x, e, abs(pm_rational(r)));
			}
			if (r.chance(0.3)) { Exps e{}; e[r.below(nv)] = (unsigned char)r.range(1, 4); pm_add(x, e, pm_rational(r)); }
			else even = true;
			break;
		case 3: // a quadratic polynomial
			for (int n = (int)r.range(1, 6); n > 0; --n) { Exps e{}; for (int k = (int)r.below(3); k > 0; --k) ++e[r.below(nv)]; pm_add(x, e, pm_rational(r)); }
			break;
		case 4: { // an indefinite quadratic form: a difference of squares
			PM a = linear(r, false), b = linear(r, false);
			x = pm_scale(a * a, abs(pm_rational(r))) - pm_scale(b * b, abs(pm_rational(r)));
			break;
		}
		default: x = pm_random(r, nv, 4, 4);
		}
		if (x.empty()) { x = pm_const(2); form = false; even = true; }
		return x;
	}
	/// Points where the sign is looked at: some anywhere, and the stationary point of a quadratic polynomial.
	std::vector<std::vector<Q>> points(Rng& r, const PM& x) {
		std::vector<std::vector<Q>> ps;
		for (int n = 0; n < 12; ++n) {
			std::vector<Q> p;
			for (std::size_t i = 0; i < PM_VARS; ++i) p.push_back(n == 0 ? Q(0) : n < 5 ? Q((long)r.range(-2, 2)) : n < 9 ? Q(Q((long)r.range(-40, 40)) / 8) : Q((long)r.range(-100000, 100000)));
			ps.push_back(p);
		}
		if (pm_deg(x) == 2) {
			// gradient = 0 by elimination, free variables at random
			std::vector<std::vector<Q>> m;
			for (std::size_t i = 0; i < nv; ++i) {
				PM d = pm_derivative(x, i, 1);
				std::vector<Q> row(nv + 1);
				for (auto& t : d) { std::size_t at = nv; for (std::size_t j = 0; j < nv; ++j) if (t.first[j]) at = j; row[at] += t.second; }
				m.push_back(row);
			}
			std::vector<Q> p(PM_VARS);
			for (std::size_t i = 0; i < nv; ++i) p[i] = (long)r.range(-3, 3);
			std::vector<int> lead;
			std::size_t row = 0;
			for (std::size_t c = 0; c < nv && row < m.size(); ++c) {
				std::size_t k = row;
				while (k < m.size() && m[k][c] == 0) ++k;
				if (k == m.size()) continue;
				std::swap(m[k], m[row]);
				for (std::size_t i = 0; i < m.size(); ++i) if (i != row && m[i][c] != 0) { Q f = m[i][c] / m[row][c]; for (std::size_t j = 0; j <= nv; ++j) m[i][j] -= f * m[row][j]; }
				lead.push_back((int)c);
				++row;
			}
			for (std::size_t i = 0; i < lead.size(); ++i) {
				Q s = m[i][nv];
				for (std::size_t j = 0; j < nv; ++j) if ((int)j != lead[i]) { bool pivot = std::find(lead.begin(), lead.end(), (int)j) != lead.end(); if (!pivot) s += m[i][j] * p[j]; }
				p[lead[i]] = -s / m[i][lead[i]];
			}
			ps.push_back(p);
		}
		return ps;
	}
	void verdict(Rng& r, D d, const PM& x, const char* what) {
		if (d == D::NON) return;
		for (auto& p : points(r, x)) {
			int s = sgn(pm_eval(x, p));
			bool ok = d == D::POSITIVE ? s > 0 : d == D::POSITIVE_SEMI ? s >= 0 : d == D::NEGATIVE ? s < 0 : s <= 0;
			std::string at;
			for (std::size_t i = 0; i < nv; ++i) at += " " + p[i].get_str();
			SIM_CHECK(ok, "wrong-sign", what << " " << pm_show(x) << " is said to be " << d << ", but its sign at" << at << " is " << s);
		}
		reach("definite");
	}
	void op(int t, int, Rng& r) override {
		PM x;
		bool form = false, even = false, minus = false, raised = false, share, full, plain, neg, keep;
		int k;
		std::shared_ptr<const Poly> p;
		std::size_t at = r.below(2);
		{
			Quiet q;
			k = (int)r.below(5);
			share = r.chance(0.4);
			full = r.chance(0.8);
			plain = r.chance(0.5);
			neg = r.chance(0.3);
			keep = r.chance(0.4);
			x = interesting(r, form, even);
			if (form && r.chance(0.3)) { x = x + pm_const(abs(pm_rational(r))); raised = true; }
			if (neg) { x = pm_scale(x, -1); minus = true; }
		}
		if (share) {
			std::lock_guard<std::mutex> lg(mx);
			p = shared[at].p;
			Quiet q;
			x = shared[at].x; form = shared[at].form; even = shared[at].even; minus = shared[at].minus; raised = x.count(Exps{}) > 0;
		}
		if (!p) p = std::make_shared<const Poly>(build(x));
		SIM_LOG("t" << t << " operation " << k << " p=" << pm_show(x));
		D d = D::NON, dt = D::NON;
		bool done = false;
		try {
			Faulty f;
			if (k < 3) { d = carl::definiteness(*p, full); dt = carl::definiteness(p->lterm()); }
			else res[t] = carl::sos_decomposition(*p, plain);
			done = true;
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "unexpected-exception", "bad_alloc without a failed allocation");
		}
		if (done) {
			Quiet q;
			bool pure = pm_deg(x) == 2;
			if (k < 3) {
				verdict(r, d, x, "the polynomial");
				PM l = pm_term(pm_lead(x), x.at(pm_lead(x)));
				verdict(r, dt, l, "the term");
				if (pm_deg(x) > 1 && (even || (form && full))) {
					SIM_CHECK(minus ? d <= D::NEGATIVE_SEMI : d >= D::POSITIVE_SEMI, "not-recognised", pm_show(x) << " is said to be " << d);
					if (form && raised) SIM_CHECK(d == (minus ? D::NEGATIVE : D::POSITIVE), "not-recognised", pm_show(x) << " is said to be " << d);
				}
				bool square = true;
				for (auto e : pm_lead(x)) if (e % 2) square = false;
				SIM_CHECK((dt != D::NON) == square, "not-recognised", "the term " << pm_show(l) << " is said to be " << dt);
				observe(mix((std::uint64_t)d, pm_hash(x)));
			} else {
				if (!res[t].empty()) {
					PM sum;
					for (auto& s : res[t]) {
						PM y = pm_read(pv, s.second, "square");
						SIM_CHECK(s.first > 0, "wrong-result", "a square of " << pm_show(x) << " has the factor " << s.first);
						sum = sum + pm_scale(y * y, s.first);
					}
					SIM_CHECK(sum == x, "wrong-result", "the squares for " << pm_show(x) << " add up to " << pm_show(sum));
					reach("squares");
				} else if (form && pure && !minus && !raised) SIM_CHECK(false, "not-recognised", "no squares for " << pm_show(x));
				observe(mix(res[t].size(), pm_hash(x)));
			}
			SIM_CHECK(pm_read(pv, *p, "operand") == x, "operand-changed", "the polynomial changed");
			state(mix(pm_hash(x), (std::uint64_t)d));
		}
		{ std::vector<std::pair<Q, Poly>> e; std::swap(e, res[t]); }
		if (!share && keep) {
			std::lock_guard<std::mutex> lg(mx);
			shared[at].p = p;
			Quiet q;
			shared[at].x = x; shared[at].form = form; shared[at].even = even; shared[at].minus = minus;
		}
	}
	void task_end(int) override {}
	void finish() override {
		std::vector<Val> s;
		std::swap(s, shared);
	}
};
}
namespace sim { Harness* make_harness() { return new H; } }

// Real algebraic numbers: clients compare, refine and copy numbers that share their lazily refined representation.
// build-flags: -DNDEBUG -include @VERIF@/harness/cocoa_stub.h
#include "common.h"
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/VariablePool.h>
#include <carl/ran/ran.h>
#include <carl/ran/real_roots.h>
#include <carl/ran/interval/ran_interval_extra.h>
#include <mutex>

using namespace sim;
namespace sim { const char* const harness_name = "ran"; }

namespace {
using Q = mpq_class;
using RAN = carl::RealAlgebraicNumber<Q>;
using UP = carl::UnivariatePolynomial<Q>;
using MP = carl::MultivariatePolynomial<Q>;
using Iv = carl::Interval<Q>;
using BT = carl::BoundType;
using carl::Relation;
using carl::Sign;
using carl::Variable;

// ---------------------------------------------------------------- reference: exact roots by Sturm sequences
using VP = std::vector<Q>; // coefficients, lowest first
void trim(VP& p) { while (!p.empty() && p.back() == 0) p.pop_back(); }
Q veval(const VP& p, const Q& x) {
	Q r = 0;
	for (std::size_t i = p.size(); i-- > 0;) r = r * x + p[i];
	return r;
}
VP vmul(const VP& a, const VP& b) {
	if (a.empty() || b.empty()) return {};
	VP r(a.size() + b.size() - 1);
	for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
	trim(r);
	return r;
}
VP vrem(VP a, const VP& b) {
	while (a.size() >= b.size()) {
		Q f = a.back() / b.back();
		std::size_t s = a.size() - b.size();
		for (std::size_t i = 0; i < b.size(); ++i) a[s + i] -= f * b[i];
		a.pop_back();
		trim(a);
	}
	return a;
}
VP vquot(VP a, const VP& b) {
	VP q(a.size() >= b.size() ? a.size() - b.size() + 1 : 0);
	while (a.size() >= b.size()) {
		Q f = a.back() / b.back();
		std::size_t s = a.size() - b.size();
		q[s] = f;
		for (std::size_t i = 0; i < b.size(); ++i) a[s + i] -= f * b[i];
		a.pop_back();
		trim(a);
	}
	trim(q);
	return q;
}
VP vmonic(VP a) {
	if (a.empty()) return a;
	Q f = a.back();
	for (auto& c : a) c /= f;
	return a;
}
VP vgcd(VP a, VP b) {
	while (!b.empty()) {
		VP r = vmonic(vrem(a, b));
		a = std::move(b);
		b = std::move(r);
	}
	return vmonic(a);
}
VP vder(const VP& p) {
	VP r;
	for (std::size_t i = 1; i < p.size(); ++i) r.push_back(p[i] * Q((unsigned long)i));
	trim(r);
	return r;
}
VP vsqfree(const VP& p) {
	if (p.size() < 3) return vmonic(p);
	return vmonic(vquot(p, vgcd(p, vder(p))));
}
VP vneg(VP p) { // p(-x)
	for (std::size_t i = 1; i < p.size(); i += 2) p[i] = -p[i];
	return p;
}
std::vector<VP> sturm(const VP& p) {
	std::vector<VP> s{p, vder(p)};
	while (!s.back().empty()) {
		VP r = vrem(s[s.size() - 2], s.back());
		if (r.empty()) break;
		Q f = abs(r.back());
		for (auto& c : r) c = -c / f;
		s.push_back(r);
	}
	if (s.back().empty()) s.pop_back();
	return s;
}
int variations(const std::vector<VP>& s, const Q& x) {
	int n = 0, last = 0;
	for (auto& p : s) {
		int g = sgn(veval(p, x));
		if (g == 0) continue;
		if (last && g != last) ++n;
		last = g;
	}
	return n;
}
/// Number of roots in (a,b] of a polynomial given by its Sturm sequence.
int count(const std::vector<VP>& s, const Q& a, const Q& b) { return variations(s, a) - variations(s, b); }
std::string vshow(const VP& p) {
	std::ostringstream os;
	for (std::size_t i = p.size(); i-- > 0;) if (p[i] != 0) os << (sgn(p[i]) < 0 ? "" : "+") << p[i] << (i ? "x^" : "") << (i ? std::to_string(i) : "");
	return p.empty() ? "0" : os.str();
}

struct Root {
	VP p; // square-free
	std::vector<VP> seq;
	Q lo, hi; // the only root of p in (lo,hi]
	void refine() {
		Q m = (lo + hi) / 2;
		if (count(seq, lo, m) == 1) hi = m; else lo = m;
	}
	/// Sign of the root minus q.
	int cmp(const Q& q) const {
		if (q <= lo) return 1;
		if (q > hi) return -1;
		if (veval(p, q) == 0) return 0;
		return count(seq, lo, q) == 1 ? -1 : 1;
	}
	int sign_of(const VP& s) const {
		if (s.empty()) return 0;
		if (s.size() == 1) return sgn(s[0]);
		VP g = vgcd(p, s);
		if (g.size() > 1 && count(sturm(g), lo, hi) == 1) return 0;
		Root r(*this);
		auto t = sturm(vsqfree(s));
		for (int i = 0; i < 400; ++i) {
			if (count(t, r.lo, r.hi) == 0) return sgn(veval(s, r.hi));
			r.refine();
		}
		return sgn(veval(s, r.hi));
	}
};
std::vector<Root> isolate(const VP& poly) {
	std::vector<Root> res;
	VP p = vsqfree(poly);
	if (p.size() < 2) return res;
	auto seq = sturm(p);
	Q b = 1;
	for (auto& c : p) b += abs(c);
	struct I { Q lo, hi; };
	std::vector<I> todo{{-b, b}};
	while (!todo.empty()) {
		I i = todo.back();
		todo.pop_back();
		int n = count(seq, i.lo, i.hi);
		if (n == 0) continue;
		if (n == 1) { res.push_back({p, seq, i.lo, i.hi}); continue; }
		Q m = (i.lo + i.hi) / 2;
		todo.push_back({i.lo, m});
		todo.push_back({m, i.hi});
	}
	return res;
}
bool same(const Root& a, const Root& b) {
	VP g = vgcd(a.p, b.p);
	if (g.size() < 2) return false;
	Q lo = std::max(a.lo, b.lo), hi = std::min(a.hi, b.hi);
	return lo < hi && count(sturm(g), lo, hi) == 1;
}

const Relation ALL[] = {Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};
bool holds(int c, Relation r) {
	switch (r) {
	case Relation::EQ: return c == 0;
	case Relation::NEQ: return c != 0;
	case Relation::LESS: return c < 0;
	case Relation::LEQ: return c <= 0;
	case Relation::GREATER: return c > 0;
	default: return c >= 0;
	}
}
std::string show(const Iv& i) {
	std::ostringstream os;
	os << (i.lowerBoundType() == BT::WEAK ? "[" : "(");
	if (i.lowerBoundType() == BT::INFTY) os << "-inf"; else os << i.lower();
	os << ",";
	if (i.upperBoundType() == BT::INFTY) os << "inf"; else os << i.upper();
	os << (i.upperBoundType() == BT::WEAK ? "]" : ")");
	return os.str();
}

struct H : Harness {
	struct Val {
		RAN v;
		int rank = -1; // the root it denotes
	};
	std::vector<Root> roots; // all roots around, in increasing order
	std::vector<VP> polys;
	std::vector<UP> ups;
	std::vector<std::vector<int>> poly_roots; // ranks
	std::vector<int> negated;                 // rank of the negated root
	int zero = -1;
	Variable x, y;
	std::vector<Val> slots[MAXT];
	std::vector<Val> shared;
	std::mutex shared_mutex;
	std::size_t nslots = 0;

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 3);
		c.preempt = false;
		c.track_races = false;
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(4, 24);
		if (faults) {
			c.rate[F_ALLOC] = 0.002;
			c.max_faults = 3;
		}
		c.step_cap = 60000000;
		nslots = (std::size_t)r.range(2, 5);
	}
	UP upoly(const VP& p) const { return UP(x, p); }
	static VP vpoly(const UP& p) {
		VP r(p.coefficients().begin(), p.coefficients().end());
		trim(r);
		return r;
	}
	VP random_factor(Rng& r) {
		auto small = [&]() { return Q((int)r.range(-4, 4)); };
		switch (r.below(8)) {
		case 0: { Q q((int)r.range(-12, 12), (int)r.range(1, 6)); q.canonicalize(); return {-q, 1}; }
		case 1: return {-Q((int)r.range(-6, 6)), 1};
		case 2: { Q q((int)r.range(1, 40), (int)r.range(1, 5)); q.canonicalize(); return {-q, 0, 1}; }
		case 3: { // two close roots
			Q a((int)r.range(-5, 5), (int)r.range(1, 3));
			a.canonicalize();
			static const int den[] = {5, 101, 10007, 1000003, 99};
			Q e(1, den[r.below(5)]);
			if (r.chance(0.3)) e *= e;
			return {a * a - e, -2 * a, 1};
		}
		case 4: return {small(), small(), 1};
		case 5: return {small(), small(), small(), Q((int)r.range(1, 3))};
		case 6: { VP p{small(), small(), small(), small(), Q((int)r.range(1, 2))}; return p; }
		default: return {0, 1};
		}
	}
	void setup(Rng& r) override {
		x = carl::freshRealVariable("x");
		y = carl::freshRealVariable("y");
		carl::RealAlgebraicNumber<Q> warm(UP(x, VP{-2, 0, 1}), Iv(Q(1), BT::STRICT, Q(2), BT::STRICT));
		carl::Constraint<MP> warm_constraint(MP(x) * MP(x) - MP(y), Relation::LESS);
		warm.refine();
		{
			Quiet q;
			std::vector<VP> fs;
			for (int i = (int)r.range(2, 4); i > 0; --i) fs.push_back(random_factor(r));
			std::vector<Root> all;
			auto add = [&](const VP& p) {
				for (auto& n : isolate(p)) {
					bool dup = false;
					for (auto& o : all) dup = dup || same(o, n);
					if (!dup) all.push_back(n);
				}
			};
			add({0, 1});
			for (auto& f : fs) { add(f); add(vneg(f)); }
			// separate them
			for (std::size_t i = 0; i < all.size(); ++i) for (std::size_t j = 0; j < i; ++j)
				while (!(all[i].hi <= all[j].lo || all[j].hi <= all[i].lo)) { all[i].refine(); all[j].refine(); }
			std::sort(all.begin(), all.end(), [](const Root& a, const Root& b) { return a.lo < b.lo; });
			roots = all;
			for (std::size_t i = 0; i < roots.size(); ++i) {
				if (roots[i].cmp(0) == 0) zero = (int)i;
				negated.push_back((int)(roots.size() - 1 - i));
			}
			int np = (int)r.range(2, 4);
			for (int i = 0; i < np; ++i) {
				VP p{Q((int)r.range(1, 3))};
				if (r.chance(0.3)) p[0] = -p[0];
				for (int k = (int)r.range(1, 3); k > 0; --k) {
					VP f = fs[r.below(fs.size())];
					if (r.chance(0.2)) f = vneg(f);
					if (p.size() + f.size() <= 9) p = vmul(p, f);
				}
				polys.push_back(p);
			}
			for (auto& p : polys) {
				std::vector<int> rk;
				for (std::size_t i = 0; i < roots.size(); ++i) if (roots[i].sign_of(p) == 0) rk.push_back((int)i);
				poly_roots.push_back(rk);
			}
		}
		for (auto& p : polys) ups.push_back(upoly(p));
		for (int t = 0; t < MAXT; ++t) slots[t].resize(nslots);
		shared.resize(2);
		for (int t = 0; t < MAXT; ++t) for (auto& s : slots[t]) s.rank = zero;
		for (auto& s : shared) s.rank = zero;
	}

	std::string name(int rank) const {
		std::ostringstream os;
		os << "root of " << vshow(roots[rank].p) << " in (" << roots[rank].lo << "," << roots[rank].hi << "]";
		return os.str();
	}
	static std::string show_ran(const RAN& v) { std::ostringstream os; os << v; return os.str(); }
	/// The number still denotes its root.
	void verify(const RAN& v, int rank, const char* what) const {
		const Root& o = roots[rank];
		if (v.is_numeric()) {
			SIM_CHECK(o.cmp(v.value()) == 0, "moved-number", what << " is " << v.value() << ", expected the " << name(rank));
			return;
		}
		Q lo = v.interval().lower(), hi = v.interval().upper();
		SIM_CHECK(o.cmp(lo) > 0 && o.cmp(hi) < 0, "moved-number", what << " is in " << show(v.interval()) << ", expected the " << name(rank));
		VP p = vpoly(v.polynomial());
		SIM_CHECK(o.sign_of(p) == 0, "moved-number", what << " is a root of " << vshow(p) << ", expected the " << name(rank));
		SIM_CHECK(veval(p, hi) == 0 ? false : count(sturm(vsqfree(p)), lo, hi) == 1, "moved-number", what << ": " << vshow(p) << " has not exactly one root in " << show(v.interval()));
	}
	Q rational(Rng& r, int t) {
		Quiet q;
		switch (r.below(6)) {
		case 0: return Q((int)r.range(-6, 6));
		case 1: { Q v((int)r.range(-50, 50), (int)r.range(1, 12)); v.canonicalize(); return v; }
		case 2: case 3: { // what a number knows about itself
			const RAN& v = slots[t][r.below(nslots)].v;
			if (v.is_numeric()) return v.value();
			if (r.chance(0.3)) return v.interval().lower();
			if (r.chance(0.4)) return v.interval().upper();
			return (v.interval().lower() + v.interval().upper()) / 2;
		}
		case 4: { // a rational root
			const Root& o = roots[r.below(roots.size())];
			if (o.p.size() == 2) return -o.p[0] / o.p[1];
			return o.hi;
		}
		default: return roots[r.below(roots.size())].lo;
		}
	}
	Iv interval(Rng& r, int t) {
		Q a = rational(r, t), b = rational(r, t);
		Quiet q;
		if (a > b) std::swap(a, b);
		if (a == b && r.chance(0.8)) b += Q(1, (int)r.range(1, 5));
		BT lt = r.chance(0.15) ? BT::INFTY : r.chance(0.5) ? BT::STRICT : BT::WEAK;
		BT ut = r.chance(0.15) ? BT::INFTY : r.chance(0.5) ? BT::STRICT : BT::WEAK;
		if (a == b && lt != BT::INFTY && ut != BT::INFTY) lt = ut = BT::WEAK;
		return Iv(a, lt, b, ut);
	}
	bool inside(int rank, const Iv& i) const {
		const Root& o = roots[rank];
		if (i.lowerBoundType() != BT::INFTY) {
			int c = o.cmp(i.lower());
			if (c < 0 || (c == 0 && i.lowerBoundType() == BT::STRICT)) return false;
		}
		if (i.upperBoundType() != BT::INFTY) {
			int c = o.cmp(i.upper());
			if (c > 0 || (c == 0 && i.upperBoundType() == BT::STRICT)) return false;
		}
		return true;
	}
	/// floor of a root
	Q floor_of(int rank) const {
		Root o(roots[rank]);
		mpz_class f;
		for (;;) {
			mpz_fdiv_q(f.get_mpz_t(), o.hi.get_num_mpz_t(), o.hi.get_den_mpz_t());
			int c = o.cmp(Q(f));
			if (c >= 0) {
				if (o.cmp(Q(f + 1)) < 0) return Q(f);
			} else {
				// f is above the root
				mpz_class g = f;
				while (o.cmp(Q(g)) < 0) --g;
				return Q(g);
			}
			o.refine();
		}
	}
	void op(int t, int, Rng& r) override {
		std::vector<Val>& S = slots[t];
		Val& a = S[r.below(nslots)];
		Val& b = S[r.below(nslots)];
		int k = (int)r.below(30);
		const char* what = "";
		try {
			Faulty ff;
			if (k <= 4) {
				what = "isolated root";
				std::size_t i = r.below(polys.size());
				bool all = r.chance(0.6);
				Iv iv = all ? Iv::unboundedInterval() : interval(r, t);
				{ Quiet q; SIM_LOG("roots of " << vshow(polys[i]) << " in " << show(iv)); }
				auto res = [&] {
					if (r.chance(0.75)) return all ? carl::real_roots(ups[i]) : carl::real_roots(ups[i], iv);
					// the same polynomial, once a second variable has its rational value
					Q val(r.range(0, 6) - 3, r.chance(0.5) ? 1 : 2);
					val.canonicalize();
					std::vector<MP> cs;
					bool has = false;
					for (auto& c : polys[i]) {
						MP m(c);
						if (r.chance(0.5)) { m += (MP(y) - MP(val)) * MP(Q(1 + (long)r.below(3))); has = true; }
						cs.push_back(m);
					}
					carl::UnivariatePolynomial<MP> p(ups[i].mainVar(), cs);
					carl::ran::ran_assignment_t<RAN> as;
					if (has && r.chance(0.1)) {
						auto none = carl::real_roots(p, as);
						SIM_CHECK(none.is_non_univariate(), "wrong-roots", "roots although a variable has no value");
					}
					if (r.chance(0.1)) {
						carl::UnivariatePolynomial<MP> z(ups[i].mainVar(), std::vector<MP>{MP(y) - MP(val), MP(0), MP(y) - MP(val)});
						carl::ran::ran_assignment_t<RAN> bs;
						bs.emplace(y, RAN(val));
						auto null = carl::real_roots(z, bs);
						SIM_CHECK(null.is_nullified(), "wrong-roots", "roots of a polynomial that vanishes");
					}
					as.emplace(y, RAN(val));
					return all ? carl::real_roots(p, as) : carl::real_roots(p, as, iv);
				}();
				std::vector<int> expect;
				{
					Quiet q;
					for (int k : poly_roots[i]) if (inside(k, iv)) expect.push_back(k);
					SIM_CHECK(res.is_univariate(), "wrong-roots", "no root list for " << vshow(polys[i]));
					auto& rs = res.roots();
					std::ostringstream os;
					for (auto& v : rs) os << " " << show_ran(v);
					SIM_CHECK(rs.size() == expect.size(), "wrong-roots", vshow(polys[i]) << " has " << expect.size() << " roots in " << show(iv) << ", got" << os.str());
					for (std::size_t j = 0; j < rs.size(); ++j) verify(rs[j], expect[j], what);
					if (!all && expect.size() < poly_roots[i].size()) reach("roots outside the interval");
					if (rs.empty()) return;
				}
				std::size_t j = r.below(expect.size());
				RAN v = res.roots()[j];
				{ Quiet q; std::swap(a.v, v); a.rank = expect[j]; }
				if (expect.size() > 1 && r.chance(0.6)) {
					j = r.below(expect.size());
					RAN w = res.roots()[j];
					Quiet q;
					std::swap(b.v, w);
					b.rank = expect[j];
				}
			} else if (k <= 6) {
				what = "constructed number";
				std::size_t i = r.below(polys.size());
				if (poly_roots[i].empty()) return;
				int rank = poly_roots[i][r.below(poly_roots[i].size())];
				Iv iv;
				bool safe;
				{
					Quiet q;
					Root o(roots[rank]);
					auto seq = sturm(vsqfree(polys[i]));
					for (int n = (int)r.below(6); n > 0; --n) o.refine();
					// open isolating interval: the next roots are outside
					for (int n = 0; n < 200; ++n) {
						Q hi = o.hi;
						if (o.cmp(hi) == 0) hi += (o.hi - o.lo) / 3;
						if (veval(polys[i], hi) != 0 && veval(polys[i], o.lo) != 0 && count(seq, o.lo, hi) == 1) { iv = Iv(o.lo, BT::STRICT, hi, BT::STRICT); break; }
						o.refine();
					}
					safe = vsqfree(polys[i]).size() != polys[i].size() || r.chance(0.3);
					SIM_LOG("number from " << vshow(polys[i]) << " in " << show(iv));
					if (iv.lowerBoundType() == BT::INFTY || !(iv.lower() < iv.upper())) return;
				}
				RAN v = safe ? RAN::create_safe(ups[i], iv) : RAN(ups[i], iv);
				Quiet q;
				verify(v, rank, what);
				std::swap(a.v, v);
				a.rank = rank;
			} else if (k == 7) {
				what = "rational";
				const Root* o = nullptr;
				int rank = -1;
				{
					Quiet q;
					for (std::size_t i = 0; i < 5 && !o; ++i) {
						rank = (int)r.below(roots.size());
						if (roots[rank].p.size() == 2) o = &roots[rank];
					}
				}
				if (!o) return;
				RAN v(Q(-o->p[0] / o->p[1]));
				Quiet q;
				std::swap(a.v, v);
				a.rank = rank;
			} else if (k <= 13) {
				what = "compared number";
				Relation rel = ALL[r.below(6)];
				{ Quiet q; SIM_LOG("compare " << show_ran(a.v) << " " << rel << " " << show_ran(b.v)); }
				bool got;
				switch (rel) {
				case Relation::EQ: got = a.v == b.v; break;
				case Relation::NEQ: got = a.v != b.v; break;
				case Relation::LESS: got = a.v < b.v; break;
				case Relation::LEQ: got = a.v <= b.v; break;
				case Relation::GREATER: got = a.v > b.v; break;
				default: got = a.v >= b.v;
				}
				Quiet q;
				if (a.rank == b.rank && &a != &b) reach("equal numbers compared");
				SIM_CHECK(got == holds(a.rank - b.rank, rel), "wrong-order", show_ran(a.v) << " " << rel << " " << show_ran(b.v) << " is " << got << " for the " << name(a.rank) << " and the " << name(b.rank));
				observe((std::uint64_t)got);
			} else if (k <= 17) {
				what = "number compared with a rational";
				Relation rel = ALL[r.below(6)];
				Q c = rational(r, t);
				{ Quiet q; SIM_LOG("compare " << show_ran(a.v) << " " << rel << " " << c); }
				bool got, left = r.chance(0.5);
				switch (rel) {
				case Relation::EQ: got = left ? a.v == c : c == a.v; break;
				case Relation::NEQ: got = left ? a.v != c : c != a.v; break;
				case Relation::LESS: got = left ? a.v < c : c > a.v; break;
				case Relation::LEQ: got = left ? a.v <= c : c >= a.v; break;
				case Relation::GREATER: got = left ? a.v > c : c < a.v; break;
				default: got = left ? a.v >= c : c <= a.v;
				}
				Quiet q;
				int e = roots[a.rank].cmp(c);
				if (e == 0) reach("equal to a rational");
				SIM_CHECK(got == holds(e, rel), "wrong-order", show_ran(a.v) << " " << rel << " " << c << " is " << got << " for the " << name(a.rank));
				observe((std::uint64_t)got);
			} else if (k == 18) {
				what = "number asked for its integer bounds";
				Q f = carl::floor(a.v), c = carl::ceil(a.v), below = a.v.integer_below();
				Sign s = a.v.sgn();
				bool z = a.v.is_zero(), in = carl::isInteger(a.v);
				Quiet q;
				Q e = floor_of(a.rank);
				bool integral = roots[a.rank].cmp(e) == 0;
				SIM_CHECK(f == e, "wrong-bound", "floor of " << show_ran(a.v) << " is " << f << ", expected " << e);
				SIM_CHECK(c == (integral ? e : e + 1), "wrong-bound", "ceiling of " << show_ran(a.v) << " is " << c << ", floor " << e);
				SIM_CHECK(below == e, "wrong-bound", "integer below " << show_ran(a.v) << " is " << below << ", expected " << e);
				SIM_CHECK((int)s == roots[a.rank].cmp(0), "wrong-sign", "sign of " << show_ran(a.v) << " is " << (int)s);
				SIM_CHECK(z == (a.rank == zero), "wrong-sign", show_ran(a.v) << (z ? " is zero" : " is not zero"));
				SIM_CHECK(in == integral, "wrong-bound", show_ran(a.v) << (in ? " is integral" : " is not integral"));
			} else if (k == 19) {
				what = "sampled number";
				Q up = carl::sample_above(a.v), down = carl::sample_below(a.v), br = carl::branching_point(a.v);
				Quiet q;
				SIM_CHECK(roots[a.rank].cmp(up) < 0, "wrong-sample", up << " is not above " << show_ran(a.v));
				SIM_CHECK(roots[a.rank].cmp(down) > 0, "wrong-sample", down << " is not below " << show_ran(a.v));
				SIM_CHECK(a.v.is_numeric() ? br == a.v.value() : (br > a.v.interval().lower() && br < a.v.interval().upper()), "wrong-sample", "branching point " << br << " of " << show_ran(a.v));
			} else if (k <= 21) {
				what = "number with a sample next to it";
				if (r.chance(0.5)) {
					if (a.rank == b.rank) return;
					Val& lo = a.rank < b.rank ? a : b;
					Val& hi = a.rank < b.rank ? b : a;
					{ Quiet q; SIM_LOG("sample between " << show_ran(lo.v) << " and " << show_ran(hi.v)); }
					Q s = carl::sample_between(lo.v, hi.v);
					Quiet q;
					SIM_CHECK(roots[lo.rank].cmp(s) < 0 && roots[hi.rank].cmp(s) > 0, "wrong-sample", s << " is not between " << show_ran(lo.v) << " and " << show_ran(hi.v));
				} else {
					Q c = rational(r, t);
					int e;
					{ Quiet q; e = roots[a.rank].cmp(c); SIM_LOG("sample between " << show_ran(a.v) << " and " << c); }
					if (e == 0) return;
					Q s = e < 0 ? carl::sample_between(a.v, c) : carl::sample_between(c, a.v);
					Quiet q;
					SIM_CHECK(roots[a.rank].cmp(s) == e && sgn(Q(s - c)) == e, "wrong-sample", s << " is not between " << show_ran(a.v) << " and " << c);
				}
			} else if (k == 22) {
				what = "absolute value";
				{ Quiet q; SIM_LOG("abs " << show_ran(a.v)); }
				RAN v = r.chance(0.5) ? a.v.abs() : carl::abs(a.v);
				Quiet q;
				int rank = roots[a.rank].cmp(0) < 0 ? negated[a.rank] : a.rank;
				verify(v, rank, what);
				std::swap(b.v, v);
				b.rank = rank;
			} else if (k == 23) {
				what = "number tested for an interval";
				Iv iv = interval(r, t);
				{ Quiet q; SIM_LOG(show_ran(a.v) << " in " << show(iv)); }
				bool got = a.v.contained_in(iv);
				Quiet q;
				SIM_CHECK(got == inside(a.rank, iv), "wrong-order", show_ran(a.v) << (got ? " is" : " is not") << " in " << show(iv) << ", number is the " << name(a.rank));
			} else if (k == 24) {
				what = "number put into a polynomial";
				std::size_t i = r.below(polys.size());
				VP p = polys[i];
				UP u = ups[i];
				if (r.chance(0.5)) {
					{ Quiet q; if (r.chance(0.5)) p[0] += Q((int)r.range(-2, 2)); else p.resize(r.range(1, (int)p.size())); trim(p); }
					if (p.empty()) return;
					u = upoly(p);
				}
				{ Quiet q; SIM_LOG("sign of " << vshow(p) << " at " << show_ran(a.v)); }
				Sign s = a.v.sgn(u);
				bool root = carl::is_root_of(u, a.v) != 0;
				Quiet q;
				int e = roots[a.rank].sign_of(p);
				SIM_CHECK((int)s == e, "wrong-sign", vshow(p) << " at " << show_ran(a.v) << " has sign " << (int)s << ", expected " << e);
				SIM_CHECK(root == (e == 0), "wrong-sign", show_ran(a.v) << (root ? " is" : " is not") << " a root of " << vshow(p));
			} else if (k == 25) {
				what = "refined number";
				for (int n = (int)r.range(1, 6); n > 0; --n) a.v.refine();
			} else if (k == 26) {
				what = "hashed number";
				std::size_t ha = std::hash<RAN>()(a.v), hb = std::hash<RAN>()(b.v);
				Quiet q;
				SIM_CHECK(a.rank != b.rank || ha == hb, "wrong-hash", "equal numbers " << show_ran(a.v) << " and " << show_ran(b.v) << " have different hash values");
			} else if (k == 27) {
				what = "shared number";
				Val c(a);
				std::lock_guard<std::mutex> l(shared_mutex);
				Val& s = shared[r.below(shared.size())];
				Quiet q;
				if (r.chance(0.5)) std::swap(s, c);
				else a = s;
			} else if (k == 28) {
				what = "copied number";
				Quiet q;
				if (r.chance(0.5)) b = a;
				else { Val c(std::move(a)); a = c; b = std::move(c); }
			} else {
				what = "evaluated number";
				if (r.chance(0.6)) evaluate_poly(a, r, t);
				else evaluate_two(a, b, r, t);
			}
		} catch (const std::bad_alloc&) {
			Quiet q;
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "unexpected-exception", "bad_alloc without an allocation failure: " << what);
			SIM_LOG("allocation failed: " << what);
		} catch (const std::exception& e) {
			Quiet q;
			SIM_CHECK(false, "unexpected-exception", e.what() << ": " << what);
		}
		Quiet q;
		verify(a.v, a.rank, what);
		verify(b.v, b.rank, what);
		std::uint64_t h = 0;
		for (auto& s : S) h = mix(h, (std::uint64_t)s.rank * 2 + s.v.is_numeric());
		state(h);
	}
	void evaluate_poly(Val& a, Rng& r, int t) {
		std::size_t i = r.below(polys.size());
		VP p = polys[i];
		{ Quiet q; if (r.chance(0.7)) p.resize(r.range(1, (int)std::min<std::size_t>(p.size(), 4))); trim(p); }
		if (p.size() < 2) return;
		MP m;
		{
			MP pw(Q(1));
			for (auto& c : p) { m += pw * c; pw *= MP(x); }
		}
		carl::ran_assignment<Q> as;
		as.emplace(x, a.v);
		if (r.chance(0.5)) {
			Relation rel = ALL[r.below(6)];
			{ Quiet q; SIM_LOG("constraint " << vshow(p) << " " << rel << " at " << show_ran(a.v)); }
			carl::Constraint<MP> c(m, rel);
			bool bounds = r.chance(0.5);
			auto res = carl::evaluate(c, as, r.chance(0.5), bounds);
			Quiet q;
			int e = roots[a.rank].sign_of(p);
			SIM_CHECK(!boost::indeterminate(res), "wrong-sign", "constraint is undecided");
			SIM_CHECK((bool)res == holds(e, rel), "wrong-sign", vshow(p) << " " << rel << " 0 at " << show_ran(a.v) << " is " << (bool)res);
			return;
		}
		{ Quiet q; SIM_LOG("value of " << vshow(p) << " at " << show_ran(a.v)); }
		auto res = carl::evaluate(m, as, r.chance(0.5));
		Q c = rational(r, t);
		SIM_CHECK(bool(res), "wrong-value", "no value");
		bool less = *res < c;
		Quiet q;
		int e = roots[a.rank].sign_of(p);
		SIM_CHECK((int)res->sgn() == e, "wrong-sign", "value " << show_ran(*res) << " of " << vshow(p) << " at the " << name(a.rank) << " should have sign " << e);
		VP d = p;
		d[0] -= c;
		trim(d);
		SIM_CHECK(less == (roots[a.rank].sign_of(d) < 0), "wrong-value", "value " << show_ran(*res) << " of " << vshow(p) << " at the " << name(a.rank) << " compared with " << c);
	}
	/// Sign of a polynomial in two roots by refining them. The values used here are separated from zero by far more than the final precision.
	static int sign_two(Root a, Root b, const Q (&c)[6]) {
		for (int i = 0; i < 240; ++i) {
			struct I { Q lo, hi; };
			auto mul = [](const I& x, const I& y) {
				Q p[] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi};
				return I{*std::min_element(p, p + 4), *std::max_element(p, p + 4)};
			};
			I x{a.lo, a.hi}, y{b.lo, b.hi};
			I m[] = {{1, 1}, x, y, mul(x, y), mul(x, x), mul(y, y)};
			I s{0, 0};
			for (int k = 0; k < 6; ++k) {
				I t = mul(m[k], I{c[k], c[k]});
				s.lo += t.lo;
				s.hi += t.hi;
			}
			if (s.lo > 0) return 1;
			if (s.hi < 0) return -1;
			a.refine();
			b.refine();
		}
		return 0;
	}
	static std::size_t degree(const RAN& v) { return v.is_numeric() ? 1 : v.polynomial().degree(); }
	void evaluate_two(Val& a, Val& b, Rng& r, int t) {
		if (degree(a.v) * degree(b.v) > 9) return;
		Q c[6]; // 1 x y xy xx yy
		{
			Quiet q;
			switch (r.below(5)) {
			case 0: c[1] = 1; c[2] = r.chance(0.5) ? 1 : -1; break;
			case 1: c[3] = 1; c[0] = rational(r, t); break;
			case 2: c[4] = 1; c[5] = -1; if (r.chance(0.5)) c[0] = Q((int)r.range(-2, 2)); break;
			default:
				for (int n = 3; n > 0; --n) c[r.below(6)] = Q((int)r.range(-3, 3));
			}
		}
		const MP mx(x), my(y);
		MP m = MP(c[0]) + mx * c[1] + my * c[2] + mx * my * c[3] + mx * mx * c[4] + my * my * c[5];
		carl::ran_assignment<Q> as;
		as.emplace(x, a.v);
		as.emplace(y, b.v);
		int e;
		{
			Quiet q;
			std::ostringstream os;
			os << m;
			SIM_LOG("evaluate " << os.str() << " at " << show_ran(a.v) << ", " << show_ran(b.v));
			e = sign_two(roots[a.rank], roots[b.rank], c);
			if (e == 0) reach("polynomial in two numbers vanishes");
		}
		int kind = (int)r.below(3);
		if (kind == 0) {
			Relation rel = ALL[r.below(6)];
			carl::Constraint<MP> con(m, rel);
			auto res = carl::evaluate(con, as, r.chance(0.5), r.chance(0.7));
			Quiet q;
			SIM_CHECK(!boost::indeterminate(res) && (bool)res == holds(e, rel), "wrong-sign", con << " at " << show_ran(a.v) << ", " << show_ran(b.v) << " is " << res << ", expected sign " << e);
			return;
		}
		Q d = rational(r, t);
		auto check = [&](const RAN& v) {
			bool less = v < d, equal = v == d;
			Quiet q;
			SIM_CHECK((int)v.sgn() == e, "wrong-sign", "value " << show_ran(v) << " of " << m << " at the " << name(a.rank) << " and the " << name(b.rank) << " should have sign " << e);
			c[0] -= d;
			int f = sign_two(roots[a.rank], roots[b.rank], c);
			SIM_CHECK(less == (f < 0) && equal == (f == 0), "wrong-value", "value " << show_ran(v) << " of " << m << " at the " << name(a.rank) << " and the " << name(b.rank) << " compared with " << d);
		};
		if (kind == 1) {
			auto res = carl::evaluate(m, as, r.chance(0.5));
			SIM_CHECK(bool(res), "wrong-value", "no value");
			check(*res);
		} else {
			carl::ran::interval::ran_evaluator<Q> ev(m);
			bool done;
			if (r.chance(0.5)) done = ev.assign(as, r.chance(0.5));
			else { done = ev.assign(y, b.v, r.chance(0.5)); if (!done) done = ev.assign(x, a.v, r.chance(0.5)); }
			SIM_CHECK(ev.has_value() && done, "wrong-value", "no value");
			check(ev.value());
		}
	}
	void task_end(int t) override {
		Quiet q;
		for (auto& s : slots[t]) verify(s.v, s.rank, "number at the end");
	}
	void finish() override {
		for (int t = 0; t < MAXT; ++t) for (auto& s : slots[t]) { Quiet q; verify(s.v, s.rank, "number at the end"); }
		for (auto& s : shared) { Quiet q; verify(s.v, s.rank, "shared number at the end"); }
	}
};
}
namespace sim { Harness* make_harness() { return new H; } }

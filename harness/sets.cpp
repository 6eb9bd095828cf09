// Intervals as sets: set operations, comparisons, samples and splits of floating-point and rational intervals, and
// rational interval arithmetic, by several clients while the ambient rounding mode changes under them.
// build-flags: -DNDEBUG -include @VERIF@/harness/cocoa_stub.h
#include "common.h"
#include <carl/core/VariablePool.h>
#include <carl/interval/Interval.h>
#include <carl/interval/power.h>
#include <carl/interval/sampling.h>
#include <carl/interval/set_theory.h>
#include <algorithm>
#include <cfenv>
#include <cmath>
#include <gmpxx.h>
#include <mutex>

using namespace sim;
namespace sim { const char* const harness_name = "sets"; }

namespace {
using BT = carl::BoundType;
using Q = mpq_class;

/// Oracle code computes in the default mode.
struct Nearest {
	int saved = std::fegetround();
	Nearest() { std::fesetround(FE_TONEAREST); }
	~Nearest() { std::fesetround(saved); }
};
/// An interval as the oracle sees it.
struct Ref {
	bool linf = false, uinf = false, lstrict = false, ustrict = false;
	Q lo, hi;
	bool has(const Q& p) const {
		if (!linf && (p < lo || (p == lo && lstrict))) return false;
		if (!uinf && (p > hi || (p == hi && ustrict))) return false;
		return true;
	}
	bool empty() const { return !linf && !uinf && (lo > hi || (lo == hi && (lstrict || ustrict))); }
};
std::string show(const Ref& i) {
	return std::string(i.linf || i.lstrict ? "(" : "[") + (i.linf ? "-inf" : i.lo.get_str()) + ", " + (i.uinf ? "inf" : i.hi.get_str()) + (i.uinf || i.ustrict ? ")" : "]");
}
template<typename N>
Ref ref(const carl::Interval<N>& i) {
	Ref r;
	r.linf = i.lowerBoundType() == BT::INFTY;
	r.uinf = i.upperBoundType() == BT::INFTY;
	r.lstrict = i.lowerBoundType() == BT::STRICT;
	r.ustrict = i.upperBoundType() == BT::STRICT;
	if (!r.linf) r.lo = Q(i.lower());
	if (!r.uinf) r.hi = Q(i.upper());
	return r;
}
/// Points that tell unions of intervals with these ends apart.
std::vector<Q> cells(std::initializer_list<Ref> l) {
	std::vector<Q> e;
	for (auto& i : l) { if (!i.linf) e.push_back(i.lo); if (!i.uinf) e.push_back(i.hi); }
	e.push_back(0);
	std::sort(e.begin(), e.end());
	e.erase(std::unique(e.begin(), e.end()), e.end());
	std::vector<Q> p;
	p.push_back(e.front() - 1);
	for (std::size_t i = 0; i < e.size(); ++i) { p.push_back(e[i]); if (i + 1 < e.size()) p.push_back((e[i] + e[i + 1]) / 2); }
	p.push_back(e.back() + 1);
	return p;
}
std::vector<Q> inside(const Ref& i) { std::vector<Q> r; for (auto& p : cells({i})) if (i.has(p)) r.push_back(p); return r; }

template<typename N>
struct Client {
	using Iv = carl::Interval<N>;
	std::vector<Iv> slots;

	static N number(Rng& r) {
		if constexpr (std::is_same<N, double>::value) {
			switch (r.below(6)) {
			case 0: return 0;
			case 1: case 2: return (double)r.range(-4, 4);
			case 3: return (double)r.range(-40, 40) / 8;
			case 4: return (double)r.range(-400, 400) / 7;
			default: return std::ldexp((double)r.range(-9, 9), (int)r.range(-60, 60));
			}
		} else {
			Q q((long)r.range(-12, 12), r.chance(0.5) ? 1l : (long)r.range(1, 7));
			if (r.chance(0.1)) q *= 1000003l;
			q.canonicalize();
			return q;
		}
	}
	static Iv fresh(Rng& r) {
		N a = number(r), b = r.chance(0.15) ? a : number(r);
		if (a > b) std::swap(a, b);
		auto type = [&] { int k = (int)r.below(20); return k < 9 ? BT::WEAK : k < 17 ? BT::STRICT : BT::INFTY; };
		BT l = type(), u = type();
		if (a == b && l != BT::INFTY && u != BT::INFTY) l = u = BT::WEAK;
		if (r.chance(0.03)) return Iv::emptyInterval();
		return Iv(a, l, b, u);
	}
	void fill(Rng& r) { while (slots.size() < 5) slots.push_back(fresh(r)); }
	template<typename F>
	void call(F&& f) {
		int mode = std::fegetround();
		f();
		int after = std::fegetround();
		Quiet q;
		SIM_CHECK(after == mode, "rounding-mode", "the operation left rounding mode " << after << " instead of " << mode);
	}
	void keep(const Iv& i, Rng& r) {
		Ref x = ref(i);
		if (!x.linf && (abs(x.lo) > 1e15 || x.lo.get_num().get_str().size() > 40 || x.lo.get_den().get_str().size() > 40)) return;
		if (!x.uinf && (abs(x.hi) > 1e15 || x.hi.get_num().get_str().size() > 40 || x.hi.get_den().get_str().size() > 40)) return;
		slots[r.below(slots.size())] = i;
	}
	/// Compares a result with the set it must be.
	template<typename F>
	void same(const char* what, const Ref& a, const Ref& b, const Ref& u, const Ref& v, bool split, F&& member) {
		for (auto& p : cells({a, b, u, v})) {
			bool got = u.has(p) || (split && v.has(p));
			SIM_CHECK(got == member(p), "wrong-set", what << " of " << show(a) << " and " << show(b) << " gives " << show(u) << (split ? " and " + show(v) : "") << ", wrong at " << p);
		}
	}
	void sets(int t, Rng& r) {
		Iv a, b, u, v;
		int k;
		bool split = false;
		{
			Quiet q; Nearest n;
			a = slots[r.below(slots.size())];
			b = r.chance(0.1) ? a : r.chance(0.3) ? fresh(r) : slots[r.below(slots.size())];
			k = (int)r.below(6);
			if (k == 4 && std::is_same<N, double>::value) k = 0; // does not compile
			SIM_LOG("t" << t << " set operation " << k << " " << show(ref(a)) << " " << show(ref(b)));
		}
		if (k == 4) u = a; // results replace what was there
		call([&] {
			switch (k) {
			case 0: u = carl::set_intersection(a, b); break;
			case 1: split = carl::set_union(a, b, u, v); break;
			case 2: split = carl::set_difference(a, b, u, v); break;
			case 3: split = carl::set_symmetric_difference(a, b, u, v); break;
			case 4: if constexpr (!std::is_same<N, double>::value) split = carl::set_complement(a, u, v); break;
			default: u = a.convexHull(b);
			}
		});
		Quiet q; Nearest n;
		Ref x = ref(a), y = ref(b), m = ref(u), w = ref(v);
		switch (k) {
		case 0: same("the intersection", x, y, m, w, false, [&](const Q& p) { return x.has(p) && y.has(p); }); break;
		case 1: same("the union", x, y, m, w, split, [&](const Q& p) { return x.has(p) || y.has(p); }); break;
		case 2: same("the difference", x, y, m, w, split, [&](const Q& p) { return x.has(p) && !y.has(p); }); break;
		case 3: same("the symmetric difference", x, y, m, w, split, [&](const Q& p) { return x.has(p) != y.has(p); }); break;
		case 4: same("the complement", x, x, m, w, split, [&](const Q& p) { return !x.has(p); }); break;
		default: {
			auto pts = cells({x, y, m, w});
			same("the hull", x, y, m, w, false, [&](const Q& p) {
				bool l = false, h = false;
				for (auto& s : pts) if (x.has(s) || y.has(s)) { if (s <= p) l = true; if (s >= p) h = true; }
				return l && h;
			});
		}
		}
		if (split) reach("two-parts");
		keep(u, r);
		static const char* const names[] = {"intersection", "union", "difference", "symmetric-difference", "complement", "hull"};
		reach(names[k]);
	}
	void relations(int t, Rng& r) {
		Iv a, b;
		N c;
		{
			Quiet q; Nearest n;
			a = slots[r.below(slots.size())];
			b = r.chance(0.1) ? a : r.chance(0.3) ? fresh(r) : slots[r.below(slots.size())];
			c = r.chance(0.4) ? a.lower() : r.chance(0.4) ? a.upper() : number(r);
			SIM_LOG("t" << t << " relations " << show(ref(a)) << " " << show(ref(b)) << " " << Q(c));
		}
		bool meet, sub, prop, con, less, leq, greater, geq, cless, cleq, cgreater, cgeq, rless, rleq, has, eq, same1, same2, other;
		call([&] {
			meet = carl::set_have_intersection(a, b);
			sub = carl::set_is_subset(a, b);
			prop = carl::set_is_proper_subset(a, b);
			con = b.contains(a);
			less = a < b; leq = a <= b; greater = a > b; geq = a >= b;
			cless = a < c; cleq = a <= c; cgreater = a > c; cgeq = a >= c; rless = c < a; rleq = c <= a;
			has = a.contains(c);
			eq = a == c;
			same1 = a == b; same2 = b == a; other = a != b;
		});
		Quiet q; Nearest n;
		Ref x = ref(a), y = ref(b);
		Q z(c);
		std::string args = show(x) + " and " + show(y), carg = show(x) + " and " + z.get_str();
		SIM_CHECK(has == x.has(z), "wrong-answer", "membership for " << carg);
		SIM_CHECK(same1 == same2 && other == !same1, "wrong-answer", "equality of " << args << " is inconsistent");
		if (std::is_same<N, mpq_class>::value) SIM_CHECK(same1 == ((x.empty() && y.empty()) || show(x) == show(y)), "wrong-answer", "equality of " << args);
		if (x.empty() || y.empty()) return;
		bool all = true, some = false, extra = false, lt = true, le = true, gt = true, ge = true;
		auto pts = cells({x, y});
		for (auto& p : pts) {
			if (x.has(p) && y.has(p)) some = true;
			if (x.has(p) && !y.has(p)) all = false;
			if (!x.has(p) && y.has(p)) extra = true;
		}
		for (auto& p : pts) for (auto& s : pts) if (x.has(p) && y.has(s)) { if (p >= s) lt = false; if (p > s) le = false; if (p <= s) gt = false; if (p < s) ge = false; }
		// limits of strict bounds
		le = !x.uinf && !y.linf && x.hi <= y.lo;
		ge = !y.uinf && !x.linf && y.hi <= x.lo;
		SIM_CHECK(meet == some, "wrong-answer", "whether " << args << " meet");
		SIM_CHECK(sub == all, "wrong-answer", "subset of " << args);
		SIM_CHECK(prop == (all && extra), "wrong-answer", "proper subset of " << args);
		SIM_CHECK(con == all, "wrong-answer", "containment of " << args);
		SIM_CHECK(less == lt && greater == gt, "wrong-answer", "order of " << args << ": " << less << greater);
		SIM_CHECK(leq == le && geq == ge, "wrong-answer", "weak order of " << args << ": " << leq << geq);
		bool zl = !x.uinf && (x.hi < z || (x.hi == z && x.ustrict)), zle = !x.uinf && x.hi <= z, zg = !x.linf && (x.lo > z || (x.lo == z && x.lstrict)), zge = !x.linf && x.lo >= z;
		SIM_CHECK(cless == zl && cleq == zle && cgreater == zg && cgeq == zge && rless == zg && rleq == zge, "wrong-answer", "order of " << carg << ": " << cless << cleq << cgreater << cgeq << rless << rleq);
		if (!(std::is_same<N, double>::value)) SIM_CHECK(eq == (!x.linf && !x.uinf && x.lo == x.hi && x.lo == z), "wrong-answer", "equality of " << carg);
		reach("relations");
	}
	void properties(int t, Rng& r) {
		Iv a;
		{ Quiet q; Nearest n; a = slots[r.below(slots.size())]; SIM_LOG("t" << t << " properties " << show(ref(a))); }
		bool pos, neg, spos, sneg, zero, one, point, empty, unb, inf, half, integer;
		Iv part, set1, set2;
		N bound;
		BT bt = BT::WEAK;
		int which;
		Ref x = ref(a);
		{
			Quiet q; Nearest n;
			bound = number(r);
			which = (int)r.below(2);
			int k = (int)r.below(3);
			bt = k == 0 ? BT::WEAK : k == 1 ? BT::STRICT : BT::INFTY;
			if (bt != BT::INFTY) {
				// only bounds that leave something
				if (which == 0 && !x.uinf && Q(bound) >= x.hi) which = 2;
				if (which == 1 && !x.linf && Q(bound) <= x.lo) which = 2;
			}
			if (x.empty()) which = 2;
		}
		call([&] {
			pos = a.isPositive(); neg = a.isNegative(); spos = a.isSemiPositive(); sneg = a.isSemiNegative();
			zero = a.isZero(); one = a.isOne(); point = a.isPointInterval(); empty = a.isEmpty();
			unb = a.isUnbounded(); inf = a.isInfinite(); half = a.isHalfBounded();
			integer = a.containsInteger();
			part = a.integralPart();
			set1 = a;
			if (which == 0) set1.setLowerBound(bound, bt);
			else if (which == 1) set1.setUpperBound(bound, bt);
		});
		Quiet q; Nearest n;
		std::string s = show(x);
		SIM_CHECK(empty == x.empty(), "wrong-answer", "emptiness of " << s);
		SIM_CHECK(unb == (x.linf || x.uinf) && inf == (x.linf && x.uinf) && half == (x.linf != x.uinf), "wrong-answer", "boundedness of " << s);
		if (x.empty()) { SIM_CHECK(ref(part).empty(), "wrong-answer", "integers of the empty interval"); return; }
		bool p = !x.linf && (x.lo > 0 || (x.lo == 0 && x.lstrict)), m = !x.uinf && (x.hi < 0 || (x.hi == 0 && x.ustrict));
		bool isp = !x.linf && !x.uinf && x.lo == x.hi;
		SIM_CHECK(pos == p && neg == m, "wrong-answer", "sign of " << s);
		SIM_CHECK(spos == (!x.linf && x.lo >= 0) && sneg == (!x.uinf && x.hi <= 0), "wrong-answer", "weak sign of " << s);
		SIM_CHECK(point == isp && zero == (isp && x.lo == 0) && one == (isp && x.lo == 1), "wrong-answer", "point " << s);
		// the integers of the interval
		Ref w = ref(part);
		auto fl = [](const Q& v) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t()); return z; };
		mpz_class first = x.linf ? mpz_class(0) : x.lstrict ? mpz_class(fl(x.lo) + 1) : mpz_class(-fl(-x.lo));
		mpz_class last = x.uinf ? mpz_class(0) : x.ustrict ? mpz_class(-fl(-x.hi) - 1) : fl(x.hi);
		bool any = x.linf || x.uinf || first <= last;
		SIM_CHECK(integer == any, "wrong-answer", "whether " << s << " has an integer");
		if (!any) SIM_CHECK(w.empty(), "wrong-set", "integers of " << s << " are " << show(w));
		else {
			bool exact = std::is_same<N, mpq_class>::value || ((x.linf || abs(x.lo) < 1e15) && (x.uinf || abs(x.hi) < 1e15));
			if (!x.linf && exact) SIM_CHECK(w.has(Q(first)) && !w.has(Q(first) - 1), "wrong-set", "integers of " << s << " are " << show(w));
			if (!x.uinf && exact) SIM_CHECK(w.has(Q(last)) && !w.has(Q(last) + 1), "wrong-set", "integers of " << s << " are " << show(w));
			SIM_CHECK(w.linf == x.linf && w.uinf == x.uinf, "wrong-set", "integers of " << s << " are " << show(w));
		}
		if (which < 2) {
			Ref e = x, g = ref(set1);
			if (which == 0) { e.linf = bt == BT::INFTY; e.lstrict = bt == BT::STRICT; e.lo = e.linf ? Q(0) : Q(bound); }
			else { e.uinf = bt == BT::INFTY; e.ustrict = bt == BT::STRICT; e.hi = e.uinf ? Q(0) : Q(bound); }
			for (auto& c : cells({e, g})) SIM_CHECK(e.has(c) == g.has(c), "wrong-set", "setting the " << (which ? "upper" : "lower") << " bound of " << s << " to " << Q(bound) << " (" << (int)bt << ") gives " << show(g));
			reach("set-bound");
		}
		reach("properties");
	}
	void samples(int t, Rng& r) {
		Iv a;
		int k;
		N c{};
		{
			Quiet q; Nearest n;
			// of a coarse grid, so that there is a number between any two ends
			do {
				long d = std::is_same<N, double>::value ? 8 : r.range(1, 7);
				long l = r.range(-60, 60), u = l + r.range(0, 30);
				auto type = [&] { int j = (int)r.below(20); return j < 9 ? BT::WEAK : j < 17 ? BT::STRICT : BT::INFTY; };
				BT lt = type(), ut = type();
				if (l == u && lt != BT::INFTY && ut != BT::INFTY) lt = ut = BT::WEAK;
				a = Iv(N(l) / N(d), lt, N(u) / N(d), ut);
			} while (ref(a).empty());
			k = (int)r.below(8);
			if (k == 2 && !ref(a).linf && !ref(a).uinf && ref(a).lo == ref(a).hi) k = 1;
			if (std::is_same<N, double>::value && k == 3) k = 0;
			SIM_LOG("t" << t << " sample " << k << " " << show(ref(a)));
		}
		call([&] {
			switch (k) {
			case 0: c = carl::center(a); break;
			case 1: c = carl::sample(a); break;
			case 2: c = carl::sample(a, false); break;
			case 3: if constexpr (!std::is_same<N, double>::value) c = carl::sample_stern_brocot(a); break;
			case 4: c = carl::sample_left(a); break;
			case 5: c = carl::sample_right(a); break;
			case 6: c = carl::sample_zero(a); break;
			default: c = carl::sample_infty(a);
			}
		});
		Quiet q; Nearest n;
		static const char* const names[] = {"the center", "the sample", "the inner sample", "the Stern-Brocot sample", "the left sample", "the right sample", "the sample near zero", "the sample far from zero"};
		Ref x = ref(a);
		SIM_CHECK(x.has(Q(c)), "wrong-sample", names[k] << " of " << show(x) << " is " << Q(c));
		if (k == 2) SIM_CHECK((x.linf || Q(c) != x.lo) && (x.uinf || Q(c) != x.hi), "wrong-sample", names[k] << " of " << show(x) << " is " << Q(c));
		reach("sample");
	}
	void splits(int t, Rng& r) {
		Iv a;
		unsigned parts;
		N width;
		{
			Quiet q; Nearest n;
			a = slots[r.below(slots.size())];
			parts = (unsigned)r.range(2, 6);
			width = N((long)r.below(20)) / N((long)r.range(1, 8));
			Ref x = ref(a);
			if (x.linf || x.uinf || x.empty() || x.lo == x.hi) return;
			if (std::is_same<N, double>::value && (x.hi - x.lo) * Q(1l << 40) < abs(x.lo) + abs(x.hi)) return;
			SIM_LOG("t" << t << " split " << show(x) << " into " << parts << ", widen by " << Q(width));
		}
		std::pair<Iv, Iv> two;
		std::list<Iv> many;
		Iv wide = a;
		N diameter, magnitude, distance;
		Iv b;
		{ Quiet q; b = slots[r.below(slots.size())]; }
		call([&] {
			two = a.split();
			many = a.split(parts);
			wide.bloat_by(width);
			diameter = a.diameter();
			magnitude = a.magnitude();
			distance = a.distance(b);
		});
		Quiet q; Nearest n;
		constexpr bool exact = !std::is_same<N, double>::value;
		Ref x = ref(a), u = ref(two.first), v = ref(two.second), w = ref(wide), y = ref(b);
		same("halving", x, x, u, v, true, [&](const Q& p) { return x.has(p); });
		for (auto& p : cells({u, v})) SIM_CHECK(!(u.has(p) && v.has(p)), "wrong-set", "the halves of " << show(x) << " overlap: " << show(u) << " and " << show(v));
		std::string all;
		for (auto& i : many) all += " " + show(ref(i));
		SIM_CHECK(many.size() == parts, "wrong-set", "splitting " << show(x) << " into " << parts << " gives" << all);
		std::vector<Q> pts = inside(x);
		for (auto& i : many) for (auto& p : cells({ref(i)})) pts.push_back(p);
		for (auto& p : pts) {
			unsigned hits = 0;
			for (auto& i : many) if (ref(i).has(p)) ++hits;
			if (exact) SIM_CHECK(hits == (x.has(p) ? 1 : 0), "wrong-set", "splitting " << show(x) << " into " << parts << " gives" << all << ", wrong at " << p);
			else if (x.has(p)) SIM_CHECK(hits > 0, "wrong-set", "splitting " << show(x) << " into " << parts << " gives" << all << " without " << p);
		}
		Q wd(width);
		SIM_CHECK(w.lo <= x.lo - wd && w.hi >= x.hi + wd && w.lstrict == x.lstrict && w.ustrict == x.ustrict, "wrong-set", "widening " << show(x) << " by " << wd << " gives " << show(w));
		if (exact) {
			SIM_CHECK(Q(diameter) == x.hi - x.lo, "wrong-answer", "diameter of " << show(x) << " is " << Q(diameter));
			SIM_CHECK(Q(magnitude) == std::max(abs(x.lo), abs(x.hi)), "wrong-answer", "magnitude of " << show(x) << " is " << Q(magnitude));
			Q d = !y.uinf && y.hi < x.lo ? Q(x.lo - y.hi) : !y.linf && x.hi < y.lo ? Q(y.lo - x.hi) : Q(0);
			if (!y.empty()) SIM_CHECK(Q(distance) == d, "wrong-answer", "distance of " << show(x) << " and " << show(y) << " is " << Q(distance));
		} else {
			SIM_CHECK(Q(diameter) >= x.hi - x.lo, "wrong-answer", "diameter of " << show(x) << " is " << Q(diameter));
			SIM_CHECK(Q(magnitude) == std::max(abs(x.lo), abs(x.hi)), "wrong-answer", "magnitude of " << show(x) << " is " << Q(magnitude));
		}
		reach("split");
	}
	void arithmetic(int t, Rng& r) {
		if constexpr (!std::is_same<N, double>::value) {
			Iv a, b, u, v;
			int k, e;
			bool split = false;
			N c;
			bool r2;
			{
				Quiet q;
				a = slots[r.below(slots.size())];
				b = r.chance(0.1) ? a : slots[r.below(slots.size())];
				c = number(r);
				if (ref(a).empty() || ref(b).empty()) return;
				k = (int)r.below(10);
				e = (int)r.range(1, 4);
				r2 = r.chance(0.5);
				if (k == 3 && ref(b).has(0)) k = 4;
				SIM_LOG("t" << t << " arithmetic " << k << " " << show(ref(a)) << " " << show(ref(b)) << " " << c << " " << e);
			}
			call([&] {
				switch (k) {
				case 0: u = a + b; break;
				case 1: u = a - b; break;
				case 2: u = a * b; break;
				case 3: u = a.div(b); break;
				case 4: split = a.div_ext(b, u, v); break;
				case 5: u = -a; break;
				case 6: u = a.abs(); break;
				case 7: u = carl::pow(a, e); break;
				case 8: u = r2 ? c + a : a + c; break;
				default: u = r2 ? c * a : a * c;
				}
			});
			Quiet q;
			Ref x = ref(a), y = ref(b), m = ref(u), w = ref(v);
			static const char* const names[] = {"the sum", "the difference", "the product", "the quotient", "extended division", "the negation", "the absolute value", "the power", "the sum with a number", "the product with a number"};
			std::vector<Q> ps = inside(x), ss = inside(y);
			if (k >= 5) ss = {c};
			bool closed = !x.linf && !x.uinf && !y.linf && !y.uinf && !x.lstrict && !x.ustrict && !y.lstrict && !y.ustrict;
			Q least, most;
			bool first = true;
			for (auto& p : ps) for (auto& s : ss) {
				Q val;
				switch (k) {
				case 0: case 8: val = p + s; break;
				case 1: val = p - s; break;
				case 2: case 9: val = p * s; break;
				case 3: case 4: if (s == 0) continue; val = p / s; break;
				case 5: val = -p; break;
				case 6: val = abs(p); break;
				default: val = 1; for (int i = 0; i < e; ++i) val *= p;
				}
				SIM_CHECK(m.has(val) || (split && w.has(val)), "enclosure", names[k] << " of " << show(x) << " and " << show(y) << " (" << c << ", " << e << ") gives " << show(m) << (split ? " and " + show(w) : "") << " without " << val);
				if (first || val < least) least = val;
				if (first || val > most) most = val;
				first = false;
			}
			// the ends of the result are taken at ends of the arguments
			if (k < 4 && closed) SIM_CHECK(!m.linf && !m.uinf && m.lo == least && m.hi == most, "not-tight", names[k] << " of " << show(x) << " and " << show(y) << " gives " << show(m));
			Nearest n;
			keep(u, r);
			reach(names[k]);
		} else sets(t, r);
	}
	void op(int t, Rng& r) {
		{ Quiet q; Nearest n; fill(r); }
		int k = (int)r.below(12);
		if (k < 1) { Quiet q; Nearest n; slots[r.below(slots.size())] = fresh(r); }
		else if (k < 4) sets(t, r);
		else if (k < 6) relations(t, r);
		else if (k < 7) properties(t, r);
		else if (k < 8) samples(t, r);
		else if (k < 9) splits(t, r);
		else arithmetic(t, r);
	}
};

struct H : Harness {
	Client<double> f[MAXT];
	Client<Q> e[MAXT];
	std::vector<carl::Interval<double>> shared;
	std::vector<carl::Interval<Q>> shared_exact;
	std::mutex mx;
	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 3);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(3, r.chance(0.1) ? 80 : 25);
		if (faults) c.rate[F_FPENV] = pick_from(r, {0.1, 0.3, 0.8});
	}
	void op(int t, int, Rng& r) override {
		std::uint64_t m;
		{ Faulty fa; m = fault(F_FPENV); }
		if (m) { static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; std::fesetround(modes[m % 4]); reach("other-mode"); }
		if (r.chance(0.1)) {
			std::lock_guard<std::mutex> l(mx);
			Quiet q;
			if (!f[t].slots.empty()) { if (shared.size() < 3) shared.push_back(f[t].slots[0]); else std::swap(shared[r.below(3)], f[t].slots[r.below(5)]); }
			if (!e[t].slots.empty()) { if (shared_exact.size() < 3) shared_exact.push_back(e[t].slots[0]); else std::swap(shared_exact[r.below(3)], e[t].slots[r.below(5)]); }
		} else if (r.chance(0.5)) f[t].op(t, r);
		else e[t].op(t, r);
		Quiet q;
		state(mix((std::uint64_t)std::fegetround(), f[t].slots.empty() ? 0 : std::hash<double>()(f[t].slots[0].lower())));
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

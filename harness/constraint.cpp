// Polynomial constraints: interning, truth values, lazily computed information, on several threads.
// build-flags: -DNDEBUG -include @VERIF@/harness/cocoa_stub.h
#include "poly_model.h"
#include <carl/formula/Constraint.h>
#include <carl/formula/ConstraintPool.h>
#include <carl/interval/Interval.h>
#include <carl/interval/IntervalEvaluation.h>

using namespace sim;
using carl::Relation;
using carl::Variable;
using Con = carl::Constraint<Poly>;

namespace sim { const char* const harness_name = "constraint"; }

namespace {
using Point = std::vector<Q>;

bool holds(const Q& v, Relation r) {
	switch (r) {
	case Relation::EQ: return v == 0;
	case Relation::NEQ: return v != 0;
	case Relation::LESS: return v < 0;
	case Relation::LEQ: return v <= 0;
	case Relation::GREATER: return v > 0;
	default: return v >= 0;
	}
}
const Relation ALL[] = {Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};

struct Source { // what the constraint was created from
	PM x;
	Relation rel = Relation::EQ;
	bool negated = false;
	bool derived = false; // by negating another constraint
};
struct Slot {
	std::unique_ptr<Con> c;
	std::vector<bool> truth; // at the sample points
	PM lhs;
	Relation rel = Relation::EQ;
	Source src;
};

struct H : Harness {
	std::size_t nvars = 3, nslots = 4;
	unsigned maxdeg = 2, maxterms = 3;
	PolyVars pv;
	std::vector<bool> is_int;
	std::vector<Point> points;
	std::vector<Slot> slots[MAXT];
	std::vector<Slot> shared;
	std::mutex shared_mutex;
	std::vector<Source> recipes; // repeated on purpose by all threads

	void configure(Rng& r, Config& c, bool faults) override {
		nvars = r.range(1, 3);
		maxdeg = (unsigned)r.range(1, 3);
		maxterms = (unsigned)r.range(1, 4);
		nslots = r.range(1, 4);
		c.ntasks = r.chance(0.35) ? 1 : (int)r.range(2, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(3, c.ntasks == 1 ? 30 : 12);
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.003, 0.02});
			c.rate[F_STALL] = 0.01;
		}
	}
	PM random_lhs(Rng& r) {
		PM x = pm_random(r, nvars, maxdeg, maxterms);
		int k = (int)r.below(8);
		if (k == 0) x = pm_scale(x * x, r.chance(0.5) ? Q(1) : Q(-1)); // definite forms
		if (k == 1) {
			x = pm_const(pm_rational(r, true));
			for (std::size_t i = 0; i < nvars; ++i) x = x + pm_scale(pm_var(i, 2), Q(r.range(0, 3)));
			if (r.chance(0.3)) x = pm_scale(x, Q(-1));
		}
		if (k == 2) x = pm_term(pm_lead(pm_var(r.below(nvars), 1 + (unsigned)r.below(4))), pm_rational(r));
		if (k == 3) { // common divisor of the non-constant part
			Q g((long)r.range(2, 6));
			PM y = pm_const(Q((long)r.range(-9, 9)));
			for (std::size_t i = 0; i < nvars; ++i) y = y + pm_scale(pm_var(i, 1 + (unsigned)r.below(2)), g * Q((long)r.range(-3, 3)));
			x = y;
		}
		if (k == 4) { // full quadratic form
			PM a = pm_const(Q((long)r.range(-2, 2)));
			for (std::size_t i = 0; i < nvars; ++i) a = a + pm_scale(pm_var(i), Q((long)r.range(-2, 2)));
			x = pm_scale(a * a, Q((long)r.range(-1, 2))) + pm_const(Q((long)r.range(-1, 1)));
		}
		return x;
	}
	Source random_source(Rng& r) {
		if (!recipes.empty() && r.chance(0.6)) {
			Source s = recipes[r.below(recipes.size())];
			if (r.chance(0.25)) s.x = pm_scale(s.x, pm_rational(r));
			if (r.chance(0.25)) s.rel = ALL[r.below(6)];
			if (r.chance(0.25)) s.x = s.x + pm_const(pm_rational(r));
			return s;
		}
		Source s;
		s.x = random_lhs(r);
		s.rel = ALL[r.below(6)];
		return s;
	}
	void setup(Rng& r) override {
		for (std::size_t i = 0; i < nvars; ++i) {
			bool in = r.chance(0.4);
			Variable v = in ? carl::freshIntegerVariable() : carl::freshRealVariable();
			Quiet q;
			pv.vars.push_back(v);
		}
		{
			Quiet q;
			std::sort(pv.vars.begin(), pv.vars.end()); // by type first
			for (auto& v : pv.vars) is_int.push_back(v.type() == carl::VariableType::VT_INT);
			for (auto& s : slots) s.resize(nslots);
			shared.resize(2);
			for (int i = 0; i < 14; ++i) {
				Point p(PM_VARS);
				for (std::size_t v = 0; v < nvars; ++v) {
					Q val((long)r.range(-3, 3), is_int[v] || r.chance(0.5) ? 1 : r.range(2, 4));
					if (r.chance(0.05)) val = Q((long)(r.chance(0.5) ? -1000 : 1000));
					val.canonicalize();
					p[v] = val;
				}
				points.push_back(p);
			}
			for (auto& v : points[0]) v = 0;
			for (int i = (int)r.range(1, 3); i > 0; --i) { Source s; s.x = random_lhs(r); s.rel = ALL[r.below(6)]; recipes.push_back(s); }
		}
		// first use of the pool and of function-local objects
		Con a(true), b(false);
		SIM_CHECK(a != b, "identity", "true is false");
		Poly pa(pv.vars[0]), pb(pv.vars[0]);
		pb += Q(1);
		Con c(pa, Relation::LESS), d(pb, Relation::LESS);
		c.factorization();
	}
	Poly build(const PM& x) {
		std::vector<PTerm> v;
		for (auto& t : x) {
			std::vector<std::pair<Variable, carl::exponent>> c;
			for (std::size_t i = 0; i < nvars; ++i) if (t.first[i]) c.emplace_back(pv.vars[i], t.first[i]);
			v.push_back(PTerm(t.second, c.empty() ? nullptr : carl::createMonomial(std::move(c))));
		}
		return Poly(std::move(v));
	}
	std::string show(const Source& s) {
		std::ostringstream os;
		os << (s.negated ? "not(" : "(") << pm_show(s.x) << " " << s.rel << " 0)";
		return os.str();
	}
	std::string show(const Point& p) {
		std::string s;
		for (std::size_t i = 0; i < nvars; ++i) s += (i ? ", " : "") + p[i].get_str();
		return "(" + s + ")";
	}
	std::string show(const Slot& s) {
		std::ostringstream os;
		os << pm_show(s.lhs) << " " << s.rel << " 0";
		return os.str();
	}
	std::vector<bool> truth_of(const Source& s) {
		std::vector<bool> t;
		for (auto& p : points) t.push_back(holds(pm_eval(s.x, p), s.rel) != s.negated);
		return t;
	}
	/// Everything a single reader can see of a constraint right after creation or later.
	void check(const Slot& s, const char* what) {
		const Con& c = *s.c;
		PM lhs = pm_read(pv, c.lhs(), what);
		for (std::size_t i = 0; i < points.size(); ++i) {
			bool got = holds(pm_eval(lhs, points[i]), c.relation());
			SIM_CHECK(got == s.truth[i], "meaning", what << ": " << show(s.src) << " became " << pm_show(lhs) << " " << c.relation() << " 0, which is " << got << " at " << show(points[i]));
			unsigned k = c.isConsistent();
			SIM_CHECK(k == 2 || (k == 1) == s.truth[i], "meaning", what << ": consistency " << k << " recorded for " << show(s.src) << " at " << show(points[i]));
		}
		bool constant = pm_deg(lhs) == 0;
		SIM_CHECK(!constant || c.isConsistent() != 2, "meaning", what << ": constraint without variables is undecided");
		for (std::size_t v = 0; v < nvars; ++v) {
			SIM_CHECK(c.hasVariable(pv.vars[v]) == (pm_deg(lhs, v) > 0), "information", what << ": variables of " << pm_show(lhs));
			SIM_CHECK(c.variables().has(pv.vars[v]) == (pm_deg(lhs, v) > 0), "information", what << ": variables of " << pm_show(lhs));
		}
		auto ci = lhs.find(Exps{});
		SIM_CHECK(c.constantPart() == (ci == lhs.end() ? Q(0) : ci->second), "information", what << ": constant part of " << pm_show(lhs));
	}
	void check_held() {
		std::vector<const Slot*> all;
		for (int k = 1; k <= 5; ++k) for (auto& s : slots[k]) if (s.c) all.push_back(&s);
		for (auto& s : shared) if (s.c) all.push_back(&s);
		std::uint64_t h = all.size();
		for (std::size_t i = 0; i < all.size(); ++i) {
			const Slot& a = *all[i];
			pm_check(pv, a.c->lhs(), a.lhs, "held constraint");
			SIM_CHECK(a.c->relation() == a.rel, "identity", "relation of a held constraint changed");
			h = mix(h, pm_hash(a.lhs) + (std::uint64_t)a.rel);
			for (std::size_t j = 0; j < i; ++j) {
				const Slot& b = *all[j];
				bool eq = a.lhs == b.lhs && a.rel == b.rel;
				SIM_CHECK((*a.c == *b.c) == eq && (*a.c != *b.c) == !eq, "identity", "two objects for " << show(a) << " / " << show(b));
				SIM_CHECK((a.c->id() == b.c->id()) == eq, "identity", "id " << a.c->id() << " of " << show(a) << " and " << show(b));
				SIM_CHECK(!eq || a.c->getHash() == b.c->getHash(), "identity", "hash of " << show(a));
				if (!a.src.derived && !b.src.derived && a.src.x == b.src.x && a.src.rel == b.src.rel)
					SIM_CHECK(eq, "identity", "one relation gave " << show(a) << " and " << show(b));
				bool sum = (*a.c < *b.c) + (*b.c < *a.c) == (eq ? 0 : 1);
				SIM_CHECK(sum, "identity", "order of " << show(a) << " and " << show(b));
			}
		}
		state(h);
	}
	void put(int t, std::size_t i, std::unique_ptr<Con>&& c, const Source& src, std::vector<bool>* truth, const char* what) {
		std::unique_ptr<Con> old;
		{
			Quiet q;
			Slot& s = slots[t][i];
			old.swap(s.c);
			s.c.swap(c);
			s.src = src;
			s.truth = truth ? *truth : truth_of(src);
			s.lhs = pm_read(pv, s.c->lhs(), what);
			s.rel = s.c->relation();
			check(s, what);
			SIM_LOG("T" << t << " " << what << " " << show(src) << " -> " << show(s));
		}
	}
	struct Side { carl::BoundType type; Q at; };
	struct Box { Side lo, up; };
	Box random_side(Rng& r) {
		Box b;
		b.lo.at = Q((long)r.range(-6, 6), 2);
		b.up.at = b.lo.at + Q((long)(r.chance(0.25) ? 0 : r.range(1, 8)), 2);
		b.lo.at.canonicalize();
		b.up.at.canonicalize();
		if (r.chance(0.2)) { b.lo.at = 0; if (b.up.at < 0) b.up.at = 1; }
		else if (r.chance(0.2)) { b.up.at = 0; if (b.lo.at > 0) b.lo.at = -1; }
		bool point = b.lo.at == b.up.at;
		b.lo.type = !point && r.chance(0.4) ? carl::BoundType::STRICT : carl::BoundType::WEAK;
		b.up.type = !point && r.chance(0.4) ? carl::BoundType::STRICT : carl::BoundType::WEAK;
		if (!point && r.chance(0.15)) b.lo.type = carl::BoundType::INFTY;
		if (!point && r.chance(0.15)) b.up.type = carl::BoundType::INFTY;
		return b;
	}
	Q inside(Rng& r, const Box& b) {
		if (b.lo.at == b.up.at) return b.lo.at;
		int k = (int)r.below(6);
		if (k == 0 && b.lo.type == carl::BoundType::WEAK) return b.lo.at;
		if (k == 1 && b.up.type == carl::BoundType::WEAK) return b.up.at;
		if (k == 2 && b.lo.type == carl::BoundType::INFTY) return b.lo.at - Q((long)r.range(0, 50));
		if (k == 3 && b.up.type == carl::BoundType::INFTY) return b.up.at + Q((long)r.range(0, 50));
		if (k == 4 && 0 < b.up.at && 0 > b.lo.at) return Q(0);
		Q w((long)r.range(1, 63), 64);
		w.canonicalize();
		return b.lo.at + (b.up.at - b.lo.at) * w;
	}
	std::string show(const std::vector<Box>& bs) {
		std::string s;
		for (auto& b : bs) {
			s += b.lo.type == carl::BoundType::INFTY ? "(-oo" : (b.lo.type == carl::BoundType::STRICT ? "(" : "[") + b.lo.at.get_str();
			s += ", ";
			s += b.up.type == carl::BoundType::INFTY ? "oo)" : b.up.at.get_str() + (b.up.type == carl::BoundType::STRICT ? ")" : "]");
		}
		return s;
	}
	/// Points at which a relation between two constraints is most likely to show: on the boundary of the one or the other.
	std::vector<Point> telling_points(Rng& r, const PM& x, const PM& y) {
		std::vector<Point> res = points;
		for (int i = 0; i < 12; ++i) {
			Point p = points[r.below(points.size())];
			const PM& l = i % 2 ? x : y;
			std::size_t v = r.below(nvars);
			if (pm_deg(l, v) != 1) continue;
			p[v] = 0;
			Q at0 = pm_eval(l, p);
			p[v] = 1;
			Q slope = pm_eval(l, p) - at0;
			if (slope == 0) continue;
			p[v] = (Q((long)(i < 6 ? 0 : r.range(-1, 1))) - at0) / slope;
			if (is_int[v] && p[v].get_den() != 1) continue;
			res.push_back(p);
		}
		return res;
	}
	void op(int t, int, Rng& r) override {
		std::vector<Slot>& S = slots[t];
		std::size_t a = r.below(nslots), d = r.below(nslots), v = r.below(nvars);
		int k = (int)r.below(28);
		Source src;
		{ Quiet q; src = random_source(r); }
		const char* what = "";
		bool failed = false;
		std::unique_ptr<Con> res;
		if (!S[a].c && k >= 7 && k != 20 && k != 21) k = 0;
		if (!S[d].c && (k == 22 || k == 23)) k = 0;
		try {
			switch (k) {
			case 0: case 1: case 2: case 3: {
				what = "create(polynomial, relation)";
				Faulty f;
				Poly p = build(src.x);
				res.reset(new Con(p, src.rel));
				break;
			}
			case 4: case 5: {
				what = "create(variable, relation, bound)";
				Q b;
				{
					Quiet q;
					b = pm_rational(r, true);
					src.rel = ALL[r.below(6)];
					src.x = pm_var(v) - pm_const(b);
					src.negated = false;
				}
				Faulty f;
				if (b == 0 && r.chance(0.5)) res.reset(new Con(pv.vars[v], src.rel));
				else res.reset(new Con(pv.vars[v], src.rel, b));
				break;
			}
			case 6: {
				what = "create(bool)";
				bool val = r.chance(0.5);
				{ Quiet q; src = Source(); src.rel = val ? Relation::EQ : Relation::NEQ; }
				Faulty f;
				res.reset(new Con(val));
				break;
			}
			case 7: case 8: {
				what = "negation";
				{ Quiet q; src = S[a].src; src.negated = !src.negated; src.derived = true; }
				Faulty f;
				res.reset(new Con(S[a].c->negation()));
				break;
			}
			case 9: {
				what = "copy";
				{ Quiet q; src = S[a].src; }
				Faulty f;
				if (r.chance(0.5)) {
					res.reset(new Con(*S[a].c));
				} else {
					Con tmp(true), tmp2(false);
					tmp = *S[a].c;
					tmp2 = std::move(tmp);
					res.reset(new Con(std::move(tmp2)));
				}
				break;
			}
			case 10: {
				what = "satisfiedBy";
				const Con& c = *S[a].c;
				std::map<Variable, Q> m;
				std::size_t pi = r.below(points.size());
				bool full = r.chance(0.6);
				std::map<std::size_t, PM> sub;
				for (std::size_t i = 0; i < nvars; ++i) if (full || r.chance(0.5)) {
					m.emplace(pv.vars[i], points[pi][i]);
					Quiet q;
					sub[i] = pm_const(points[pi][i]);
				}
				unsigned got;
				{ Faulty f; got = c.satisfiedBy(m); }
				Quiet q;
				PM rest = pm_subst(S[a].lhs, sub);
				bool dec = pm_deg(rest) == 0;
				unsigned want = !dec ? 2 : holds(rest.empty() ? Q(0) : rest.begin()->second, S[a].rel) ? 1 : 0;
				SIM_CHECK(got == want, "meaning", "satisfiedBy gave " << got << " for " << show(S[a]) << " at " << show(points[pi]) << (full ? "" : " (partial)"));
				break;
			}
			case 11: case 12: {
				what = "degrees";
				const Con& c = *S[a].c;
				Faulty f;
				auto md = c.maxDegree(pv.vars[v]), nd = c.minDegree(pv.vars[v]), oc = c.occurences(pv.vars[v]), all = c.maxDegree();
				bool in = c.integerValued(), re = c.realValued(), hi = c.hasIntegerValuedVariable(), hr = c.hasRealValuedVariable();
				Quiet q;
				const PM& x = S[a].lhs;
				unsigned mind = 0, occ = 0, any = 0, ints = 0, reals = 0;
				for (auto& e : x) if (e.first[v]) { ++occ; mind = mind ? std::min<unsigned>(mind, e.first[v]) : e.first[v]; }
				for (std::size_t i = 0; i < nvars; ++i) {
					any = std::max(any, pm_deg(x, i));
					if (pm_deg(x, i)) (is_int[i] ? ints : reals)++;
				}
				SIM_CHECK(md == pm_deg(x, v) && nd == mind && oc == occ && all == any, "information", "degrees of v" << v << " in " << pm_show(x) << ": " << md << " " << nd << " " << oc << " " << all);
				SIM_CHECK(hi == (ints > 0) && hr == (reals > 0) && in == (reals == 0) && re == (ints == 0), "information", "variable kinds of " << pm_show(x));
				break;
			}
			case 13: case 14: {
				what = "varInfo";
				if (!pm_has(S[a].lhs, v)) break;
				bool coeffs = r.chance(0.6), again = r.chance(0.5);
				const Con& c = *S[a].c;
				std::size_t md, nd, oc;
				std::map<std::size_t, Poly> cs;
				{
					Faulty f;
					const auto& vi = c.varInfo(pv.vars[v], coeffs);
					md = vi.maxDegree();
					nd = vi.minDegree();
					oc = vi.occurence();
					if (coeffs) for (auto& p : vi.coeffs()) cs.emplace(p.first, p.second);
					if (again) c.varInfo(pv.vars[v], !coeffs);
					SIM_CHECK(vi.maxDegree() == md, "information", "variable information changed while held");
				}
				Quiet q;
				const PM& x = S[a].lhs;
				unsigned mind = 0, occ = 0;
				for (auto& e : x) if (e.first[v]) { ++occ; mind = mind ? std::min<unsigned>(mind, e.first[v]) : e.first[v]; }
				SIM_CHECK(md == pm_deg(x, v) && nd == mind && oc == occ, "information", "information on v" << v << " in " << pm_show(x) << ": max " << md << " min " << nd << " occurs " << oc);
				if (coeffs) {
					PM sum;
					for (auto& p : cs) {
						PM part = pm_read(pv, p.second, "coefficient");
						SIM_CHECK(pm_deg(part, v) == 0, "information", "coefficient contains its variable");
						sum = sum + part * (p.first ? pm_var(v, (unsigned)p.first) : pm_const(1));
					}
					SIM_CHECK(sum == x, "information", "coefficients of v" << v << " in " << pm_show(x) << " add up to " << pm_show(sum));
				}
				break;
			}
			case 15: {
				what = "coefficient";
				if (!pm_has(S[a].lhs, v)) break;
				unsigned e = (unsigned)r.below(3);
				Poly got;
				{ Faulty f; Poly g = S[a].c->coefficient(pv.vars[v], e); got = std::move(g); }
				Quiet q;
				PM want;
				for (auto& p : S[a].lhs) if (p.first[v] == e) { Exps x = p.first; x[v] = 0; pm_add(want, x, p.second); }
				pm_check(pv, got, want, "coefficient");
				break;
			}
			case 16: {
				what = "factorization";
				const Con& c = *S[a].c;
				bool has;
				std::vector<std::pair<Poly, unsigned>> fs;
				{
					Faulty f;
					has = c.hasFactorization();
					for (auto& p : c.factorization()) fs.emplace_back(p.first, (unsigned)p.second);
				}
				Quiet q;
				PM prod = pm_const(1);
				for (auto& p : fs) prod = prod * pm_pow(pm_read(pv, p.first, "factor"), p.second);
				SIM_CHECK(prod == S[a].lhs, "information", "factors of " << pm_show(S[a].lhs) << " multiply to " << pm_show(prod));
				SIM_CHECK(has == (fs.size() > 1), "information", "hasFactorization of " << pm_show(S[a].lhs));
				break;
			}
			case 17: {
				what = "bounds";
				const Con& c = *S[a].c;
				bool lo, up, bd;
				{ Faulty f; lo = c.isLowerBound(); up = c.isUpperBound(); bd = c.isBound(); }
				Quiet q;
				const PM& x = S[a].lhs;
				std::size_t nv = 0, var = 0;
				for (std::size_t i = 0; i < nvars; ++i) if (pm_deg(x, i)) { ++nv; var = i; }
				bool lin = nv == 1 && pm_deg(x) == 1, wl = false, wu = false;
				if (lin && S[a].rel == Relation::EQ) wl = wu = true;
				else if (lin && S[a].rel != Relation::NEQ) {
					Exps e{};
					e[var] = 1;
					bool neg = x.at(e) < 0, less = S[a].rel == Relation::LESS || S[a].rel == Relation::LEQ;
					wl = neg == less;
					wu = !wl;
				}
				SIM_CHECK(lo == wl && up == wu && bd == (wl || wu), "information", "bound classification of " << show(S[a]) << ": lower " << lo << " upper " << up);
				break;
			}
			case 18: {
				what = "substitution";
				const Con& c = *S[a].c;
				Variable var = Variable::NO_VARIABLE, av = Variable::NO_VARIABLE;
				Poly term;
				Q val;
				bool ok, ok2, neg = r.chance(0.3);
				{ Faulty f; ok = c.getSubstitution(var, term, neg); ok2 = c.getAssignment(av, val); }
				Quiet q;
				if (ok) {
					std::size_t i = pv.index(var);
					SIM_CHECK(i < nvars && S[a].rel == (neg ? Relation::NEQ : Relation::EQ), "information", "substitution from " << show(S[a]));
					PM tm = pm_read(pv, term, "substitution");
					PM rest = pm_subst(S[a].lhs, {{i, tm}});
					SIM_CHECK(pm_deg(tm, i) == 0 && rest.empty(), "information", "substitution v" << i << " = " << pm_show(tm) << " from " << show(S[a]));
				}
				if (ok2) {
					std::size_t i = pv.index(av);
					SIM_CHECK(i < nvars && S[a].rel == Relation::EQ && pm_subst(S[a].lhs, {{i, pm_const(val)}}).empty(), "information", "assignment v" << i << " = " << val.get_str() << " from " << show(S[a]));
				}
				break;
			}
			case 19: {
				what = "exchange";
				bool give = r.chance(0.5);
				std::size_t i = r.below(shared.size());
				std::unique_ptr<Con> nc, old;
				{
					std::lock_guard<std::mutex> l(shared_mutex);
					if (give) {
						nc.reset(new Con(*S[a].c));
						Quiet q;
						old.swap(shared[i].c);
						shared[i].c.swap(nc);
						shared[i].truth = S[a].truth;
						shared[i].lhs = S[a].lhs;
						shared[i].rel = S[a].rel;
						shared[i].src = S[a].src;
					} else if (shared[i].c) {
						nc.reset(new Con(*shared[i].c));
						Quiet q;
						old.swap(S[a].c);
						S[a].c.swap(nc);
						S[a].truth = shared[i].truth;
						S[a].lhs = shared[i].lhs;
						S[a].rel = shared[i].rel;
						S[a].src = shared[i].src;
					}
				}
				break;
			}
			case 20: case 21: {
				what = "drop";
				std::unique_ptr<Con> old;
				{ Quiet qq; old.swap(S[d].c); }
				break;
			}
			case 22: case 23: {
				what = "compare";
				if (pm_constant(S[a].lhs) || pm_constant(S[d].lhs)) break;
				int got;
				{ Faulty f; got = carl::compare(*S[a].c, *S[d].c); }
				Quiet q;
				SIM_CHECK(got >= -4 && got <= 2, "information", "comparison gave " << got);
				SIM_CHECK(a != d || got == carl::A_IFF_B, "information", "comparison of " << show(S[a]) << " with itself gave " << got);
				for (auto& p : telling_points(r, S[a].lhs, S[d].lhs)) {
					bool x = holds(pm_eval(S[a].lhs, p), S[a].rel), y = holds(pm_eval(S[d].lhs, p), S[d].rel);
					bool ok = got == carl::A_IFF_B ? x == y : got == carl::A_IMPLIES_B ? !x || y : got == carl::B_IMPLIES_A ? x || !y : got == carl::NOT__A_AND_B ? !(x && y) : got == carl::A_XOR_B ? x != y : true;
					SIM_CHECK(ok, "information", "comparison of " << show(S[a]) << " and " << show(S[d]) << " gave " << got << ", but they are " << x << " and " << y << " at " << show(p));
				}
				if (got != 0) reach("decided comparison");
				break;
			}
			case 24: case 25: case 26: case 27: {
				what = k < 26 ? "consistency with a box" : "evaluation on a box";
				std::vector<Box> box;
				carl::EvaluationMap<carl::Interval<double>> bd;
				carl::EvaluationMap<carl::Interval<Q>> bq;
				bool full = k >= 26 || r.chance(0.85), skipped = false;
				for (std::size_t i = 0; i < nvars; ++i) {
					Box b;
					{ Quiet q; b = random_side(r); box.push_back(b); }
					if (!full && r.chance(0.4)) { skipped = skipped || pm_has(S[a].lhs, i); continue; }
					if (k < 26) bd.emplace(pv.vars[i], carl::Interval<double>(b.lo.at.get_d(), b.lo.type, b.up.at.get_d(), b.up.type));
					else bq.emplace(pv.vars[i], carl::Interval<Q>(b.lo.at, b.lo.type, b.up.at, b.up.type));
				}
				unsigned one = 2, two = 2, ev = 2;
				Relation stricter = S[a].rel;
				{
					Faulty f;
					if (k < 26) {
						one = S[a].c->consistentWith(bd);
						two = S[a].c->consistentWith(bd, stricter);
					} else {
						ev = S[a].c->evaluate(bq);
					}
				}
				Quiet q;
				SIM_CHECK(!skipped || (one == 2 && two == 2 && stricter == S[a].rel), "information", "verdict without bounds for all variables of " << show(S[a]));
				SIM_CHECK(one == two && one <= 2 && ev <= 3, "information", "verdicts " << one << ", " << two << " and " << ev);
				for (int i = 0; i < 16; ++i) {
					Point p(PM_VARS);
					for (std::size_t j = 0; j < nvars; ++j) p[j] = inside(r, box[j]);
					Q val = pm_eval(S[a].lhs, p);
					bool x = holds(val, S[a].rel);
					SIM_CHECK(one == 2 || (one == 1) == x, "information", "verdict " << one << " for " << show(S[a]) << " on " << show(box) << ", which is " << x << " at " << show(p));
					SIM_CHECK(holds(val, stricter) == x, "information", "stricter relation " << stricter << " for " << show(S[a]) << " on " << show(box) << ", which is " << x << " at " << show(p));
					SIM_CHECK(ev == 2 || (ev == 3 && x) || (ev == 0 && !x) || (ev == 1 && x == (val == 0)), "information", "evaluation " << ev << " of " << show(S[a]) << " on " << show(box) << ", which is " << x << " at " << show(p));
				}
				if (one != 2 || ev != 2) reach("decided on a box");
				if (stricter != S[a].rel) reach("stricter relation");
				break;
			}
			}
		} catch (const std::bad_alloc&) {
			failed = true;
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "exception", what << ": bad_alloc without an allocation failure");
		}
		reach(failed ? "an operation failed" : what);
		if (res) {
			std::vector<bool> tr;
			if (k == 9) { Quiet q; tr = S[a].truth; }
			put(t, d, std::move(res), src, k == 9 ? &tr : nullptr, what);
		}
		Quiet q;
		check_held();
	}
	bool pm_constant(const PM& x) { Quiet q; return pm_deg(x) == 0; }
	bool pm_has(const PM& x, std::size_t v) { Quiet q; return pm_deg(x, v) > 0; }
	void finish() override {
		Quiet q;
		for (int k = 1; k <= 5; ++k) for (auto& s : slots[k]) if (s.c) check(s, "constraint at the end");
		for (auto& s : shared) if (s.c) check(s, "constraint at the end");
		check_held();
	}
};
}
namespace sim { Harness* make_harness() { return new H; } }

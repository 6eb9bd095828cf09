// Contracting boxes: clients narrow their boxes with constraints that hold at a known point, which must stay inside.
// build-flags: -DNDEBUG -include @VERIF@/harness/cocoa_stub.h
#include "poly_model.h"
#include <carl/formula/Constraint.h>
#include <carl/interval/Contraction.h>
#include <carl/interval/Contractor.h>
#include <carl/interval/Interval.h>
#include <algorithm>
#include <cfenv>
#include <cmath>

using namespace sim;
namespace sim { const char* const harness_name = "contract"; }

namespace {
using sim::operator+;
using sim::operator-;
using sim::operator*;
using Iv = carl::Interval<double>;
using BT = carl::BoundType;
using Con = carl::Constraint<Poly>;
using Box = std::map<carl::Variable, Iv>;
using Contractor = carl::contractor::Contractor<int, Poly>;
using Newton = carl::Contraction<carl::SimpleNewton, Poly>;
constexpr std::size_t NV = 4; // the last two are integers

/// Oracle code computes in the default mode.
struct Nearest {
	int saved = std::fegetround();
	Nearest() { std::fesetround(FE_TONEAREST); }
	~Nearest() { std::fesetround(saved); }
};
bool lower_inf(const Iv& i) { return i.lowerBoundType() == BT::INFTY; }
bool upper_inf(const Iv& i) { return i.upperBoundType() == BT::INFTY; }
bool contains(const Iv& i, const Q& p) {
	if (!lower_inf(i)) {
		if (!std::isfinite(i.lower())) return false;
		int c = cmp(p, Q(i.lower()));
		if (c < 0 || (c == 0 && i.lowerBoundType() == BT::STRICT)) return false;
	}
	if (!upper_inf(i)) {
		if (!std::isfinite(i.upper())) return false;
		int c = cmp(p, Q(i.upper()));
		if (c > 0 || (c == 0 && i.upperBoundType() == BT::STRICT)) return false;
	}
	return true;
}
bool within(const Iv& a, const Iv& b) {
	if (!lower_inf(b) && (lower_inf(a) || a.lower() < b.lower() || (a.lower() == b.lower() && b.lowerBoundType() == BT::STRICT && a.lowerBoundType() != BT::STRICT))) return false;
	if (!upper_inf(b) && (upper_inf(a) || a.upper() > b.upper() || (a.upper() == b.upper() && b.upperBoundType() == BT::STRICT && a.upperBoundType() != BT::STRICT))) return false;
	return true;
}
std::string show(const Iv& i) {
	std::ostringstream os;
	os.precision(17);
	os << (i.lowerBoundType() == BT::WEAK ? "[" : "(");
	if (lower_inf(i)) os << "-inf"; else os << i.lower();
	os << ", ";
	if (upper_inf(i)) os << "inf"; else os << i.upper();
	os << (i.upperBoundType() == BT::WEAK ? "]" : ")");
	return os.str();
}
std::string show(const std::vector<Iv>& v) { std::string s; for (auto& i : v) s += (s.empty() ? "" : " and ") + show(i); return s.empty() ? "nothing" : s; }

struct H : Harness {
	PolyVars pv;
	/// A contractor shared by the clients, with the constraint it belongs to.
	struct Entry { PM p; carl::Relation rel; std::size_t v; std::vector<Q> point; std::shared_ptr<const Contractor> c; };
	std::vector<Entry> shared;
	std::mutex mx;
	/// Contraction operators keep state and belong to one client.
	struct Op { PM p, original; bool has_original, propagates; std::vector<Q> point; std::shared_ptr<Newton> n; };
	std::vector<Op> ops[MAXT];
	double alloc = 0;

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 3);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(2, r.chance(0.1) ? 30 : 10);
		if (faults) {
			c.rate[F_FPENV] = pick_from(r, {0.0, 0.3, 0.8});
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.0, 0.003, 0.02});
			c.max_faults = (int)r.range(1, 20);
		}
	}
	void setup(Rng&) override {
		for (std::size_t i = 0; i < NV; ++i) pv.vars.push_back(i < 2 ? carl::freshRealVariable("x" + std::to_string(i)) : carl::freshIntegerVariable("n" + std::to_string(i)));
		std::sort(pv.vars.begin(), pv.vars.end());
		Poly p(pv.vars[0]);
		p = p * p - Poly(pv.vars[1]);
		Con c(p, carl::Relation::LEQ);
		Box b;
		for (auto v : pv.vars) b[v] = Iv(1, 2);
		Contractor(0, c, pv.vars[0]).contract(b);
		Iv u, w;
		Newton op(p);
		op(b, pv.vars[0], u, w, false, true);
	}
	bool is_int(std::size_t i) { return pv.vars[i].type() == carl::VariableType::VT_INT; }
	Q coordinate(Rng& r, std::size_t i) {
		Q q;
		if (is_int(i) || r.chance(0.3)) q = Q((long)r.range(-4, 4));
		else if (r.chance(0.6)) q = Q((long)r.range(-40, 40), (long)(1u << r.below(6)));
		else q = Q((long)r.range(-40, 40), (long)r.range(1, 9));
		q.canonicalize();
		return q;
	}
	double below_of(const Q& q) { double d = q.get_d(); while (Q(d) > q) d = std::nextafter(d, -1e300); return d; }
	double above_of(const Q& q) { double d = q.get_d(); while (Q(d) < q) d = std::nextafter(d, 1e300); return d; }
	Iv around(Rng& r, const Q& q) {
		double lo = below_of(q), hi = above_of(q);
		auto widen = [&](double d, int sign) {
			switch (r.below(6)) {
			case 0: return d;
			case 1: return d == 0 ? sign * 0x1p-40 : std::nextafter(d, sign * 1e300); // no overflow of quotients
			case 2: return d + sign * (double)r.below(100) / 64;
			case 3: return d + sign * (double)r.below(8);
			case 4: return sign > 0 ? std::ceil(d) : std::floor(d);
			default: return d + sign * (double)r.below(1000) / 7;
			}
		};
		lo = widen(lo, -1);
		hi = widen(hi, 1);
		if (r.chance(0.1)) lo = std::min(lo, 0.0);
		if (r.chance(0.1)) hi = std::max(hi, 0.0);
		BT l = Q(lo) < q && r.chance(0.25) ? BT::STRICT : BT::WEAK, u = Q(hi) > q && r.chance(0.25) ? BT::STRICT : BT::WEAK;
		if (r.chance(0.07)) l = BT::INFTY;
		if (r.chance(0.07)) u = BT::INFTY;
		return Iv(lo, l, hi, u);
	}
	Box box(Rng& r, const std::vector<Q>& pt) { Box b; for (std::size_t i = 0; i < NV; ++i) b[pv.vars[i]] = around(r, pt[i]); return b; }
	std::string show_box(const Box& b) { std::string s; for (std::size_t i = 0; i < NV; ++i) s += (i ? ", v" : "v") + std::to_string(i) + " in " + show(b.at(pv.vars[i])); return s; }
	std::string show_point(const std::vector<Q>& p) { std::string s; for (std::size_t i = 0; i < NV; ++i) s += (i ? "," : "") + p[i].get_str(); return "(" + s + ")"; }
	std::vector<Q> point(Rng& r) { std::vector<Q> p; for (std::size_t i = 0; i < PM_VARS; ++i) p.push_back(i < NV ? coordinate(r, i) : Q(0)); return p; }
	/// A polynomial with the given value at the given point.
	PM through(Rng& r, const std::vector<Q>& pt, const Q& value) {
		PM p;
		do p = pm_random(r, NV, 4, 4); while (pm_deg(p) == 0);
		Q d = value - pm_eval(p, pt);
		p = p + pm_const(d);
		return p;
	}
	Poly build(const PM& a) {
		Poly p;
		for (auto& t : a) {
			Poly f(t.second);
			for (std::size_t i = 0; i < PM_VARS; ++i) for (unsigned k = 0; k < t.first[i]; ++k) f *= pv.vars[i];
			p += f;
		}
		return p;
	}
	void check_mode(int mode) { SIM_CHECK(std::fegetround() == mode, "rounding-mode", "the operation left rounding mode " << std::fegetround() << " instead of " << mode); }
	template<typename F>
	bool attempt(F&& f) {
		int mode = std::fegetround();
		try { Faulty ff; f(); }
		catch (const std::bad_alloc&) {
			Quiet q;
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "exception", "std::bad_alloc without an allocation failure");
			reach("allocation-failure");
			check_mode(mode);
			return false;
		}
		Quiet q;
		check_mode(mode);
		return true;
	}

	void make_contractor(int t, Rng& r) {
		Entry e;
		Poly p;
		{
			Quiet q; Nearest n;
			e.point = point(r);
			e.rel = pick_from(r, {carl::Relation::EQ, carl::Relation::EQ, carl::Relation::LESS, carl::Relation::LEQ, carl::Relation::GREATER, carl::Relation::GEQ});
			Q slack = r.chance(0.3) ? Q(0) : Q((long)r.below(20), (long)r.range(1, 5));
			slack.canonicalize();
			if (e.rel == carl::Relation::EQ) slack = 0;
			if ((e.rel == carl::Relation::LESS || e.rel == carl::Relation::GREATER) && slack == 0) slack = Q(1, 7);
			if (e.rel == carl::Relation::LESS || e.rel == carl::Relation::LEQ) slack = -slack;
			e.p = through(r, e.point, slack);
			std::vector<std::size_t> vs;
			for (std::size_t i = 0; i < NV; ++i) if (pm_deg(e.p, i)) vs.push_back(i);
			e.v = vs[r.below(vs.size())];
			SIM_LOG("t" << t << " contractor for v" << e.v << " in " << pm_show(e.p) << " rel " << (int)e.rel << " at " << show_point(e.point));
		}
		if (!attempt([&] {
			p = build(e.p);
			Con c(p, e.rel);
			if (c.isConsistent() == 2 && c.lhs().has(pv.vars[e.v]) && c.relation() != carl::Relation::NEQ) e.c = std::make_shared<const Contractor>(t, c, pv.vars[e.v]);
		})) return;
		if (!e.c) return;
		SIM_CHECK(e.c->var() == pv.vars[e.v] && e.c->origin() == t, "wrong-result", "a contractor belongs to another variable or origin");
		std::lock_guard<std::mutex> l(mx);
		Quiet q;
		if (shared.size() < 5) shared.push_back(e); else std::swap(shared[r.below(shared.size())], e);
	}
	void use_contractor(int t, Rng& r) {
		Entry e;
		{ std::lock_guard<std::mutex> l(mx); Quiet q; if (shared.empty()) return; e = shared[r.below(shared.size())]; }
		Box b;
		{ Quiet q; Nearest n; b = box(r, e.point); SIM_LOG("t" << t << " contract v" << e.v << " in " << pm_show(e.p) << " rel " << (int)e.rel << " over " << show_box(b)); }
		int rounds = (int)r.range(1, 3);
		for (int k = 0; k < rounds; ++k) {
			std::vector<Iv> res;
			if (!attempt([&] { res = e.c->contract(b); })) return;
			Quiet q; Nearest n;
			const Iv& cur = b.at(pv.vars[e.v]);
			std::ostringstream what;
			what << pm_show(e.p) << " " << e.rel << " 0 for v" << e.v << " over " << show_box(b);
			std::size_t at = res.size();
			for (std::size_t i = 0; i < res.size(); ++i) {
				SIM_CHECK(within(res[i], cur), "not-contained", "contracting " << what.str() << " gives " << show(res) << " outside of the box");
				if (contains(res[i], e.point[e.v])) at = i;
			}
			SIM_CHECK(at < res.size(), "lost-solution", "contracting " << what.str() << " gives " << show(res) << " without the solution " << show_point(e.point));
			if (res.size() > 1) reach("several-parts");
			if (!(lower_inf(res[at]) == lower_inf(cur) && upper_inf(res[at]) == upper_inf(cur) && res[at].lower() == cur.lower() && res[at].upper() == cur.upper())) reach("narrowed");
			b[pv.vars[e.v]] = res[at];
		}
		reach("contractor");
	}
	void make_operator(int t, Rng& r) {
		Op o;
		{
			Quiet q; Nearest n;
			o.point = point(r);
			o.propagates = r.chance(0.6);
			o.has_original = r.chance(0.4);
			if (!o.propagates) o.p = through(r, o.point, 0);
			else if (r.chance(0.4)) {
				// linear without constant part
				std::size_t last = r.below(NV);
				Q sum = 0;
				for (std::size_t i = 0; i < NV; ++i) if (i != last && r.chance(0.7)) { Q c = pm_rational(r); o.p = o.p + pm_scale(pm_var(i), c); sum += c * o.point[i]; }
				Q c = pm_rational(r);
				if (is_int(last)) {
					// keep the point integral
					if (o.point[last] == 0 ? sum != 0 : false) { o.point[last] = 1; c = -sum; }
					else if (sum != 0) c = -sum / o.point[last];
					else o.point[last] = 0;
				} else o.point[last] = -sum / c;
				o.p = o.p + pm_scale(pm_var(last), c);
			} else {
				// x^i*m - y
				std::size_t y = r.below(NV);
				Exps e{};
				bool integral = true;
				for (int k = (int)r.range(2, 4); k > 0; --k) { std::size_t i = r.below(NV); if (i != y) ++e[i]; }
				if (pm_tdeg(e) < 2) e[(y + 1) % NV] = 2;
				Q v = pm_eval(pm_term(e, 1), o.point);
				integral = v.get_den() == 1;
				if (is_int(y) && !integral) {
					for (std::size_t i = 0; i < NV; ++i) if (e[i]) o.point[i] = Q((long)r.range(-3, 3));
					v = pm_eval(pm_term(e, 1), o.point);
				}
				o.point[y] = v;
				o.p = pm_term(e, 1) - pm_var(y);
			}
			if (o.has_original) o.original = through(r, o.point, 0);
			SIM_LOG("t" << t << " operator " << pm_show(o.p) << (o.has_original ? " from " + pm_show(o.original) : "") << " at " << show_point(o.point));
		}
		if (!attempt([&] {
			Poly p = build(o.p);
			if (o.has_original) o.n = std::make_shared<Newton>(p, build(o.original)); else o.n = std::make_shared<Newton>(p);
		})) return;
		Quiet q;
		if (ops[t].size() < 4) ops[t].push_back(o); else std::swap(ops[t][r.below(ops[t].size())], o);
	}
	void use_operator(int t, Rng& r) {
		if (ops[t].empty()) return make_operator(t, r);
		Op& o = ops[t][r.below(ops[t].size())];
		Box b;
		std::size_t v;
		bool nice = r.chance(0.4), prop = o.propagates && r.chance(0.7);
		{
			Quiet q; Nearest n;
			std::vector<std::size_t> vs;
			for (std::size_t i = 0; i < NV; ++i) if (pm_deg(o.p, i)) vs.push_back(i);
			v = vs[r.below(vs.size())];
			b = box(r, o.point);
			SIM_LOG("t" << t << " operator " << pm_show(o.p) << (o.has_original ? " from " + pm_show(o.original) : "") << " for v" << v << " over " << show_box(b) << (nice ? " nice" : "") << (prop ? " propagating" : ""));
		}
		int rounds = (int)r.range(1, 3);
		for (int k = 0; k < rounds; ++k) {
			Iv res1, res2;
			bool split = false;
			if (!attempt([&] { split = (*o.n)(b, pv.vars[v], res1, res2, nice, prop); })) return;
			Quiet q; Nearest n;
			const Iv& cur = b.at(pv.vars[v]);
			std::vector<Iv> res{res1};
			if (split) res.push_back(res2);
			std::size_t at = res.size();
			for (std::size_t i = 0; i < res.size(); ++i) {
				SIM_CHECK(res[i].isEmpty() || within(res[i], cur), "not-contained", "contracting " << pm_show(o.p) << (o.has_original ? " from " + pm_show(o.original) : "") << " = 0 for v" << v << " over " << show_box(b) << (nice ? " nice" : "") << (prop ? " propagating" : "") << " gives " << show(res) << " outside of the box");
				if (contains(res[i], o.point[v])) at = i;
			}
			SIM_CHECK(at < res.size(), "lost-solution", "contracting " << pm_show(o.p) << (o.has_original ? " from " + pm_show(o.original) : "") << " = 0 for v" << v << " over " << show_box(b) << (nice ? " nice" : "") << (prop ? " propagating" : "") << " gives " << show(res) << " without the solution " << show_point(o.point));
			if (split) reach("split");
			if (prop) reach("propagation");
			b[pv.vars[v]] = res[at];
		}
		reach("newton");
	}
	void op(int t, int, Rng& r) override {
		std::uint64_t f;
		{ Faulty fa; f = fault(F_FPENV); }
		if (f) { static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; std::fesetround(modes[f % 4]); reach("other-mode"); }
		int k = (int)r.below(10);
		if (k < 2) make_contractor(t, r);
		else if (k < 5) use_contractor(t, r);
		else if (k < 7) make_operator(t, r);
		else use_operator(t, r);
		Quiet q;
		state(mix((std::uint64_t)std::fegetround(), ops[t].empty() ? 0 : pm_hash(ops[t].back().p)));
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

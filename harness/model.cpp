// Models: values given directly or by expressions of other variables, evaluation of expressions over them.
// build-flags: -DNDEBUG -include @VERIF@/harness/cocoa_stub.h
#include "poly_model.h"
#include <carl/formula/Formula.h>
#include <carl/formula/FormulaPool.h>
#include <carl/formula/SortManager.h>
#include <carl/formula/uninterpreted/UFManager.h>
#include <carl/formula/uninterpreted/UFInstanceManager.h>
#include <carl/ran/ran.h>
#include <carl/ran/real_roots.h>
#include <carl-model/Model.h>
#include <carl-model/Assignment.h>
#include <carl-model/evaluation/ModelEvaluation.h>
#include <carl-model/uninterpreted/SortValueManager.h>
#include <deque>
#include <optional>

using namespace sim;
using carl::FormulaType;
using carl::Relation;
using carl::Variable;
using F = carl::Formula<Poly>;
using Pool = carl::FormulaPool<Poly>;
using M = carl::Model<Q, Poly>;
using MV = carl::ModelValue<Q, Poly>;
using RAN = carl::RealAlgebraicNumber<Q>;
using UP = carl::UnivariatePolynomial<Q>;
using MR = carl::MultivariateRoot<Poly>;
using PolySub = carl::ModelPolynomialSubstitution<Q, Poly>;
using FormSub = carl::ModelFormulaSubstitution<Q, Poly>;
using RootSub = carl::ModelMVRootSubstitution<Q, Poly>;

namespace sim { const char* const harness_name = "model"; }

namespace {
using sim::operator+;
using sim::operator-;
using sim::operator*;
/// a + b * sqrt(2)
struct N {
	Q a = 0, b = 0;
};
N operator+(const N& x, const N& y) { return N{x.a + y.a, x.b + y.b}; }
N operator-(const N& x, const N& y) { return N{x.a - y.a, x.b - y.b}; }
N operator*(const N& x, const N& y) { return N{x.a * y.a + 2 * x.b * y.b, x.a * y.b + x.b * y.a}; }
N operator/(const N& x, const N& y) {
	Q n = y.a * y.a - 2 * y.b * y.b;
	N r = x * N{y.a, -y.b};
	return N{r.a / n, r.b / n};
}
bool operator==(const N& x, const N& y) { return x.a == y.a && x.b == y.b; }
int sign(const N& x) {
	int s = sgn(x.a), t = sgn(x.b);
	if (s == 0) return t;
	if (t == 0 || s == t) return s;
	return x.a * x.a > 2 * x.b * x.b ? s : t;
}
std::string str(const N& n) { return n.b == 0 ? n.a.get_str() : n.a.get_str() + "+" + n.b.get_str() + "*sqrt(2)"; }
bool qsqrt(const Q& x, Q& r) {
	if (x < 0 || !mpz_perfect_square_p(x.get_num_mpz_t()) || !mpz_perfect_square_p(x.get_den_mpz_t())) return false;
	r = Q(sqrt(x.get_num()), sqrt(x.get_den()));
	return true;
}
/// Non-negative root, if it is of this form.
bool nsqrt(const N& x, N& r) {
	if (sign(x) < 0) return false;
	Q p, q;
	if (x.b == 0) {
		if (qsqrt(x.a, p)) { r = N{p, 0}; return true; }
		if (qsqrt(x.a / 2, p)) { r = N{0, p}; return true; }
		return false;
	}
	if (!qsqrt(x.a * x.a - 2 * x.b * x.b, q)) return false;
	for (int s = -1; s <= 1; s += 2) {
		if (!qsqrt((x.a + s * q) / 2, p) || p == 0) continue;
		r = N{p, x.b / (2 * p)};
		if (sign(r) < 0) r = N{-r.a, -r.b};
		return r * r == x;
	}
	return false;
}
bool holds(int s, Relation r) {
	switch (r) {
	case Relation::EQ: return s == 0;
	case Relation::NEQ: return s != 0;
	case Relation::LESS: return s < 0;
	case Relation::LEQ: return s <= 0;
	case Relation::GREATER: return s > 0;
	default: return s >= 0;
	}
}
const Relation ALL[] = {Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};

constexpr int NA = 4, NB = 4, NV = 2, NU = 3; // arithmetic, Boolean, bit-vector, uninterpreted
constexpr int KB = NA, KV = KB + NB, KU = KV + NV, KF = KU + NU, KEYS = KF + 1;
constexpr int NS = 4; // sort values, 0 is the default one
constexpr int WORLDS = 6;

enum Kind { NUM, ALG, POLY, ROOT, BOOL, FORM, BV, SORT, UF };
struct Ent {
	Kind kind = NUM;
	N n; // NUM, ALG
	PM p; // POLY, ROOT
	unsigned k = 1; // ROOT
	bool b = false;
	const F* f = nullptr; // owned by the task
	int i = 0;
	std::map<int, int> fun;
};
using Ref = std::map<int, Ent>;
struct World {
	std::vector<N> a = std::vector<N>(PM_VARS);
	bool b[NB] = {};
	int v[NV] = {}, u[NU] = {};
	std::map<int, int> fun;
	int apply(int x) const { auto it = fun.find(x); return it == fun.end() ? 0 : it->second; }
};
struct Slot {
	M m;
	Ref e;
};

struct H : Harness {
	std::size_t nslots = 2;
	bool algebraic = false, single = false;
	PolyVars pv;
	std::size_t ar[NA], zi = 0;
	std::vector<Variable> bools;
	std::vector<carl::BVVariable> bvars;
	std::vector<carl::UVariable> uvars;
	std::vector<carl::UninterpretedFunction> fun;
	std::vector<carl::SortValue> svals;
	std::vector<carl::UTerm> uterms; // instances are not made by several tasks at once
	std::vector<carl::ModelVariable> keys;
	std::vector<Slot> slots[MAXT];
	std::deque<F> forms[MAXT]; // formulas of the task, in the reference entries and to be evaluated
	std::vector<Slot> shared;
	std::deque<F> shared_forms;
	std::mutex shared_mutex;

	void configure(Rng& r, Config& c, bool faults) override {
		nslots = (std::size_t)r.range(1, 3);
		c.ntasks = r.chance(0.5) ? 1 : (int)r.range(2, 3);
		single = c.ntasks == 1;
		algebraic = r.chance(0.4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(4, c.ntasks == 1 ? 60 : 20);
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.002, 0.02});
			c.rate[F_STALL] = 0.01;
		}
	}
	void setup(Rng& r) override {
		Pool::getInstance();
		{
			Variable z = MR::var();
			Variable v[NA];
			for (auto& x : v) x = carl::freshRealVariable();
			Quiet q;
			pv.vars.assign(v, v + NA);
			pv.vars.push_back(z);
			std::sort(pv.vars.begin(), pv.vars.end());
			zi = pv.index(z);
			std::size_t n = 0;
			for (std::size_t i = 0; i < pv.vars.size(); ++i) if (i != zi) ar[n++] = i;
		}
		for (int i = 0; i < NB; ++i) { Variable v = carl::freshBooleanVariable(); Quiet q; bools.push_back(v); }
		auto& sm = carl::SortManager::getInstance();
		carl::Sort us = sm.addSort("U");
		carl::Sort bv = sm.addSort("BitVec");
		sm.makeSortIndexable(bv, 1, carl::VariableType::VT_BITVECTOR);
		carl::Sort bs = sm.index(bv, {4});
		for (int i = 0; i < NV; ++i) { carl::BVVariable b(carl::freshBitvectorVariable(), bs); Quiet q; bvars.push_back(b); }
		for (int i = 0; i < NU; ++i) { carl::UVariable u(carl::freshUninterpretedVariable(), us); Quiet q; uvars.push_back(u); }
		fun.push_back(carl::newUninterpretedFunction("f", {us}, us));
		for (int i = 0; i < NU; ++i) uterms.emplace_back(uvars[(std::size_t)i]);
		for (int i = 0; i < 2 * NU; ++i) { carl::UTerm a = uterms[(std::size_t)i]; uterms.emplace_back(carl::newUFInstance(fun[0], {a})); }
		svals.push_back(carl::defaultSortValue(us));
		for (int i = 1; i < NS; ++i) svals.push_back(carl::newSortValue(us));
		for (int i = 0; i < NS; ++i) for (int j = 0; j < i; ++j) SIM_CHECK(!(svals[(std::size_t)i] == svals[(std::size_t)j]), "not-fresh", "two new values of a sort are equal");
		for (int i = 0; i < NA; ++i) keys.emplace_back(pv.vars[ar[i]]);
		for (auto& b : bools) keys.emplace_back(b);
		for (auto& b : bvars) keys.emplace_back(b);
		for (auto& u : uvars) keys.emplace_back(u);
		keys.emplace_back(fun[0]);
		// first use of function-local objects
		{
			Poly p(pv.vars[ar[0]]);
			F a(p, Relation::LESS), b(bools[0]), c(FormulaType::AND, a, b);
			F g(carl::UTerm(uvars[0]), carl::UTerm(uvars[1]), false);
			F e(carl::BVConstraint::create(carl::BVCompareRelation::EQ, carl::BVTerm(carl::BVTermType::VARIABLE, bvars[0]), carl::BVTerm(carl::BVTermType::VARIABLE, bvars[1])));
			M m;
			RAN n = ran(N{0, 1});
			m.emplace(pv.vars[ar[0]], MV(n));
			MV v = carl::model::evaluate(a, m);
			MV v2 = carl::model::evaluate(Poly(p * p), m);
			MV v3 = carl::model::evaluate(MR(Poly(MR::var()) - Poly(Q(1)), 1), m);
			SIM_CHECK(v.isBool() && !v.asBool(), "wrong-value", "sign of the root of two");
		}
		for (int t = 1; t < MAXT; ++t) for (std::size_t i = 0; i < nslots; ++i) { slots[t].emplace_back(); init(slots[t].back()); }
		shared.emplace_back();
		init(shared[0]);
	}
	/// The function has a value in every model.
	void init(Slot& s) {
		s.m.clear();
		s.m.emplace(fun[0], MV(carl::UFModel(fun[0])));
		Quiet q;
		s.e.clear();
		Ent x;
		x.kind = UF;
		s.e[KF] = x;
	}

	// ---- building library objects
	Poly build(const PM& x) {
		std::vector<PTerm> v;
		for (auto& t : x) {
			std::vector<std::pair<Variable, carl::exponent>> c;
			for (std::size_t i = 0; i < pv.vars.size(); ++i) if (t.first[i]) c.emplace_back(pv.vars[i], t.first[i]);
			carl::Monomial::Arg m = c.empty() ? nullptr : carl::createMonomial(std::move(c));
			v.emplace_back(t.second, m);
		}
		return Poly(std::move(v));
	}
	RAN ran(const N& n) {
		if (n.b == 0) return RAN(n.a);
		Q lo = n.a + n.b * Q(7, 5), hi = n.a + n.b * Q(3, 2);
		if (lo > hi) std::swap(lo, hi);
		UP p(pv.vars[ar[0]], {Q(n.a * n.a - 2 * n.b * n.b), Q(-2 * n.a), Q(1)});
		return RAN::create_safe(p, carl::Interval<Q>(lo, carl::BoundType::STRICT, hi, carl::BoundType::STRICT));
	}
	Q small(Rng& r, bool zero = true) {
		Q x(r.range(-4, 4), r.chance(0.7) ? 1 : r.range(1, 3));
		x.canonicalize();
		if (!zero && x == 0) x = 1;
		return x;
	}
	N alg(Rng& r) { N n; n.a = r.chance(0.5) ? Q(0) : small(r); n.b = small(r, false); return n; }
	/// A polynomial over the first `n` arithmetic variables.
	PM poly(Rng& r, int n, int except = -1) {
		PM p;
		int terms = (int)r.range(1, 3);
		for (int i = 0; i < terms; ++i) {
			Exps e{};
			int d = (int)r.below(3);
			for (int j = 0; j < d && n > 0; ++j) {
				int v = (int)r.below((std::uint64_t)n);
				if (v != except) ++e[ar[v]];
			}
			pm_add(p, e, small(r, false));
		}
		return p;
	}
	/// A polynomial in the root variable and lower ones, of which the k-th root exists (or may not).
	void root(Rng& r, int n, int except, bool total, PM& p, unsigned& k) {
		PM z = pm_var(zi), q = algebraic ? pm_const(small(r)) : poly(r, n, except);
		k = 1;
		switch (r.below(total ? 4 : 6)) {
		case 0: p = pm_scale(z, small(r, false)) - q; break;
		case 1: {
			Q c = small(r, false);
			p = z * z - pm_const(2 * c * c);
			k = (unsigned)r.range(1, 2);
			if (!algebraic) { p = z * z - pm_const(c * c); }
			break;
		}
		case 2: case 3: {
			Q d = abs(small(r, false));
			p = (z - q) * (z - q - pm_const(d));
			if (r.chance(0.3)) p = pm_scale(p, small(r, false));
			k = (unsigned)r.range(1, 2);
			break;
		}
		case 4: p = z * z + pm_const(Q(1)) + q * q; break;
		default: {
			if (algebraic) { p = z - q; k = 2; break; }
			int v = n > 0 ? (int)r.below((std::uint64_t)n) : -1;
			p = (v < 0 || v == except ? z : z * pm_var(ar[v])) - q;
		}
		}
	}
	N eval(const PM& p, const std::vector<N>& a) const {
		N s;
		for (auto& t : p) {
			N c{t.second, 0};
			for (std::size_t i = 0; i < PM_VARS; ++i) for (unsigned k = 0; k < t.first[i]; ++k) c = c * a[i];
			s = s + c;
		}
		return s;
	}
	/// The k-th root in the root variable.
	bool root_at(const PM& p, unsigned k, const std::vector<N>& a, N& res) const {
		std::map<unsigned, PM> by;
		for (auto& t : p) { Exps e = t.first; unsigned d = e[zi]; e[zi] = 0; pm_add(by[d], e, t.second); }
		N c[3];
		for (auto& b : by) {
			SIM_CHECK(b.first <= 2, "wrong-result", "degree of a root expression");
			c[b.first] = eval(b.second, a);
		}
		if (sign(c[2]) == 0) {
			if (sign(c[1]) == 0 || k != 1) return false;
			res = N{} - c[0] / c[1];
			return true;
		}
		N d = c[1] * c[1] - N{4, 0} * c[2] * c[0], s;
		if (sign(d) < 0) return false;
		SIM_CHECK(nsqrt(d, s), "wrong-result", "root expression has another form: " << pm_show(p));
		if (sign(s) == 0) {
			if (k != 1) return false;
			res = N{} - c[1] / (N{2, 0} * c[2]);
			return true;
		}
		if (k > 2) return false;
		N x = (N{} - c[1] - s) / (N{2, 0} * c[2]), y = (N{} - c[1] + s) / (N{2, 0} * c[2]);
		if (sign(x - y) > 0) std::swap(x, y);
		res = k == 1 ? x : y;
		return true;
	}
	/// -1, 0, 1: the number is less than, equal to, greater than the library's.
	int cmp(const N& n, const RAN& v) const {
		if (v.is_numeric()) return sign(n - N{v.value(), 0});
		const UP& p = v.polynomial();
		auto at = [&](const N& x) {
			N s;
			for (std::size_t i = p.coefficients().size(); i-- > 0;) s = s * x + N{p.coefficients()[i], 0};
			return s;
		};
		N lo{v.interval().lower(), 0}, hi{v.interval().upper(), 0};
		if (sign(n - lo) < 0) return -1;
		if (sign(n - hi) > 0) return 1;
		int s = sign(at(n));
		if (s == 0 && sign(n - lo) > 0 && sign(n - hi) < 0) return 0;
		int l = sign(at(lo));
		SIM_CHECK(l != 0, "wrong-result", "bound of the interval is a root");
		return s == l ? -1 : 1;
	}
	bool vc_holds(const carl::VariableComparison<Poly>& c, const World& w) const {
		std::size_t i = pv.index(c.var());
		SIM_CHECK(i < pv.vars.size(), "wrong-result", "unknown variable in a comparison");
		bool res;
		if (std::holds_alternative<RAN>(c.value())) res = holds(cmp(w.a[i], std::get<RAN>(c.value())), c.relation());
		else {
			const MR& m = std::get<MR>(c.value());
			N x;
			bool ex = root_at(pm_read(pv, m.poly(), "root expression"), (unsigned)m.k(), w.a, x);
			res = ex && holds(sign(w.a[i] - x), c.relation());
		}
		return res != c.negated();
	}
	template<typename C, typename T>
	static int index_of(const C& c, const T& x) {
		for (std::size_t i = 0; i < c.size(); ++i) if (c[i] == x) return (int)i;
		SIM_CHECK(false, "wrong-result", "unknown variable in a formula");
		return 0;
	}
	int bv_at(const carl::BVTerm& t, const World& w) const {
		switch (t.type()) {
		case carl::BVTermType::VARIABLE: return w.v[index_of(bvars, t.variable())];
		case carl::BVTermType::CONSTANT: {
			int x = 0;
			for (std::size_t i = 0; i < t.width(); ++i) if (t.value()[i]) x |= 1 << i;
			return x;
		}
		case carl::BVTermType::ADD: return (bv_at(t.first(), w) + bv_at(t.second(), w)) & 15;
		case carl::BVTermType::AND: return bv_at(t.first(), w) & bv_at(t.second(), w);
		case carl::BVTermType::NOT: return ~bv_at(t.operand(), w) & 15;
		case carl::BVTermType::LROTATE: { int x = bv_at(t.operand(), w); std::size_t n = t.index() % 4; return ((x << n) | (x >> (4 - n))) & 15; }
		default: SIM_CHECK(false, "wrong-result", "unexpected kind of bit-vector term"); return 0;
		}
	}
	static bool bv_holds(carl::BVCompareRelation r, int a, int b) {
		int sa = a >= 8 ? a - 16 : a, sb = b >= 8 ? b - 16 : b;
		switch (r) {
		case carl::BVCompareRelation::EQ: return a == b;
		case carl::BVCompareRelation::NEQ: return a != b;
		case carl::BVCompareRelation::ULT: return a < b;
		case carl::BVCompareRelation::ULE: return a <= b;
		case carl::BVCompareRelation::UGT: return a > b;
		case carl::BVCompareRelation::UGE: return a >= b;
		case carl::BVCompareRelation::SLT: return sa < sb;
		case carl::BVCompareRelation::SLE: return sa <= sb;
		case carl::BVCompareRelation::SGT: return sa > sb;
		default: return sa >= sb;
		}
	}
	int uterm_at(const carl::UTerm& t, const World& w) const {
		if (t.isUVariable()) return w.u[index_of(uvars, t.asUVariable())];
		return w.apply(uterm_at(t.asUFInstance().args()[0], w));
	}
	/// Truth of a formula of the library, read from its structure. Takes no locks.
	bool eval(const F& f, const World& w, int depth = 0) const {
		SIM_CHECK(depth < 100, "wrong-result", "formula is too deep");
		switch (f.getType()) {
		case FormulaType::TRUE: return true;
		case FormulaType::FALSE: return false;
		case FormulaType::BOOL: return w.b[index_of(bools, f.boolean())];
		case FormulaType::CONSTRAINT: return holds(sign(eval(pm_read(pv, f.constraint().lhs(), "constraint"), w.a)), f.constraint().relation());
		case FormulaType::VARCOMPARE: return vc_holds(f.variableComparison(), w);
		case FormulaType::VARASSIGN: return vc_holds(f.variableAssignment(), w);
		case FormulaType::UEQ: return (uterm_at(f.uequality().lhs(), w) == uterm_at(f.uequality().rhs(), w)) != f.uequality().negated();
		case FormulaType::BITVECTOR: return bv_holds(f.bvConstraint().relation(), bv_at(f.bvConstraint().lhs(), w), bv_at(f.bvConstraint().rhs(), w));
		case FormulaType::NOT: return !eval(f.subformula(), w, depth + 1);
		case FormulaType::IMPLIES: return !eval(f.premise(), w, depth + 1) || eval(f.conclusion(), w, depth + 1);
		case FormulaType::ITE: return eval(f.condition(), w, depth + 1) ? eval(f.firstCase(), w, depth + 1) : eval(f.secondCase(), w, depth + 1);
		case FormulaType::AND: for (auto& s : f.subformulas()) if (!eval(s, w, depth + 1)) return false; return true;
		case FormulaType::OR: for (auto& s : f.subformulas()) if (eval(s, w, depth + 1)) return true; return false;
		case FormulaType::XOR: { bool p = false; for (auto& s : f.subformulas()) p ^= eval(s, w, depth + 1); return p; }
		case FormulaType::IFF: { std::size_t n = 0, k = 0; for (auto& s : f.subformulas()) { ++n; k += eval(s, w, depth + 1); } return k == 0 || k == n; }
		default: SIM_CHECK(false, "wrong-result", "unexpected kind of formula"); return false;
		}
	}

	// ---- what the reference knows
	bool known(const PM& p, const Ref& e) const {
		for (auto& t : p) for (int i = 0; i < NA; ++i) if (t.first[ar[i]] && !known(i, e)) return false;
		return true;
	}
	/// The entry determines a value.
	bool known(int key, const Ref& e) const {
		auto it = e.find(key);
		if (it == e.end()) return false;
		if (it->second.kind == POLY || it->second.kind == ROOT) return known(it->second.p, e);
		if (it->second.kind == FORM) return known(*it->second.f, e);
		return true;
	}
	bool known(const carl::BVTerm& t, const Ref& e) const {
		switch (t.type()) {
		case carl::BVTermType::VARIABLE: return known(KV + index_of(bvars, t.variable()), e);
		case carl::BVTermType::CONSTANT: return true;
		case carl::BVTermType::ADD: case carl::BVTermType::AND: return known(t.first(), e) && known(t.second(), e);
		default: return known(t.operand(), e);
		}
	}
	bool known(const carl::UTerm& t, const Ref& e) const {
		if (t.isUVariable()) return known(KU + index_of(uvars, t.asUVariable()), e);
		return known(t.asUFInstance().args()[0], e);
	}
	bool known(const carl::VariableComparison<Poly>& c, const Ref& e) const {
		if (!known(arith(c.var()), e)) return false;
		return std::holds_alternative<RAN>(c.value()) || known(pm_read(pv, std::get<MR>(c.value()).poly(), "root expression"), e);
	}
	bool known(const F& f, const Ref& e) const {
		switch (f.getType()) {
		case FormulaType::TRUE: case FormulaType::FALSE: return true;
		case FormulaType::BOOL: return known(KB + index_of(bools, f.boolean()), e);
		case FormulaType::CONSTRAINT: return known(pm_read(pv, f.constraint().lhs(), "constraint"), e);
		case FormulaType::VARCOMPARE: return known(f.variableComparison(), e);
		case FormulaType::VARASSIGN: return known((const carl::VariableComparison<Poly>&)f.variableAssignment(), e);
		case FormulaType::UEQ: return known(f.uequality().lhs(), e) && known(f.uequality().rhs(), e);
		case FormulaType::BITVECTOR: return known(f.bvConstraint().lhs(), e) && known(f.bvConstraint().rhs(), e);
		case FormulaType::NOT: return known(f.subformula(), e);
		default: for (auto& s : f.subformulas()) if (!known(s, e)) return false; return true;
		}
	}
	int arith(Variable v) const {
		std::size_t i = pv.index(v);
		for (int k = 0; k < NA; ++k) if (ar[k] == i) return k;
		SIM_CHECK(false, "wrong-result", "unknown variable");
		return 0;
	}
	static bool has(const F& f, FormulaType type) {
		if (f.getType() == type) return true;
		switch (f.getType()) {
		case FormulaType::NOT: return has(f.subformula(), type);
		case FormulaType::AND: case FormulaType::OR: case FormulaType::XOR: case FormulaType::IFF: case FormulaType::IMPLIES: case FormulaType::ITE:
			for (auto& s : f.subformulas()) if (has(s, type)) return true;
			return false;
		default: return false;
		}
	}
	/// A world that agrees with the model.
	World complete(const Ref& e, std::uint64_t seed) const {
		Rng r(seed);
		World w;
		for (int i = 0; i < NA; ++i) {
			N x{Q((int)r.below(9) - 4), 0};
			if (r.below(3) == 0) x.a /= 2;
			auto it = e.find(i);
			if (it == e.end()) {}
			else if (it->second.kind == NUM || it->second.kind == ALG) x = it->second.n;
			else if (it->second.kind == POLY) x = eval(it->second.p, w.a);
			else SIM_CHECK(root_at(it->second.p, it->second.k, w.a, x), "wrong-result", "root of an entry does not exist");
			w.a[ar[i]] = x;
		}
		for (int i = 0; i < NV; ++i) { w.v[i] = (int)r.below(16); auto it = e.find(KV + i); if (it != e.end()) w.v[i] = it->second.i; }
		for (int i = 0; i < NU; ++i) { w.u[i] = (int)r.below(NS); auto it = e.find(KU + i); if (it != e.end()) w.u[i] = it->second.i; }
		w.fun = e.at(KF).fun;
		for (int i = 0; i < NB; ++i) {
			w.b[i] = r.below(2);
			auto it = e.find(KB + i);
			if (it != e.end()) w.b[i] = it->second.kind == BOOL ? it->second.b : eval(*it->second.f, w);
		}
		return w;
	}
	static std::string show(const F& f) { std::ostringstream os; os << f; return os.str(); }
	std::string show(const Ref& e) const {
		std::ostringstream os;
		for (auto& x : e) {
			os << " k" << x.first << "=";
			switch (x.second.kind) {
			case NUM: case ALG: os << str(x.second.n); break;
			case POLY: os << "(" << pm_show(x.second.p) << ")"; break;
			case ROOT: os << "root" << x.second.k << "(" << pm_show(x.second.p) << ")"; break;
			case BOOL: os << x.second.b; break;
			case FORM: os << show(*x.second.f); break;
			case UF: os << "{"; for (auto& p : x.second.fun) os << p.first << "->" << p.second << " "; os << "}"; break;
			default: os << x.second.i;
			}
		}
		return os.str();
	}

	// ---- comparing answers with the reference
	void check_number(const MV& v, const PM& p, const Ref& e, std::uint64_t seed, const char* what) const {
		if (v.isSubstitution()) {
			SIM_CHECK(!known(p, e), "not-evaluated", what << " of " << pm_show(p) << " is left open in" << show(e));
			auto s = dynamic_cast<const PolySub*>(v.asSubstitution().get());
			SIM_CHECK(s != nullptr, "wrong-value", what << " of " << pm_show(p) << " is no polynomial in" << show(e));
			PM x = pm_read(pv, s->getPoly(), what);
			for (int k = 0; k < WORLDS; ++k) {
				World w = complete(e, mix(seed, (std::uint64_t)k));
				SIM_CHECK(eval(x, w.a) == eval(p, w.a), "wrong-value", what << " of " << pm_show(p) << " became " << pm_show(x) << " in" << show(e));
			}
			return;
		}
		for (int k = 0; k < WORLDS; ++k) {
			World w = complete(e, mix(seed, (std::uint64_t)k));
			check_value(v, eval(p, w.a), e, what);
		}
	}
	void check_value(const MV& v, const N& x, const Ref& e, const char* what) const {
		SIM_CHECK(v.isRational() || v.isRAN(), "wrong-value", what << " is no number in" << show(e));
		if (v.isRational()) SIM_CHECK(x.b == 0 && v.asRational() == x.a, "wrong-value", what << " is " << v.asRational() << " instead of " << str(x) << " in" << show(e));
		else SIM_CHECK(cmp(x, v.asRAN()) == 0, "wrong-value", what << " is a number other than " << str(x) << " in" << show(e));
	}
	void check_formula(const F& g, const F& f, const Ref& e, std::uint64_t seed, const char* what) const {
		if (!g.isTrue() && !g.isFalse()) SIM_CHECK(!known(f, e), "not-evaluated", what << " of " << show(f) << " is left open as " << show(g) << " in" << show(e));
		for (int k = 0; k < WORLDS; ++k) {
			World w = complete(e, mix(seed, (std::uint64_t)k));
			SIM_CHECK(eval(g, w) == eval(f, w), "wrong-value", what << " of " << show(f) << " became " << show(g) << " in" << show(e));
		}
	}
	void check_truth(const MV& v, const F& f, const Ref& e, std::uint64_t seed, const char* what) const {
		if (v.isBool()) {
			for (int k = 0; k < WORLDS; ++k) {
				World w = complete(e, mix(seed, (std::uint64_t)k));
				SIM_CHECK(eval(f, w) == v.asBool(), "wrong-value", what << " of " << show(f) << " is " << v.asBool() << " in" << show(e));
			}
			return;
		}
		SIM_CHECK(v.isSubstitution(), "wrong-value", what << " of " << show(f) << " is no truth value in" << show(e));
		auto s = dynamic_cast<const FormSub*>(v.asSubstitution().get());
		SIM_CHECK(s != nullptr, "wrong-value", what << " of " << show(f) << " is no formula in" << show(e));
		check_formula(s->getFormula(), f, e, seed, what);
	}
	void check_direct(const MV& v, const Ent& x, const Ref& e) const {
		switch (x.kind) {
		case NUM: case ALG: check_value(v, x.n, e, "value"); break;
		case POLY: {
			auto s = v.isSubstitution() ? dynamic_cast<const PolySub*>(v.asSubstitution().get()) : nullptr;
			SIM_CHECK(s != nullptr && pm_read(pv, s->getPoly(), "entry") == x.p, "wrong-entry", "polynomial entry in" << show(e));
			break;
		}
		case ROOT: SIM_CHECK(v.isSubstitution() && dynamic_cast<const RootSub*>(v.asSubstitution().get()), "wrong-entry", "root entry in" << show(e)); break;
		case BOOL: SIM_CHECK(v.isBool() && v.asBool() == x.b, "wrong-entry", "Boolean entry in" << show(e)); break;
		case FORM: {
			auto s = v.isSubstitution() ? dynamic_cast<const FormSub*>(v.asSubstitution().get()) : nullptr;
			SIM_CHECK(s != nullptr && s->getFormula() == *x.f, "wrong-entry", "formula entry in" << show(e));
			break;
		}
		case BV: {
			SIM_CHECK(v.isBVValue() && v.asBVValue().width() == 4, "wrong-entry", "bit-vector entry in" << show(e));
			int y = 0;
			for (std::size_t i = 0; i < 4; ++i) if (v.asBVValue()[i]) y |= 1 << i;
			SIM_CHECK(y == x.i, "wrong-entry", "bit-vector entry is " << y << " in" << show(e));
			break;
		}
		case SORT: SIM_CHECK(v.isSortValue() && v.asSortValue() == svals[(std::size_t)x.i], "wrong-entry", "entry of a sort in" << show(e)); break;
		default: {
			SIM_CHECK(v.isUFModel() && v.asUFModel().values().size() == x.fun.size(), "wrong-entry", "function entry in" << show(e));
			for (auto& p : x.fun) {
				bool ok = false;
				for (auto& y : v.asUFModel().values()) ok |= y.first.size() == 1 && y.first[0] == svals[(std::size_t)p.first] && y.second == svals[(std::size_t)p.second];
				SIM_CHECK(ok, "wrong-entry", "function entry lacks " << p.first << " -> " << p.second);
			}
		}
		}
	}
	/// All entries of a model, as they were assigned.
	void check_entries(const Slot& s) const {
		SIM_CHECK(s.m.size() == s.e.size() && s.m.empty() == s.e.empty(), "wrong-entry", s.m.size() << " entries instead of" << show(s.e));
		std::size_t n = 0;
		for (auto it = s.m.begin(); it != s.m.end(); ++it) {
			int key = index_of(keys, it->first);
			auto x = s.e.find(key);
			SIM_CHECK(x != s.e.end(), "wrong-entry", "entry of k" << key << " is not in" << show(s.e));
			check_direct(it->second, x->second, s.e);
			++n;
		}
		SIM_CHECK(n == s.e.size(), "wrong-entry", n << " entries visited instead of" << show(s.e));
	}

	// ---- random formulas
	carl::BVTerm bvterm(Rng& r, int depth = 0) {
		int k = (int)r.below(depth > 1 ? 2 : 5);
		if (k == 0) return carl::BVTerm(carl::BVTermType::CONSTANT, carl::BVValue(4, r.below(16)));
		if (k == 1 || depth > 1) return carl::BVTerm(carl::BVTermType::VARIABLE, bvars[r.below(NV)]);
		if (k == 2) { carl::BVTerm a = bvterm(r, depth + 1), b = bvterm(r, depth + 1); return carl::BVTerm(carl::BVTermType::ADD, a, b); }
		if (k == 3) { carl::BVTerm a = bvterm(r, depth + 1), b = bvterm(r, depth + 1); return carl::BVTerm(carl::BVTermType::AND, a, b); }
		carl::BVTerm a = bvterm(r, depth + 1);
		if (r.chance(0.5)) return carl::BVTerm(carl::BVTermType::NOT, a);
		return carl::BVTerm(carl::BVTermType::LROTATE, a, r.below(6));
	}
	carl::BVConstraint bvcon(Rng& r) {
		static const carl::BVCompareRelation rel[] = {carl::BVCompareRelation::EQ, carl::BVCompareRelation::NEQ, carl::BVCompareRelation::ULT, carl::BVCompareRelation::ULE, carl::BVCompareRelation::UGT, carl::BVCompareRelation::UGE, carl::BVCompareRelation::SLT, carl::BVCompareRelation::SLE, carl::BVCompareRelation::SGT, carl::BVCompareRelation::SGE};
		carl::BVTerm a = bvterm(r), b = bvterm(r);
		return carl::BVConstraint::create(rel[r.below(10)], a, b);
	}
	const carl::UTerm& uterm(Rng& r) { return uterms[r.below(uterms.size())]; }
	F atom(Rng& r, int nb) {
		int k = (int)r.below(16);
		if (k <= 3 && nb > 0) { F f(bools[r.below((std::uint64_t)nb)]); return r.chance(0.3) ? f.negated() : f; }
		if (k <= 9) {
			PM p;
			{ Quiet q; p = poly(r, NA); }
			return F(build(p), ALL[r.below(6)]);
		}
		if (k <= 12) {
			int v = (int)r.below(NA);
			Variable x = pv.vars[ar[v]];
			int w = (int)r.below(4);
			N n{small(r), 0};
			if (algebraic && single && r.chance(0.5)) n = alg(r);
			if (w == 0) return F(carl::VariableAssignment<Poly>(x, ran(n), r.chance(0.3)));
			if (w == 1) return F(carl::VariableComparison<Poly>(x, ran(n), ALL[r.below(6)]));
			PM p;
			unsigned k = 1;
			{ Quiet q; root(r, NA, v, false, p, k); }
			carl::VariableComparison<Poly> c(x, MR(build(p), k), ALL[r.below(6)]);
			// the root of a single polynomial becomes a number that the pool shares
			if (!single && std::holds_alternative<RAN>(c.value()) && !std::get<RAN>(c.value()).is_numeric()) return F(FormulaType::TRUE);
			return F(r.chance(0.3) ? c.negation() : c);
		}
		if (k == 13) return F(bvcon(r));
		carl::UTerm a = uterm(r), b = uterm(r);
		return F(a, b, r.chance(0.4));
	}
	F formula(Rng& r, int nb, int depth = 0) {
		if (depth > 2 || r.chance(0.4)) return atom(r, nb);
		static const FormulaType types[] = {FormulaType::AND, FormulaType::OR, FormulaType::XOR, FormulaType::IFF, FormulaType::IMPLIES, FormulaType::ITE, FormulaType::NOT};
		FormulaType type = types[r.below(7)];
		std::size_t n = type == FormulaType::NOT ? 1 : type == FormulaType::ITE ? 3 : type == FormulaType::IMPLIES ? 2 : (std::size_t)r.range(2, 3);
		std::vector<F> o;
		for (std::size_t i = 0; i < n; ++i) o.push_back(formula(r, nb, depth + 1));
		if (type == FormulaType::NOT) return o[0].negated();
		return F(type, std::move(o));
	}

	// ---- random entries
	/// The value to assign and what it stands for. `own` models of a single task may hold algebraic numbers.
	MV value(Rng& r, int key, bool own, std::deque<F>& arena, Ent& x) {
		if (key < NA) {
			int k = (int)r.below(8);
			if (k <= 2) {
				x.kind = NUM;
				x.n = N{small(r), 0};
				if (own && r.chance(0.15)) return MV(RAN(x.n.a));
				return MV(x.n.a);
			}
			if (k == 3 && algebraic && own && key < 2) {
				x.kind = ALG;
				x.n = alg(r);
				return MV(ran(x.n));
			}
			if (k <= 5) {
				{ Quiet q; x.kind = POLY; x.p = poly(r, key); }
				return carl::createSubstitution<Q, Poly, PolySub>(build(x.p));
			}
			if (k == 6) {
				{ Quiet q; x.kind = ROOT; root(r, key, -1, true, x.p, x.k); }
				// the value of the root is irrational; shared models do not hold such numbers
				if (!own && algebraic) { Quiet q; x.p = pm_var(zi) - pm_const(small(r)); x.k = 1; }
				MR m(build(x.p), x.k);
				if (r.chance(0.5)) return carl::createSubstitution<Q, Poly>(m);
				return carl::createSubstitution<Q, Poly, RootSub>(m);
			}
			x.kind = NUM;
			x.n = N{Q((int)r.range(-2, 2)), 0};
			return MV(x.n.a);
		}
		if (key < KV) {
			if (r.chance(0.5)) { x.kind = BOOL; x.b = r.chance(0.5); return MV(x.b); }
			F f = formula(r, key - KB);
			arena.push_back(f);
			x.kind = FORM;
			x.f = &arena.back();
			return carl::createSubstitution<Q, Poly, FormSub>(f);
		}
		if (key < KU) {
			x.kind = BV;
			x.i = (int)r.below(16);
			return MV(carl::BVValue(4, (std::size_t)x.i));
		}
		if (key < KF) {
			x.kind = SORT;
			x.i = (int)r.below(NS);
			return MV(svals[(std::size_t)x.i]);
		}
		x.kind = UF;
		carl::UFModel u(fun[0]);
		for (int i = 0, n = (int)r.below(4); i < n; ++i) {
			int a = (int)r.below(NS), b = (int)r.below(NS);
			if (x.fun.count(a)) continue;
			bool fresh = u.extend({svals[(std::size_t)a]}, svals[(std::size_t)b]);
			Quiet q;
			SIM_CHECK(fresh, "wrong-result", "extension of a function");
			x.fun[a] = b;
		}
		return MV(u);
	}

	void op(int t, int, Rng& r) override {
		if (!slots[t].size()) return;
		if (!single && r.chance(0.25)) {
			std::lock_guard<std::mutex> l(shared_mutex);
			step(t, shared[0], shared[0], false, shared_forms, r);
			return;
		}
		step(t, slots[t][r.below(nslots)], slots[t][r.below(nslots)], true, forms[t], r);
	}
	void step(int t, Slot& s, Slot& o, bool own, std::deque<F>& arena, Rng& r) {
		int k = (int)r.below(40), key = (int)r.below(KEYS);
		std::uint64_t seed = r.next();
		bool mutating = false, partial = false;
		try {
			Faulty ff;
			if (k <= 8) {
				// assign
				Ent x;
				MV v = value(r, key, own, arena, x);
				{ Quiet q; SIM_LOG("assign k" << key); }
				mutating = true;
				if (x.kind == NUM && v.isRational() && r.chance(0.5)) s.m.assign(keys[(std::size_t)key], v.asRational());
				else s.m.assign(keys[(std::size_t)key], v);
				Quiet q;
				s.e[key] = x;
			} else if (k <= 12) {
				Ent x;
				MV v = value(r, key, own, arena, x);
				bool absent, fresh;
				{ Quiet q; absent = !s.e.count(key); SIM_LOG("insert k" << key << (absent ? "" : ", present")); }
				mutating = true;
				const carl::ModelVariable& mk = keys[(std::size_t)key];
				switch (r.below(4)) {
				case 0: fresh = s.m.emplace(mk, v).second; break;
				case 1: fresh = s.m.insert(std::make_pair(mk, v)).second; break;
				case 2: { std::size_t n = s.m.size(); s.m.emplace_hint(s.m.end(), mk, v); fresh = s.m.size() > n; break; }
				default: { std::size_t n = s.m.size(); s.m.insert(s.m.begin(), std::make_pair(mk, v)); fresh = s.m.size() > n; break; }
				}
				Quiet q;
				SIM_CHECK(fresh == absent, "wrong-result", "insertion of k" << key << " into" << show(s.e));
				if (fresh) s.e[key] = x;
			} else if (k == 13 || k == 14) {
				// the present value of a variable for another one
				int from = (int)r.below(NA);
				key = (int)r.below(NA);
				{ Quiet q; if (!known(from, s.e)) return; SIM_LOG("value of k" << from << " for k" << key); }
				mutating = true;
				bool as = r.chance(0.5);
				if (as) s.m.assign(keys[(std::size_t)key], s.m.evaluated(keys[(std::size_t)from]));
				else s.m.emplace(keys[(std::size_t)key], s.m.evaluated(keys[(std::size_t)from]));
				Quiet q;
				if (as || !s.e.count(key)) {
					World w = complete(s.e, seed);
					Ent x;
					x.n = w.a[ar[from]];
					x.kind = x.n.b == 0 ? NUM : ALG;
					s.e[key] = x;
				}
			} else if (k <= 17) {
				// remove
				if (key == KF) return;
				{ Quiet q; SIM_LOG("erase k" << key); }
				mutating = true;
				int w = (int)r.below(3);
				if (w == 0) s.m.erase(keys[(std::size_t)key]);
				else if (w == 1) s.m.erase(s.m.find(keys[(std::size_t)key]));
				else { const M& c = s.m; s.m.erase(c.find(keys[(std::size_t)key])); }
				Quiet q;
				s.e.erase(key);
			} else if (k == 18) {
				if (r.chance(0.7)) return;
				{ Quiet q; SIM_LOG("clear"); }
				partial = true;
				init(s);
			} else if (k == 19) {
				// merge
				{ Quiet q; SIM_LOG("update"); }
				mutating = partial = true;
				if (r.chance(0.5)) s.m.update(o.m, false);
				else {
					M d;
					Ref e;
					for (int i = 0; i < KF; ++i) {
						bool take;
						{ Quiet q; take = o.e.count(i) && !s.e.count(i); if (take) e[i] = o.e[i]; }
						if (take) d.emplace(keys[(std::size_t)i], o.m.at(keys[(std::size_t)i]));
					}
					s.m.update(d);
					Quiet q;
					for (auto& x : e) s.e[x.first] = x.second;
					return;
				}
				Quiet q;
				if (&s != &o) for (auto& x : o.e) s.e[x.first] = x.second;
			} else if (k == 20) {
				{ Quiet q; SIM_LOG("copy"); }
				mutating = partial = true;
				if (r.chance(0.5)) s.m = o.m;
				else {
					M c(o.m);
					s.m = std::move(c);
				}
				Quiet q;
				if (&s != &o) s.e = o.e;
			} else if (k == 21) {
				{ Quiet q; SIM_LOG("clean"); }
				partial = true;
				s.m.clean();
				cleaned(s, arena, seed);
			} else if (k == 22) {
				// a model from numbers
				std::map<Variable, Q> as;
				Ref e;
				{ Quiet q; SIM_LOG("from numbers"); }
				for (int i = 0; i < NA; ++i) if (r.chance(0.6)) {
					Q v = small(r);
					as.emplace(pv.vars[ar[i]], v);
					Quiet q;
					e[i].n = N{v, 0};
				}
				partial = true;
				s.m = M(as);
				s.m.emplace(fun[0], MV(carl::UFModel(fun[0])));
				Quiet q;
				e[KF].kind = UF;
				s.e.swap(e);
			} else if (k == 23) {
				// scale and move an expression
				MV v;
				Ent x;
				{
					Quiet q;
					key = (int)r.below(NA);
					auto it = s.e.find(key);
					if (it == s.e.end() || it->second.kind != POLY) return;
					x = it->second;
				}
				v = s.m.at(keys[(std::size_t)key]);
				if (r.chance(0.5)) v.asSubstitution()->evaluate(s.m);
				Q c = small(r);
				bool mul = r.chance(0.5);
				{ Quiet q; SIM_LOG((mul ? "multiply k" : "add to k") << key << " " << c); }
				if (mul) v.asSubstitution()->multiplyBy(c);
				else v.asSubstitution()->add(c);
				MV n = v.asSubstitution()->evaluate(s.m);
				{
					Quiet q;
					if (mul) x.p = pm_scale(x.p, c);
					else x.p = x.p + pm_const(c);
					check_number(n, x.p, s.e, seed, "changed expression");
				}
				mutating = true;
				s.m.assign(keys[(std::size_t)key], v);
				Quiet q;
				s.e[key] = x;
			} else if (k <= 25) {
				lookup(s, key, seed);
			} else if (k <= 28) {
				PM p;
				{ Quiet q; p = poly(r, NA); SIM_LOG("evaluate " << pm_show(p)); }
				Poly b = build(p);
				if (r.chance(0.7)) {
					MV v = carl::model::evaluate(b, s.m);
					Quiet q;
					check_number(v, p, s.e, seed, "value");
				} else {
					Poly g = carl::model::substitute(b, s.m);
					Quiet q;
					PM x = pm_read(pv, g, "substituted polynomial");
					for (int i = 0; i < WORLDS; ++i) {
						World w = complete(s.e, mix(seed, (std::uint64_t)i));
						SIM_CHECK(eval(x, w.a) == eval(p, w.a), "wrong-value", pm_show(p) << " became " << pm_show(x) << " in" << show(s.e));
					}
				}
			} else if (k == 29) {
				PM p;
				unsigned n = 1;
				{ Quiet q; root(r, NA, -1, r.chance(0.6), p, n); SIM_LOG("root " << n << " of " << pm_show(p)); }
				MR m(build(p), n);
				MV v = carl::model::evaluate(m, s.m);
				if (v.isSubstitution()) {
					{ Quiet q; SIM_CHECK(!known(p, s.e), "not-evaluated", "root " << n << " of " << pm_show(p) << " in" << show(s.e)); }
					// with values for the rest it has one
					World w;
					Ref e;
					{ Quiet q; w = complete(s.e, seed); e = s.e; }
					M c(s.m);
					for (int i = 0; i < NA; ++i) if (!known(i, e)) {
						N x = w.a[ar[i]];
						c.assign(keys[(std::size_t)i], x.a);
						Quiet q;
						Ent y;
						y.n = x;
						e[i] = y;
					}
					MV y = v.asSubstitution()->evaluate(c);
					Quiet q;
					check_root(y, p, n, e, w);
				} else {
					Quiet q;
					for (int i = 0; i < WORLDS; ++i) check_root(v, p, n, s.e, complete(s.e, mix(seed, (std::uint64_t)i)));
				}
			} else if (k <= 36) {
				if (arena.empty() || r.chance(0.4)) { F f = formula(r, NB); arena.push_back(f); }
				const F& f = r.chance(0.5) ? arena.back() : arena[r.below(arena.size())];
				{ Quiet q; SIM_LOG("evaluate " << show(f) << " in" << show(s.e)); }
				truth(s, f, r, seed);
			} else if (k == 37) {
				carl::BVTerm b = bvterm(r);
				{ Quiet q; if (!known(b, s.e)) return; }
				MV v = carl::model::evaluate(b, s.m);
				Quiet q;
				World w = complete(s.e, seed);
				Ent x;
				x.kind = BV;
				x.i = bv_at(b, w);
				check_direct(v, x, s.e);
			} else if (k == 38) {
				defaults(s, arena, r);
			} else represent(s, r, seed);
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "unexpected-exception", "bad_alloc without an allocation failure");
			{ Quiet q; reach("allocation failure"); }
			// a merge, copy or clean-up that failed may have been done in part
			if (partial) init(s);
		}
		(void)mutating;
		Quiet q;
		check_entries(s);
		check_entries(o);
		std::uint64_t h = 0;
		for (auto& x : s.e) h = mix(h, mix((std::uint64_t)x.first * 16 + x.second.kind, x.second.kind == POLY || x.second.kind == ROOT ? pm_hash(x.second.p) : (std::uint64_t)x.second.i));
		state(h);
		observe(h);
		(void)t;
	}
	void check_root(const MV& v, const PM& p, unsigned n, const Ref& e, const World& w) const {
		N x;
		if (root_at(p, n, w.a, x)) check_value(v, x, e, "root");
		else SIM_CHECK(v.isBool() && !v.asBool(), "wrong-value", "root " << n << " of " << pm_show(p) << " exists in" << show(e));
	}
	/// Entries after all expressions have been evaluated as far as possible.
	void cleaned(Slot& s, std::deque<F>& arena, std::uint64_t seed) {
		Ref e;
		{ Quiet q; e = s.e; }
		for (int key = 0; key < KV; ++key) {
			auto it = e.find(key);
			if (it == e.end()) continue;
			Kind kind = it->second.kind;
			if (kind != POLY && kind != ROOT && kind != FORM) continue;
			const MV& v = s.m.at(keys[(std::size_t)key]);
			if (kind == FORM && v.isSubstitution()) {
				auto f = dynamic_cast<const FormSub*>(v.asSubstitution().get());
				SIM_CHECK(f != nullptr, "wrong-value", "cleaned entry is no formula");
				arena.push_back(f->getFormula());
				Quiet q;
				check_formula(arena.back(), *it->second.f, e, seed, "cleaned entry");
				s.e[key].f = &arena.back();
				continue;
			}
			Quiet q;
			if (kind == FORM) {
				check_truth(v, *it->second.f, e, seed, "cleaned entry");
				Ent x;
				x.kind = BOOL;
				x.b = v.asBool();
				s.e[key] = x;
			} else if (kind == POLY) {
				check_number(v, it->second.p, e, seed, "cleaned entry");
				Ent x;
				if (v.isSubstitution()) {
					x.kind = POLY;
					x.p = pm_read(pv, dynamic_cast<const PolySub*>(v.asSubstitution().get())->getPoly(), "cleaned entry");
					// an expression of the variable itself would not end
					for (auto& m : x.p) for (int i = key; i < NA; ++i) SIM_CHECK(m.first[ar[i]] == 0, "wrong-value", "cleaned entry of k" << key << " is " << pm_show(x.p));
				} else {
					x.n = complete(e, seed).a[ar[key]];
					x.kind = x.n.b == 0 ? NUM : ALG;
				}
				s.e[key] = x;
			} else {
				if (v.isSubstitution()) {
					SIM_CHECK(!known(it->second.p, e), "not-evaluated", "cleaned entry of k" << key << " in" << show(e));
					std::map<std::size_t, PM> sub;
					World w = complete(e, seed);
					for (int i = 0; i < NA; ++i) if (known(i, e)) sub[ar[i]] = pm_const(w.a[ar[i]].a);
					s.e[key].p = pm_subst(it->second.p, sub);
				} else {
					Ent x;
					x.n = complete(e, seed).a[ar[key]];
					x.kind = x.n.b == 0 ? NUM : ALG;
					check_value(v, x.n, e, "cleaned entry");
					s.e[key] = x;
				}
			}
		}
	}
	void lookup(Slot& s, int key, std::uint64_t seed) {
		const carl::ModelVariable& mk = keys[(std::size_t)key];
		bool there = s.m.find(mk) != s.m.end();
		{ Quiet q; SIM_LOG("look up k" << key); SIM_CHECK(there == (s.e.count(key) > 0), "wrong-result", "k" << key << " is " << (there ? "" : "not ") << "in" << show(s.e)); }
		std::vector<carl::ModelVariable> some;
		bool all = true;
		for (std::size_t i = 0; i < keys.size(); ++i) if (seed >> i & 1) { some.push_back(keys[i]); Quiet q; all &= s.e.count((int)i) > 0; }
		bool cont = s.m.contains(some);
		SIM_CHECK(cont == all, "wrong-result", "presence of several variables in the model");
		if (!there) return;
		MV v = s.m.evaluated(mk);
		MV c = v;
		if (!v.isSubstitution()) SIM_CHECK(v == c, "wrong-result", "a value differs from its copy");
		Quiet q;
		const Ent& x = s.e.at(key);
		switch (x.kind) {
		case POLY: case FORM: case ROOT:
			if (x.kind == POLY) check_number(v, x.p, s.e, seed, "evaluated entry");
			else if (x.kind == FORM) check_truth(v, *x.f, s.e, seed, "evaluated entry");
			else if (v.isSubstitution()) SIM_CHECK(!known(key, s.e), "not-evaluated", "k" << key << " in" << show(s.e));
			else check_value(v, complete(s.e, seed).a[ar[key]], s.e, "evaluated entry");
			break;
		default: check_direct(v, x, s.e);
		}
	}
	void truth(Slot& s, const F& f, Rng& r, std::uint64_t seed) {
		switch (f.getType() == FormulaType::UEQ && r.chance(0.5) ? 2 : r.below(5)) {
		case 0: {
			F g = carl::model::substitute(f, s.m);
			Quiet q;
			check_formula(g, f, s.e, seed, "substitution");
			break;
		}
		case 1: {
			unsigned n = carl::model::satisfiedBy(f, s.m);
			Quiet q;
			verdict(n, f, s.e, seed, "satisfied-by");
			SIM_CHECK(n != 2 || !known(f, s.e), "not-evaluated", show(f) << " in" << show(s.e));
			break;
		}
		case 2: {
			{ Quiet q; if (has(f, FormulaType::VARCOMPARE) || has(f, FormulaType::VARASSIGN)) return; }
			unsigned n = carl::satisfies(s.m, f);
			Quiet q;
			verdict(n, f, s.e, seed, "satisfies");
			if (n == 2 && !has(f, FormulaType::UEQ) && known(f, s.e)) {
				bool direct = true;
				for (auto& x : s.e) direct &= x.second.kind != POLY && x.second.kind != ROOT && x.second.kind != FORM && x.second.kind != ALG;
				SIM_CHECK(!direct, "not-evaluated", show(f) << " is open in" << show(s.e));
			}
			if (f.getType() == FormulaType::UEQ && f.uequality().lhs().isUVariable() && f.uequality().rhs().isUVariable()) SIM_CHECK(n != 2 || !known(f, s.e), "not-evaluated", show(f) << " is open in" << show(s.e));
			break;
		}
		case 3: {
			if (f.getType() == FormulaType::CONSTRAINT) {
				MV v = carl::model::evaluate(f.constraint(), s.m);
				Quiet q;
				check_truth(v, f, s.e, seed, "constraint");
				break;
			}
			if (f.getType() == FormulaType::BITVECTOR || f.getType() == FormulaType::UEQ) {
				{ Quiet q; if (!known(f, s.e)) return; }
				MV v = f.getType() == FormulaType::UEQ ? carl::model::evaluate(f.uequality(), s.m) : carl::model::evaluate(f.bvConstraint(), s.m);
				Quiet q;
				check_truth(v, f, s.e, seed, "atom");
				break;
			}
		}
		// fall through
		default: {
			MV v = carl::model::evaluate(f, s.m);
			Quiet q;
			check_truth(v, f, s.e, seed, "value");
		}
		}
	}
	void verdict(unsigned n, const F& f, const Ref& e, std::uint64_t seed, const char* what) const {
		SIM_CHECK(n <= 2, "wrong-result", what << " is " << n);
		if (n == 2) return;
		for (int k = 0; k < WORLDS; ++k) {
			World w = complete(e, mix(seed, (std::uint64_t)k));
			SIM_CHECK(eval(f, w) == (n == 1), "wrong-value", what << " of " << show(f) << " is " << n << " in" << show(e));
		}
	}
	/// Gives values to the variables of a formula that have none.
	void defaults(Slot& s, std::deque<F>& arena, Rng& r) {
		if (arena.empty()) return;
		const F& f = arena[r.below(arena.size())];
		{ Quiet q; if (has(f, FormulaType::UEQ) || has(f, FormulaType::VARCOMPARE) || has(f, FormulaType::VARASSIGN)) return; SIM_LOG("default values for " << show(f)); }
		M c(s.m);
		carl::getDefaultModel(c, f);
		Quiet q;
		Ref e = s.e;
		for (auto it = c.begin(); it != c.end(); ++it) {
			int key = index_of(keys, it->first);
			auto x = e.find(key);
			if (x != e.end()) { check_direct(it->second, x->second, e); continue; }
			Ent y;
			if (key < NA) {
				SIM_CHECK(it->second.isRational(), "wrong-value", "default of an arithmetic variable is no number");
				y.n.a = it->second.asRational();
			} else if (key < KV) {
				SIM_CHECK(it->second.isBool(), "wrong-value", "default of a Boolean variable is no truth value");
				y.kind = BOOL;
				y.b = it->second.asBool();
			} else {
				SIM_CHECK(key < KU && it->second.isBVValue() && it->second.asBVValue().width() == 4, "wrong-value", "default of a bit-vector variable");
				y.kind = BV;
			}
			e[key] = y;
		}
		for (auto& x : s.e) SIM_CHECK(c.find(keys[(std::size_t)x.first]) != c.end(), "wrong-entry", "an entry is lost");
		bool vars = true;
		Ref all = e;
		// variables that only occur in expressions of the model need no value
		for (int i = 0; i < KF; ++i) if (!s.e.count(i)) all[i] = e.count(i) ? e[i] : Ent();
		(void)vars;
		std::set<int> used;
		collect(f, used);
		for (int i : used) SIM_CHECK(e.count(i), "not-evaluated", "no default value for k" << i << " of " << show(f));
	}
	void collect(const F& f, std::set<int>& u) const {
		switch (f.getType()) {
		case FormulaType::BOOL: u.insert(KB + index_of(bools, f.boolean())); break;
		case FormulaType::CONSTRAINT: for (auto& t : pm_read(pv, f.constraint().lhs(), "constraint")) for (int i = 0; i < NA; ++i) if (t.first[ar[i]]) u.insert(i); break;
		case FormulaType::BITVECTOR: collect(f.bvConstraint().lhs(), u); collect(f.bvConstraint().rhs(), u); break;
		case FormulaType::NOT: collect(f.subformula(), u); break;
		case FormulaType::TRUE: case FormulaType::FALSE: break;
		default: for (auto& s : f.subformulas()) collect(s, u);
		}
	}
	void collect(const carl::BVTerm& t, std::set<int>& u) const {
		switch (t.type()) {
		case carl::BVTermType::VARIABLE: u.insert(KV + index_of(bvars, t.variable())); break;
		case carl::BVTermType::CONSTANT: break;
		case carl::BVTermType::ADD: case carl::BVTermType::AND: collect(t.first(), u); collect(t.second(), u); break;
		default: collect(t.operand(), u);
		}
	}
	/// A formula that says what an entry says.
	void represent(Slot& s, Rng& r, std::uint64_t seed) {
		int key = (int)r.below(KV);
		Ent x;
		{
			Quiet q;
			auto it = s.e.find(key);
			if (it == s.e.end()) return;
			x = it->second;
			if (!single && x.kind == ALG) return;
			SIM_LOG("formula for k" << key);
		}
		if (x.kind == ROOT && !single && algebraic) return;
		F f = carl::representingFormula(keys[(std::size_t)key], s.m);
		Quiet q;
		Ref none;
		none[KF].kind = UF;
		for (int k = 0; k < WORLDS; ++k) {
			World w = complete(none, mix(seed, (std::uint64_t)k));
			bool e;
			if (key < NA) {
				N v;
				if (x.kind == NUM || x.kind == ALG) v = x.n;
				else if (x.kind == POLY) v = eval(x.p, w.a);
				else SIM_CHECK(root_at(x.p, x.k, w.a, v), "wrong-result", "root of an entry does not exist");
				if (k % 2) w.a[ar[key]] = v;
				e = w.a[ar[key]] == v;
			} else e = w.b[key - KB] == (x.kind == BOOL ? x.b : eval(*x.f, w));
			SIM_CHECK(eval(f, w) == e, "wrong-value", "formula " << show(f) << " for k" << key << " of" << show(s.e));
		}
	}
	void task_end(int t) override {
		Quiet q;
		for (auto& s : slots[t]) check_entries(s);
	}
	void finish() override {
		{ Quiet q; check_entries(shared[0]); }
		for (int t = 1; t < MAXT; ++t) { slots[t].clear(); forms[t].clear(); }
		shared.clear();
		shared_forms.clear();
	}
};
} // namespace

namespace sim { Harness* make_harness() { return new H; } }

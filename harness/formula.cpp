// Formulas: meaning of the constructors and transformations, sharing of equal formulas, lifetime on several threads.
// build-flags: -DNDEBUG -include @VERIF@/harness/cocoa_stub.h
#include "poly_model.h"
#include <carl/formula/Formula.h>
#include <carl/formula/FormulaPool.h>
#include <carl/formula/SortManager.h>
#include <carl/formula/helpers/to_cnf.h>

using namespace sim;
using carl::FormulaType;
using carl::Relation;
using carl::Variable;
using F = carl::Formula<Poly>;
using Fs = carl::Formulas<Poly>;
using Pool = carl::FormulaPool<Poly>;

namespace sim { const char* const harness_name = "formula"; }

namespace {
constexpr unsigned K = 32; // sampled worlds; a truth value is a set of worlds
using Mask = std::uint32_t;

bool holds(const Q& v, Relation r) {
	switch (r) {
	case Relation::EQ: return v == 0;
	case Relation::NEQ: return v != 0;
	case Relation::LESS: return v < 0;
	case Relation::LEQ: return v <= 0;
	case Relation::GREATER: return v > 0;
	default: return v >= 0;
	}
}
const Relation ALL[] = {Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};

struct Val {
	F f{FormulaType::FALSE};
	Mask m = 0;
	unsigned size = 1;
	bool quant = false;
	int type = -1; // how it was built, from ops
	std::vector<F> ops;
};
struct World {
	std::vector<Q> point;
	std::vector<int> uval, bval;
};
/// What a variable stands for while evaluating
struct Env {
	const std::map<Variable, Mask>* bools = nullptr;
	int arith = -1; // this variable is replaced ...
	const PM* by = nullptr; // ... by this polynomial
};

struct H : Harness {
	std::size_t nslots = 4;
	PolyVars pv;
	std::vector<Variable> bools;
	std::map<Variable, Mask> boolmask;
	std::vector<World> worlds;
	std::vector<carl::UVariable> uvars;
	std::vector<carl::BVVariable> bvars;
	std::vector<std::pair<PM, Relation>> cons;
	std::vector<Val> slots[MAXT];
	std::vector<Val> shared;
	std::mutex shared_mutex;

	void configure(Rng& r, Config& c, bool faults) override {
		nslots = r.range(2, 5);
		c.ntasks = r.chance(0.35) ? 1 : (int)r.range(2, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(3, c.ntasks == 1 ? 50 : 14);
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.002, 0.02});
			c.rate[F_STALL] = 0.01;
		}
	}
	void setup(Rng& r) override {
		Pool::getInstance();
		for (int i = 0; i < 3; ++i) {
			Variable v = i < 2 ? carl::freshRealVariable() : carl::freshIntegerVariable();
			Quiet q;
			pv.vars.push_back(v);
		}
		{ Quiet q; std::sort(pv.vars.begin(), pv.vars.end()); }
		for (int i = 0; i < 4; ++i) {
			Variable v = carl::freshBooleanVariable();
			Quiet q;
			bools.push_back(v);
			boolmask[v] = (Mask)r.next();
		}
		auto& sm = carl::SortManager::getInstance();
		carl::Sort us = sm.addSort("U");
		carl::Sort bv = sm.addSort("BitVec");
		sm.makeSortIndexable(bv, 1, carl::VariableType::VT_BITVECTOR);
		carl::Sort bs = sm.index(bv, {4});
		for (int i = 0; i < 3; ++i) {
			carl::UVariable u(carl::freshUninterpretedVariable(), us);
			carl::BVVariable b(carl::freshBitvectorVariable(), bs);
			Quiet q;
			uvars.push_back(u);
			bvars.push_back(b);
		}
		{
			Quiet q;
			worlds.resize(K);
			for (auto& w : worlds) {
				for (int i = 0; i < 3; ++i) {
					Q v(r.range(-3, 3), pv.vars[(std::size_t)i].type() == carl::VariableType::VT_REAL ? r.range(1, 2) : 1);
					v.canonicalize();
					w.point.push_back(v);
					w.uval.push_back((int)r.below(2));
					w.bval.push_back((int)r.below(16));
				}
				w.point.resize(PM_VARS);
			}
			for (int i = 0; i < 5; ++i) cons.emplace_back(pm_random(r, 3, 2, 3), ALL[r.below(6)]);
			for (auto& s : slots) s.reserve(nslots);
			shared.reserve(2);
		}
		for (int t = 1; t < MAXT; ++t) for (std::size_t i = 0; i < nslots; ++i) slots[t].emplace_back();
		for (int i = 0; i < 2; ++i) shared.emplace_back();
		// first use of function-local objects
		Poly p(pv.vars[0]);
		F a(p, Relation::LESS), b(bools[0]), c(FormulaType::AND, a, b);
		F d(c.negated());
		SIM_CHECK(d.negated() == c, "wrong-result", "double negation");
		carl::BVConstraint bc = carl::BVConstraint::create(carl::BVCompareRelation::EQ, carl::BVTerm(carl::BVTermType::VARIABLE, bvars[0]), carl::BVTerm(carl::BVTermType::VARIABLE, bvars[1]));
		F e(bc);
		F g(carl::UTerm(uvars[0]), carl::UTerm(uvars[1]), false);
	}
	Poly build(const PM& x) {
		std::vector<PTerm> v;
		for (auto& t : x) {
			std::vector<std::pair<Variable, carl::exponent>> c;
			for (std::size_t i = 0; i < 3; ++i) if (t.first[i]) c.emplace_back(pv.vars[i], t.first[i]);
			carl::Monomial::Arg m = c.empty() ? nullptr : carl::createMonomial(std::move(c));
			v.emplace_back(t.second, m);
		}
		return Poly(std::move(v));
	}
	Mask con_mask(const PM& x, Relation rel, const Env& env = {}) const {
		Mask m = 0;
		for (unsigned k = 0; k < K; ++k) {
			std::vector<Q> pt = worlds[k].point;
			if (env.arith >= 0) pt[(std::size_t)env.arith] = pm_eval(*env.by, worlds[k].point);
			if (holds(pm_eval(x, pt), rel)) m |= Mask(1) << k;
		}
		return m;
	}
	Mask ueq_mask(std::size_t a, std::size_t b, bool neg) const {
		Mask m = 0;
		for (unsigned k = 0; k < K; ++k) if ((worlds[k].uval[a] == worlds[k].uval[b]) != neg) m |= Mask(1) << k;
		return m;
	}
	static bool bv_holds(carl::BVCompareRelation r, int a, int b) {
		int sa = a >= 8 ? a - 16 : a, sb = b >= 8 ? b - 16 : b;
		switch (r) {
		case carl::BVCompareRelation::EQ: return a == b;
		case carl::BVCompareRelation::NEQ: return a != b;
		case carl::BVCompareRelation::ULT: return a < b;
		case carl::BVCompareRelation::ULE: return a <= b;
		case carl::BVCompareRelation::UGT: return a > b;
		case carl::BVCompareRelation::UGE: return a >= b;
		case carl::BVCompareRelation::SLT: return sa < sb;
		case carl::BVCompareRelation::SLE: return sa <= sb;
		case carl::BVCompareRelation::SGT: return sa > sb;
		default: return sa >= sb;
		}
	}
	Mask bv_mask(carl::BVCompareRelation r, std::size_t a, std::size_t b) const {
		Mask m = 0;
		for (unsigned k = 0; k < K; ++k) if (bv_holds(r, worlds[k].bval[a], worlds[k].bval[b])) m |= Mask(1) << k;
		return m;
	}
	template<typename C, typename T>
	static std::size_t index_of(const C& c, const T& x) {
		for (std::size_t i = 0; i < c.size(); ++i) if (c[i] == x) return i;
		SIM_CHECK(false, "wrong-result", "unknown variable in a formula");
		return 0;
	}
	/// Worlds in which a formula of the library is true, read from its structure. Takes no locks.
	Mask eval(const F& f, const Env& env = {}, int depth = 0) const {
		SIM_CHECK(depth < 200, "wrong-result", "formula is too deep");
		switch (f.getType()) {
		case FormulaType::TRUE: return ~Mask(0);
		case FormulaType::FALSE: return 0;
		case FormulaType::BOOL: {
			Variable v = f.boolean();
			if (env.bools) {
				auto it = env.bools->find(v);
				if (it != env.bools->end()) return it->second;
			}
			auto it = boolmask.find(v);
			SIM_CHECK(it != boolmask.end(), "wrong-result", "unknown Boolean variable in a formula");
			return it->second;
		}
		case FormulaType::CONSTRAINT: return con_mask(pm_read(pv, f.constraint().lhs(), "constraint"), f.constraint().relation(), env);
		case FormulaType::UEQ: {
			const carl::UEquality& e = f.uequality();
			return ueq_mask(index_of(uvars, e.lhs().asUVariable()), index_of(uvars, e.rhs().asUVariable()), e.negated());
		}
		case FormulaType::BITVECTOR: {
			const carl::BVConstraint& c = f.bvConstraint();
			return bv_mask(c.relation(), index_of(bvars, c.lhs().variable()), index_of(bvars, c.rhs().variable()));
		}
		case FormulaType::NOT: return ~eval(f.subformula(), env, depth + 1);
		case FormulaType::IMPLIES: return ~eval(f.premise(), env, depth + 1) | eval(f.conclusion(), env, depth + 1);
		case FormulaType::ITE: {
			Mask c = eval(f.condition(), env, depth + 1);
			return (c & eval(f.firstCase(), env, depth + 1)) | (~c & eval(f.secondCase(), env, depth + 1));
		}
		case FormulaType::AND: case FormulaType::OR: case FormulaType::XOR: case FormulaType::IFF: {
			std::vector<Mask> ms;
			for (auto& s : f.subformulas()) ms.push_back(eval(s, env, depth + 1));
			return combine(f.getType(), ms);
		}
		case FormulaType::EXISTS: case FormulaType::FORALL: {
			std::map<Variable, Mask> m;
			if (env.bools) m = *env.bools;
			return eval_quant(f.getType() == FormulaType::EXISTS, f.quantifiedVariables(), 0, f.quantifiedFormula(), m, env, depth + 1);
		}
		default: SIM_CHECK(false, "wrong-result", "unexpected kind of formula"); return 0;
		}
	}
	Mask eval_quant(bool ex, const std::vector<Variable>& vs, std::size_t i, const F& f, std::map<Variable, Mask>& m, const Env& env, int depth) const {
		if (i == vs.size()) {
			Env e = env;
			e.bools = &m;
			return eval(f, e, depth);
		}
		auto it = m.find(vs[i]);
		bool had = it != m.end();
		Mask old = had ? it->second : 0;
		m[vs[i]] = 0;
		Mask a = eval_quant(ex, vs, i + 1, f, m, env, depth);
		m[vs[i]] = ~Mask(0);
		Mask b = eval_quant(ex, vs, i + 1, f, m, env, depth);
		if (had) m[vs[i]] = old; else m.erase(vs[i]);
		return ex ? (a | b) : (a & b);
	}
	static Mask combine(int type, const std::vector<Mask>& ms) {
		Mask all = ~Mask(0), any = 0, par = 0;
		for (Mask m : ms) { all &= m; any |= m; par ^= m; }
		switch (type) {
		case FormulaType::AND: return all;
		case FormulaType::OR: return any;
		case FormulaType::XOR: return par;
		case FormulaType::IFF: return all | ~any;
		case FormulaType::IMPLIES: {
			Mask prem = ~Mask(0);
			for (std::size_t i = 0; i + 1 < ms.size(); ++i) prem &= ms[i];
			return ~prem | ms.back();
		}
		case FormulaType::ITE: return (ms[0] & ms[1]) | (~ms[0] & ms[2]);
		default: return ~ms[0];
		}
	}
	static void walk(const F& f, std::set<Variable>& vs) {
		switch (f.getType()) {
		case FormulaType::BOOL: vs.insert(f.boolean()); break;
		case FormulaType::CONSTRAINT: for (auto& t : f.constraint().lhs().getTerms()) if (t.monomial()) for (auto& e : t.monomial()->exponents()) vs.insert(e.first); break;
		case FormulaType::UEQ: vs.insert(f.uequality().lhs().asUVariable().variable()); vs.insert(f.uequality().rhs().asUVariable().variable()); break;
		case FormulaType::BITVECTOR: vs.insert(f.bvConstraint().lhs().variable().variable()); vs.insert(f.bvConstraint().rhs().variable().variable()); break;
		case FormulaType::NOT: walk(f.subformula(), vs); break;
		case FormulaType::EXISTS: case FormulaType::FORALL: walk(f.quantifiedFormula(), vs); break;
		case FormulaType::TRUE: case FormulaType::FALSE: break;
		default: for (auto& s : f.subformulas()) walk(s, vs);
		}
	}
	static std::string show(const F& f) { std::ostringstream os; os << f; return os.str(); }
	void check(const Val& v, const char* what) const {
		Mask m = eval(v.f);
		SIM_CHECK(m == v.m, "wrong-meaning", what << " " << show(v.f) << " is true in " << std::hex << m << ", expected " << v.m);
		SIM_CHECK(v.f.getId() != 0, "wrong-result", what << " has no identity");
	}
	/// Builds from operands with any of the constructors that take them.
	F make(Rng& r, int type, std::vector<F> o) {
		FormulaType ty = (FormulaType)type;
		switch (type) {
		case FormulaType::NOT: {
			int w = (int)r.below(4);
			if (w == 0) return F(FormulaType::NOT, o[0]);
			if (w == 1) return F(FormulaType::NOT, std::move(o[0]));
			if (w == 2) return o[0].negated();
			return !o[0];
		}
		case FormulaType::ITE:
			if (r.chance(0.3)) return F(FormulaType::ITE, o[0], o[1], o[2]);
			if (r.chance(0.5)) return F(FormulaType::ITE, {o[0], o[1], o[2]});
			break;
		case FormulaType::IMPLIES:
			if (o.size() == 2 && r.chance(0.5)) return F(FormulaType::IMPLIES, o[0], o[1]);
			break;
		default: {
			if (r.chance(0.3)) for (std::size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r.below(i)]);
			int w = (int)r.below(6);
			if (w == 0 && o.size() == 2) return F(ty, o[0], o[1]);
			if (w == 1 && o.size() == 3) return F(ty, o[0], o[1], o[2]);
			if (w == 2 && o.size() == 2) return F(ty, {o[0], o[1]});
			if (w == 3 && (type == FormulaType::AND || type == FormulaType::OR)) {
				carl::FormulaSet<Poly> s(o.begin(), o.end());
				if (r.chance(0.5)) return F(ty, s);
				return F(ty, std::move(s));
			}
			if (w == 4 && type == FormulaType::XOR) {
				carl::FormulasMulti<Poly> s(o.begin(), o.end());
				return F(ty, s);
			}
		}
		}
		if (r.chance(0.5)) return F(ty, std::move(o));
		return F(ty, o);
	}
	void put(Val& d, Val& n) {
		{ Quiet q; std::swap(d, n); }
	}
	// a bound on the value of one polynomial, scaled and moved
	/// A polynomial without constant part to be bounded; mostly one whose values the constants of bound() meet.
	PM bound_base(Rng& r) {
		PM base;
		if (r.chance(0.7)) {
			Exps e{};
			e[r.below(3)] = 1;
			base[e] = Q(r.chance(0.7) ? 1 : (int)r.range(2, 3));
			if (r.chance(0.2)) {
				Exps e2{};
				e2[r.below(3)] = 1;
				if (e2 != e) base[e2] = Q((int)r.range(1, 2));
			}
		} else base = cons[r.below(cons.size())].first;
		base.erase(Exps());
		return base;
	}
	F bound(Rng& r, const PM& base, Mask& m) {
		PM x;
		Relation rel;
		{
			Quiet q;
			x = base;
			x[Exps()] += Q((int)r.range(-2, 2), r.chance(0.2) ? 2 : 1);
			for (auto it = x.begin(); it != x.end();) it = it->second == 0 ? x.erase(it) : std::next(it);
			rel = ALL[r.below(6)];
			static const int scale[] = {1, 1, 1, -1, -1, 2, -3};
			Q f = scale[r.below(7)];
			for (auto& t : x) { t.second.canonicalize(); t.second *= f; }
			m = con_mask(x, rel);
			SIM_LOG("bound " << pm_show(x) << " " << rel);
		}
		Poly p = build(x);
		return F(p, rel);
	}
	F atom(Rng& r, Mask& m, std::string& what) {
		unsigned k = (unsigned)r.below(12);
		if (k == 0) {
			bool b = r.chance(0.5);
			m = b ? ~Mask(0) : 0;
			return F(b ? FormulaType::TRUE : FormulaType::FALSE);
		}
		if (k <= 5) {
			Variable v = bools[r.below(bools.size())];
			m = boolmask[v];
			return F(v);
		}
		if (k <= 8) {
			PM x;
			Relation rel;
			{
				Quiet q;
				auto& c = cons[r.below(cons.size())];
				x = c.first;
				rel = r.chance(0.7) ? c.second : carl::inverse(c.second);
				if (r.chance(0.1)) { x = pm_random(r, 3, 1, 2); rel = ALL[r.below(6)]; }
				m = con_mask(x, rel);
				SIM_LOG("atom " << pm_show(x) << " " << rel);
			}
			Poly p = build(x);
			if (r.chance(0.5)) return F(p, rel);
			return F(carl::Constraint<Poly>(p, rel));
		}
		if (k <= 9) {
			std::size_t a = r.below(3), b = r.below(3);
			bool n = r.chance(0.5);
			m = ueq_mask(a, b, n);
			if (r.chance(0.5) || a == b) return F(carl::UTerm(uvars[a]), carl::UTerm(uvars[b]), n);
			carl::UEquality e(carl::UTerm(uvars[a]), carl::UTerm(uvars[b]), n);
			if (r.chance(0.5)) return F(e);
			return F(std::move(e));
		}
		std::size_t a = r.below(3), b = r.below(3);
		auto rel = (carl::BVCompareRelation)r.below(10);
		m = bv_mask(rel, a, b);
		return F(carl::BVConstraint::create(rel, carl::BVTerm(carl::BVTermType::VARIABLE, bvars[a]), carl::BVTerm(carl::BVTermType::VARIABLE, bvars[b])));
	}
	void check_cnf(const F& c) {
		auto literal = [](const F& f) { return f.isAtom() || (f.getType() == FormulaType::NOT && f.subformula().isAtom()); };
		auto clause = [&](const F& f) {
			if (literal(f)) return true;
			if (f.getType() != FormulaType::OR) return false;
			for (auto& s : f.subformulas()) if (!literal(s)) return false;
			return true;
		};
		bool ok = clause(c);
		if (c.getType() == FormulaType::AND) {
			ok = true;
			for (auto& s : c.subformulas()) ok = ok && clause(s);
		}
		SIM_CHECK(ok, "wrong-result", show(c) << " is not in conjunctive normal form");
	}
	/// Conversion to conjunctive normal form, compared up to newly introduced variables.
	void convert(Rng& r, const F& f, Mask mask) {
		bool keep = r.chance(0.6), simp = r.chance(0.5), equiv = r.chance(0.6);
		{ Quiet q; SIM_LOG("cnf of " << show(f) << (keep ? " keep" : "") << (simp ? " simplify" : "") << (equiv ? " equivalences" : "")); }
		F c = carl::to_cnf(f, keep, simp, equiv);
		Quiet q;
		check_cnf(c);
		std::set<Variable> known, used;
		walk(f, known);
		walk(c, used);
		std::vector<Variable> fresh;
		for (auto v : used) if (v.type() == carl::VariableType::VT_BOOL && !known.count(v)) fresh.push_back(v);
		if (fresh.size() > 6) return;
		Mask got = 0;
		for (unsigned b = 0; b < (1u << fresh.size()); ++b) {
			std::map<Variable, Mask> m;
			for (std::size_t i = 0; i < fresh.size(); ++i) m[fresh[i]] = (b >> i & 1) ? ~Mask(0) : 0;
			Env env;
			env.bools = &m;
			got |= eval(c, env);
		}
		if (!fresh.empty()) reach("conversion with new variables");
		SIM_CHECK(got == mask, "wrong-meaning", "normal form " << show(c) << " of " << show(f));
	}
	/// Bounds of one polynomial in a conjunction or disjunction (nested up to twice), and their simplification.
	void combine_bounds(Rng& r) {
		PM base[2];
		{ Quiet q; for (auto& b : base) b = bound_base(r); if (base[0].empty() || base[1].empty()) return; }
		auto list = [&](int type, std::size_t cnt, Mask& m) {
			std::vector<F> ops;
			std::vector<Mask> ms;
			for (std::size_t i = 0; i < cnt; ++i) {
				Mask x = 0;
				ops.push_back(bound(r, base[r.chance(0.1) ? 1 : 0], x));
				if (r.chance(0.15)) { ops.back() = ops.back().negated(); x = ~x; }
				ms.push_back(x);
			}
			m = combine(type, ms);
			return F((FormulaType)type, std::move(ops));
		};
		int type = r.chance(0.5) ? FormulaType::AND : FormulaType::OR;
		Mask m = 0;
		if (r.chance(0.6)) {
			F f = list(type, (std::size_t)r.range(2, 5), m);
			convert(r, f, m);
			return;
		}
		std::vector<F> ops;
		std::vector<Mask> ms;
		for (std::size_t i = 0, cnt = (std::size_t)r.range(2, 3); i < cnt; ++i) {
			Mask x = 0;
			ops.push_back(list(type == FormulaType::AND ? FormulaType::OR : FormulaType::AND, (std::size_t)r.range(1, 4), x));
			ms.push_back(x);
		}
		m = combine(type, ms);
		F f((FormulaType)type, std::move(ops));
		convert(r, f, m);
	}
	void op(int t, int, Rng& r) override {
		std::vector<Val>& S = slots[t];
		Val& a = S[r.below(nslots)];
		Val& d = S[r.below(nslots)];
		Val n;
		bool store = false;
		int k = (int)r.below(35);
		const char* what = "";
		try {
			Faulty ff;
			if (k >= 32) {
				combine_bounds(r);
				return;
			}
			if (k <= 6) {
				what = "atom";
				std::string s;
				n.f = atom(r, n.m, s);
				store = true;
			} else if (k <= 15) {
				static const int types[] = {FormulaType::AND, FormulaType::OR, FormulaType::XOR, FormulaType::IFF, FormulaType::IMPLIES, FormulaType::ITE, FormulaType::NOT};
				int type = types[r.below(7)];
				what = "formula";
				std::size_t cnt = type == FormulaType::NOT ? 1 : type == FormulaType::ITE ? 3 : type == FormulaType::IMPLIES ? (std::size_t)r.range(2, 4) : type != FormulaType::IFF && r.chance(0.05) ? (std::size_t)r.range(0, 1) : (std::size_t)r.range(2, 4);
				std::vector<Mask> ms;
				std::vector<F> ops;
				unsigned size = 1;
				bool quant = false;
				bool bounds = r.chance(0.2);
				PM base;
				if (bounds) {
					Quiet q;
					base = bound_base(r);
					bounds = !base.empty();
					if (bounds && cnt > 1 && type != FormulaType::ITE) cnt = (std::size_t)r.range(2, 5);
				}
				for (std::size_t i = 0; i < cnt; ++i) {
					unsigned w = (unsigned)r.below(8);
					if (bounds || w == 2) {
						// lives in this list only
						std::string s;
						Mask m = 0;
						ops.push_back(bounds ? bound(r, base, m) : atom(r, m, s));
						ms.push_back(m);
						++size;
						if (w == 2 && r.chance(0.5)) { ops.back() = ops.back().negated(); ms.back() = ~ms.back(); }
						continue;
					}
					if (w == 0) {
						bool b = r.chance(0.5);
						ops.emplace_back(b ? FormulaType::TRUE : FormulaType::FALSE);
						ms.push_back(b ? ~Mask(0) : 0);
						continue;
					}
					const Val& x = w == 1 && i > 0 ? a : S[r.below(nslots)];
					bool neg = r.chance(0.15);
					ops.push_back(neg ? x.f.negated() : x.f);
					ms.push_back(neg ? ~x.m : x.m);
					size += x.size;
					quant |= x.quant;
				}
				if (size > 60) return;
				{ Quiet q; SIM_LOG("build " << carl::formulaTypeToString((FormulaType)type)); for (auto& o : ops) SIM_LOG("  " << show(o)); }
				n.m = combine(type, ms);
				n.size = size;
				n.quant = quant;
				n.type = type;
				// the operands may live in this list only
				bool keep = r.chance(0.7);
				if (keep) {
					n.ops = ops;
					n.f = make(r, type, std::move(ops));
				} else {
					n.type = -1;
					n.f = make(r, type, std::move(ops));
				}
				store = true;
			} else if (k == 16) {
				what = "shared formula";
				Val c(a);
				{
					std::lock_guard<std::mutex> l(shared_mutex);
					std::size_t i = r.below(shared.size());
					if (r.chance(0.5)) put(shared[i], c);
					else c = shared[i];
				}
				put(a, c);
				{ Quiet q; check(a, what); }
				return;
			} else if (k == 17) {
				what = "copy";
				if (r.chance(0.4)) { // move away
					Val x(std::move(a));
					a = Val();
					n = std::move(x);
				} else n = a;
				store = true;
			} else if (k <= 20) {
				if (a.type < 0) return;
				what = "same formula again";
				// the multiset constructor cancels equal operands before opposite ones
				if (a.type == FormulaType::XOR) for (auto& x : a.ops) for (auto& y : a.ops) if (x == y.negated()) return;
				F again = make(r, a.type, a.ops);
				Quiet q;
				SIM_CHECK(again == a.f && again.getId() == a.f.getId(), "identity", "building " << show(a.f) << " again gives another object " << show(again));
				reach("built again");
			} else if (k == 21) {
				what = "resolved negation";
				bool keep = r.chance(0.5);
				F g = r.chance(0.5) ? a.f : a.f.negated();
				n.m = g == a.f ? a.m : ~a.m;
				{ Quiet q; SIM_LOG("resolveNegation " << show(g)); }
				n.f = g.resolveNegation(keep);
				n.size = a.size + 1;
				n.quant = a.quant;
				store = true;
			} else if (k == 22) {
				what = "all but the last operand";
				FormulaType ty = a.f.getType();
				if (ty != FormulaType::AND && ty != FormulaType::OR && ty != FormulaType::XOR) return;
				{
					Quiet q;
					std::vector<Mask> ms;
					for (auto& s : a.f.subformulas()) ms.push_back(eval(s));
					ms.pop_back();
					n.m = combine(ty, ms);
				}
				n.f = a.f.connectPrecedingSubformulas();
				n.size = a.size;
				n.quant = a.quant;
				store = true;
			} else if (k == 23) {
				what = "substitution of a Boolean variable";
				Variable v = bools[r.below(bools.size())];
				const Val& g = S[r.below(nslots)];
				if (a.size * g.size > 60 || a.quant || g.quant) return;
				bool occurs;
				{
					Quiet q;
					std::map<Variable, Mask> m{{v, g.m}};
					Env env;
					env.bools = &m;
					n.m = eval(a.f, env);
					std::set<Variable> vs;
					walk(g.f, vs);
					occurs = vs.count(v) > 0;
				}
				{ Quiet q; SIM_LOG("substitute " << v << " by " << show(g.f) << " in " << show(a.f)); }
				if (occurs || r.chance(0.5)) n.f = a.f.substitute(std::map<Variable, F>{{v, g.f}});
				else {
					carl::FormulaSubstitutor<F> sub;
					n.f = sub.substitute(a.f, F(v), g.f);
				}
				n.size = a.size * g.size;
				store = true;
			} else if (k == 24) {
				what = "substitution of a real variable";
				if (a.quant) return;
				int v = (int)r.below(3);
				PM x;
				if (pv.vars[(std::size_t)v].type() != carl::VariableType::VT_REAL) return;
				{
					Quiet q;
					x = pm_random(r, 3, 1, 2);
					Env env;
					env.arith = v;
					env.by = &x;
					n.m = eval(a.f, env);
					SIM_LOG("substitute variable by " << pm_show(x) << " in " << show(a.f));
				}
				Poly p = build(x);
				if (r.chance(0.5)) n.f = a.f.substitute(pv.vars[(std::size_t)v], p);
				else {
					carl::FormulaSubstitutor<F> sub;
					n.f = sub.substitute(a.f, std::map<Variable, Poly>{{pv.vars[(std::size_t)v], p}});
				}
				n.size = a.size;
				store = true;
			} else if (k == 25) {
				what = "quantified formula";
				if (a.size > 20) return;
				std::vector<Variable> vs;
				for (auto v : bools) if (r.chance(0.3)) vs.push_back(v);
				bool ex = r.chance(0.5);
				{
					Quiet q;
					std::map<Variable, Mask> m;
					n.m = eval_quant(ex, vs, 0, a.f, m, Env(), 0);
				}
				n.f = F(ex ? FormulaType::EXISTS : FormulaType::FORALL, vs, a.f);
				n.size = a.size * (1u << vs.size()) + 1;
				n.quant = a.quant || !vs.empty();
				store = true;
			} else if (k <= 27 || k >= 30) {
				if (a.quant || a.size > 25) return;
				convert(r, a.f, a.m);
				return;
			} else if (k == 28) {
				if (a.quant) return;
				what = "variable for a formula";
				F v = Pool::getInstance().createTseitinVar(a.f);
				F w = Pool::getInstance().createTseitinVar(a.f);
				{
					Quiet q;
					SIM_CHECK(v.getType() == FormulaType::BOOL, "wrong-result", "variable for a formula is " << show(v));
					SIM_CHECK(v == w, "identity", "two variables for one formula");
					auto it = boolmask.emplace(v.boolean(), a.m);
					SIM_CHECK(it.first->second == a.m, "identity", "one variable for two formulas");
					n.m = a.m;
				}
				n.f = v;
				store = true;
			} else {
				what = "queries";
				const carl::Variables& l = a.f.variables();
				F b = a.f.baseFormula();
				F m = a.f.negated();
				Quiet q;
				std::set<Variable> w;
				walk(a.f, w);
				SIM_CHECK(std::set<Variable>(l.begin(), l.end()) == w, "wrong-result", "variables of " << show(a.f));
				SIM_CHECK(b == a.f || b == m, "wrong-result", "base formula of " << show(a.f) << " is " << show(b));
				SIM_CHECK(eval(m) == (Mask)~a.m, "wrong-meaning", "negation of " << show(a.f) << " is " << show(m));
				SIM_CHECK(m != a.f && m.getId() != a.f.getId(), "identity", "a formula is its own negation");
				return;
			}
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "unexpected-exception", "bad_alloc without an allocation failure");
			Quiet q;
			reach("allocation failure");
			store = false;
		}
		if (store) {
			{ Quiet q; check(n, what); SIM_LOG(what << " " << show(n.f)); }
			put(d, n);
		}
		check_own(t);
	}
	void check_own(int t) {
		Quiet q;
		std::uint64_t h = 0;
		for (auto& s : slots[t]) {
			check(s, "held formula");
			h = mix(h, s.m ^ s.f.getType());
			for (auto& u : slots[t]) SIM_CHECK((s.f == u.f) == (s.f.getId() == u.f.getId()), "identity", "identifiers of held formulas");
		}
		state(h);
	}
	void finish() override {
		for (int t = 1; t < MAXT; ++t) check_own(t);
		for (int t = 1; t < MAXT; ++t) slots[t].clear();
		shared.clear();
		cons.clear();
	}
};
} // namespace

namespace sim { Harness* make_harness() { return new H; } }

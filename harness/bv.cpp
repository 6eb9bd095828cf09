// Bit-vector terms and constraints: threads build, substitute, exchange and compare terms held in the shared pools.
#include "common.h"
#include <carl/core/VariablePool.h>
#include <carl/formula/SortManager.h>
#include <carl/formula/bitvector/BVConstraint.h>
#include <carl/formula/bitvector/BVConstraintPool.h>
#include <carl/formula/bitvector/BVTerm.h>
#include <carl/formula/bitvector/BVTermPool.h>
#include <gmpxx.h>
#include <mutex>

using namespace sim;
namespace sim { const char* const harness_name = "bv"; }

namespace {
using carl::BVTerm;
using carl::BVValue;
using TT = carl::BVTermType;
using Rel = carl::BVCompareRelation;
constexpr int K = 3; // sampled assignments

mpz_class pow2(std::size_t n) { mpz_class r = 1; r <<= n; return r; }
mpz_class umod(const mpz_class& a, std::size_t w) { mpz_class r; mpz_fdiv_r_2exp(r.get_mpz_t(), a.get_mpz_t(), w); return r; }
mpz_class sgn_val(const mpz_class& a, std::size_t w) { return mpz_tstbit(a.get_mpz_t(), w - 1) ? mpz_class(a - pow2(w)) : a; }

/// Reference semantics (SMT-LIB) of the operators.
mpz_class apply1(TT ty, const mpz_class& a, std::size_t w, std::size_t i) {
	switch (ty) {
	case TT::NOT: return pow2(w) - 1 - a;
	case TT::NEG: return umod(-a, w);
	case TT::LROTATE: case TT::RROTATE: {
		std::size_t n = i % w;
		if (ty == TT::RROTATE) n = (w - n) % w;
		return umod(a << n, w) | mpz_class(a >> (w - n));
	}
	case TT::REPEAT: { mpz_class r = 0; for (std::size_t k = 0; k < i; ++k) r = (r << w) | a; return r; }
	case TT::EXT_U: return a;
	default: return umod(sgn_val(a, w), w + i);
	}
}
mpz_class apply2(TT ty, const mpz_class& a, const mpz_class& b, std::size_t w, std::size_t wb) {
	mpz_class ones = pow2(w) - 1, sa = sgn_val(a, w), sb = sgn_val(b, wb);
	switch (ty) {
	case TT::CONCAT: return (a << wb) | b;
	case TT::AND: return a & b;
	case TT::OR: return a | b;
	case TT::XOR: return a ^ b;
	case TT::NAND: return ones ^ (a & b);
	case TT::NOR: return ones ^ (a | b);
	case TT::XNOR: return ones ^ (a ^ b);
	case TT::ADD: return umod(a + b, w);
	case TT::SUB: return umod(a - b, w);
	case TT::MUL: return umod(a * b, w);
	case TT::DIV_U: return b == 0 ? ones : mpz_class(a / b);
	case TT::MOD_U: return b == 0 ? a : mpz_class(a % b);
	case TT::DIV_S: return b == 0 ? (sa < 0 ? mpz_class(1) : ones) : umod(sa / sb, w); // truncating
	case TT::MOD_S1: return b == 0 ? a : umod(sa % sb, w); // sign of the dividend
	case TT::MOD_S2: { if (b == 0) return a; mpz_class r; mpz_fdiv_r(r.get_mpz_t(), sa.get_mpz_t(), sb.get_mpz_t()); return umod(r, w); } // sign of the divisor
	case TT::EQ: return a == b ? 1 : 0;
	case TT::LSHIFT: return b >= w ? mpz_class(0) : umod(a << b.get_ui(), w);
	case TT::RSHIFT_LOGIC: return b >= w ? mpz_class(0) : mpz_class(a >> b.get_ui());
	default: return umod(b >= w ? mpz_class(sa < 0 ? -1 : 0) : mpz_class(sa >> b.get_ui()), w);
	}
}
bool compare(Rel rel, const mpz_class& a, const mpz_class& b, std::size_t w) {
	mpz_class sa = sgn_val(a, w), sb = sgn_val(b, w);
	switch (rel) {
	case Rel::EQ: return a == b;
	case Rel::NEQ: return a != b;
	case Rel::ULT: return a < b;
	case Rel::ULE: return a <= b;
	case Rel::UGT: return a > b;
	case Rel::UGE: return a >= b;
	case Rel::SLT: return sa < sb;
	case Rel::SLE: return sa <= sb;
	case Rel::SGT: return sa > sb;
	default: return sa >= sb;
	}
}
std::size_t width_of(TT ty, std::size_t w, std::size_t wb, std::size_t i) {
	switch (ty) {
	case TT::CONCAT: return w + wb;
	case TT::EQ: return 1;
	case TT::REPEAT: return w * i;
	case TT::EXT_U: case TT::EXT_S: return w + i;
	default: return w;
	}
}
mpz_class to_mpz(const BVValue& v) {
	mpz_class r = 0;
	for (std::size_t i = v.width(); i-- > 0;) r = (r << 1) + (v[i] ? 1 : 0);
	return r;
}

struct Req {
	TT ty = TT::CONSTANT;
	int a = -1, b = -1;
	std::size_t i = 0, j = 0;
	std::string value; // of constants
	bool operator<(const Req& o) const { return std::tie(ty, a, b, i, j, value) < std::tie(o.ty, o.a, o.b, o.i, o.j, o.value); }
};
struct Node {
	BVTerm t;
	std::size_t width;
	mpz_class val[K];
	std::set<int> vars;
	std::size_t size;
};
struct Con {
	carl::BVConstraint c;
	Rel rel;
	int a, b;
};

struct H : Harness {
	std::vector<carl::BVVariable> vars;
	std::vector<std::vector<mpz_class>> assignment; // [sample][variable]
	std::vector<Node> nodes;
	std::map<Req, int> reqs;
	std::vector<Con> cons;
	std::vector<int> pool[MAXT]; // nodes the task works with
	std::mutex mx;
	std::vector<int> shared;

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(3, r.chance(0.1) ? 60 : 20);
		if (faults) c.rate[F_ALLOC] = pick_from(r, {0.002, 0.01, 0.05});
	}
	void setup(Rng& r) override {
		auto& m = carl::SortManager::getInstance();
		carl::BVTermPool::getInstance();
		carl::BVConstraintPool::getInstance();
		carl::Sort base = m.addSort("BitVec", carl::VariableType::VT_UNINTERPRETED);
		m.makeSortIndexable(base, 1, carl::VariableType::VT_BITVECTOR);
		std::vector<std::size_t> ws;
		{ Quiet q; ws = r.chance(0.6) ? std::vector<std::size_t>{1, 3, 4, 4, 8} : std::vector<std::size_t>{1, 5, 33, 64, 65}; }
		for (auto w : ws) vars.emplace_back(carl::freshVariable(carl::VariableType::VT_BITVECTOR), m.index(base, {w}));
		assignment.resize(K);
		for (auto& a : assignment) for (auto& v : vars) a.push_back(random_value(r, v.width()));
	}
	mpz_class random_value(Rng& r, std::size_t w) {
		switch (r.below(6)) {
		case 0: return 0;
		case 1: return umod(1, w);
		case 2: return pow2(w) - 1;
		case 3: return pow2(w - 1);
		case 4: return umod(mpz_class((unsigned long)r.below(2 * w + 2)), w); // shift amounts
		default: { mpz_class x = 0; for (std::size_t i = 0; i <= w / 60; ++i) x = (x << 60) + (unsigned long)r.below(1ull << 60); return umod(x, w); }
		}
	}
	/// Value of a term as its own structure tells, in reference semantics.
	mpz_class eval(const BVTerm& t, int k, int depth = 0) {
		SIM_CHECK(depth < 60, "structure", "a term contains itself");
		TT ty = t.type();
		if (ty == TT::CONSTANT) return to_mpz(t.value());
		if (ty == TT::VARIABLE) {
			for (std::size_t i = 0; i < vars.size(); ++i) if (vars[i] == t.variable()) return assignment[k][i];
			SIM_CHECK(false, "structure", "a term has an unknown variable");
		}
		if (ty == TT::EXTRACT) return umod(eval(t.operand(), k, depth + 1) >> t.lowest(), t.highest() - t.lowest() + 1);
		if (carl::typeIsUnary(ty)) return apply1(ty, eval(t.operand(), k, depth + 1), t.operand().width(), t.index());
		return apply2(ty, eval(t.first(), k, depth + 1), eval(t.second(), k, depth + 1), t.first().width(), t.second().width());
	}
	bool built_as(const BVTerm& t, const Req& q) {
		if (t.type() != q.ty) return false;
		if (q.ty == TT::CONSTANT) return t.value().toString() == q.value;
		if (q.ty == TT::VARIABLE) return t.variable() == vars[q.i];
		if (q.ty == TT::EXTRACT) return t.operand() == nodes[q.a].t && t.highest() == q.i && t.lowest() == q.j;
		if (carl::typeIsUnary(q.ty)) return t.operand() == nodes[q.a].t && t.index() == q.i;
		return t.first() == nodes[q.a].t && t.second() == nodes[q.b].t;
	}
	bool same_structure(const BVTerm& x, const BVTerm& y) {
		if (x.type() != y.type() || x.width() != y.width()) return false;
		TT ty = x.type();
		if (ty == TT::CONSTANT) return x.value() == y.value();
		if (ty == TT::VARIABLE) return x.variable() == y.variable();
		if (ty == TT::EXTRACT) return x.operand() == y.operand() && x.highest() == y.highest() && x.lowest() == y.lowest();
		if (carl::typeIsUnary(ty)) return x.operand() == y.operand() && x.index() == y.index();
		return x.first() == y.first() && x.second() == y.second();
	}
	std::string show(const Req& q) {
		std::ostringstream os;
		os << q.ty;
		if (q.ty == TT::CONSTANT) os << " " << q.value;
		if (q.a >= 0) os << " (" << nodes[q.a].t << ")";
		if (q.b >= 0) os << " (" << nodes[q.b].t << ")";
		os << " " << q.i << " " << q.j;
		return os.str();
	}
	/// Files the term obtained for a request: the same request gives the same object, other structures other objects.
	int file(const BVTerm& t, const Req& q, const Node& want) {
		SIM_CHECK(t.width() == want.width, "structure", "the term for " << show(q) << " has width " << t.width() << " instead of " << want.width);
		int no = -1;
		for (std::size_t i = 0; i < nodes.size(); ++i) if (nodes[i].t == t) no = (int)i;
		auto it = reqs.find(q);
		if (it != reqs.end()) SIM_CHECK(no == it->second, "identity", "building " << show(q) << " again gives another object");
		bool as_built = built_as(t, q);
		bool may_fold = (q.a >= 0 && nodes[q.a].t.isConstant()) || (q.b >= 0 && nodes[q.b].t.isConstant());
		SIM_CHECK(as_built || may_fold, "structure", "the term for " << show(q) << " reports " << t);
		bool all_const = q.ty != TT::VARIABLE && (q.a < 0 || nodes[q.a].t.isConstant()) && (q.b < 0 || nodes[q.b].t.isConstant());
		if (all_const) { SIM_CHECK(t.isConstant(), "value", show(q) << " has constant operands but is no constant: " << t); reach("folded"); }
		for (int k = 0; k < K; ++k) {
			mpz_class v = eval(t, k);
			SIM_CHECK(v == want.val[k], "value", "the term " << t << " for " << show(q) << " has value " << v << " instead of " << want.val[k]);
		}
		std::set<carl::BVVariable> vs, ws;
		t.gatherBVVariables(vs);
		for (int v : want.vars) ws.insert(vars[v]);
		if (as_built) SIM_CHECK(vs == ws, "structure", "the term " << t << " reports other variables than it is built from");
		if (no < 0) {
			for (auto& n : nodes) SIM_CHECK(!same_structure(n.t, t), "identity", "two objects for the term " << t);
			nodes.push_back(want);
			no = (int)nodes.size() - 1;
			nodes[no].t = t;
			if (!as_built) { nodes[no].vars.clear(); for (std::size_t i = 0; i < vars.size(); ++i) if (vs.count(vars[i])) nodes[no].vars.insert((int)i); }
			reach("new-term");
		} else if (it != reqs.end()) reach("term-again");
		reqs.emplace(q, no);
		return no;
	}
	int pick(int t, Rng& r, std::size_t width = 0) {
		if (width) for (int tries = 0; tries < 8; ++tries) { int n = pool[t][r.below(pool[t].size())]; if (nodes[n].width == width) return n; }
		return pool[t][r.below(pool[t].size())];
	}
	void hold(int t, int no, Rng& r) { if (pool[t].size() < 12) pool[t].push_back(no); else pool[t][r.below(12)] = no; }

	void leaf(int t, Rng& r) {
		Req q;
		Node n;
		std::size_t vi = r.below(vars.size());
		if (r.chance(0.6)) {
			{ Quiet qq; q.ty = TT::VARIABLE; q.i = vi; n.width = vars[vi].width(); n.size = 1; n.vars = {(int)vi}; for (int k = 0; k < K; ++k) n.val[k] = assignment[k][vi]; }
			BVTerm x;
			{ Faulty f; x = BVTerm(TT::VARIABLE, vars[vi]); }
			Quiet qq;
			hold(t, file(x, q, n), r);
			return;
		}
		mpz_class v;
		int how = (int)r.below(4);
		std::string digits;
		{
			Quiet qq;
			n.width = vars[vi].width();
			if (r.chance(0.2)) n.width = r.range(1, 70);
			v = random_value(r, n.width);
			n.size = 1;
			for (int k = 0; k < K; ++k) n.val[k] = v;
			for (std::size_t i = n.width; i-- > 0;) digits += mpz_tstbit(v.get_mpz_t(), i) ? '1' : '0';
			q.value = "#b" + digits;
			if (how == 1) v -= pow2(n.width);      // as a negative number
			if (how == 2) v += 3 * pow2(n.width); // as a number that is too large
		}
		BVTerm x;
		{
			Faulty f;
			if (how == 3) x = BVTerm(TT::CONSTANT, BVValue(digits));
			else if (how == 0 && n.width <= 64) x = BVTerm(TT::CONSTANT, BVValue(n.width, (carl::uint)v.get_ui()));
			else x = BVTerm(TT::CONSTANT, BVValue(n.width, v));
		}
		Quiet qq;
		hold(t, file(x, q, n), r);
	}
	void compound(int t, Rng& r) {
		static const TT un[] = {TT::NOT, TT::NEG, TT::LROTATE, TT::RROTATE, TT::EXT_U, TT::EXT_S, TT::REPEAT};
		static const TT bin[] = {TT::CONCAT, TT::AND, TT::OR, TT::XOR, TT::NAND, TT::NOR, TT::XNOR, TT::ADD, TT::SUB, TT::MUL, TT::DIV_U, TT::DIV_S, TT::MOD_U, TT::MOD_S1, TT::MOD_S2, TT::EQ, TT::LSHIFT, TT::RSHIFT_LOGIC, TT::RSHIFT_ARITH};
		Req q;
		Node n;
		{
			Quiet qq;
			int kind = (int)r.below(10);
			q.a = pick(t, r);
			std::size_t w = nodes[q.a].width;
			if (kind < 2) {
				q.ty = un[r.below(7)];
				if (q.ty == TT::LROTATE || q.ty == TT::RROTATE) q.i = r.below(2 * w + 1);
				if (q.ty == TT::EXT_U || q.ty == TT::EXT_S) q.i = r.below(5);
				if (q.ty == TT::REPEAT) q.i = r.range(1, 3);
				n.width = width_of(q.ty, w, 0, q.i);
				if (n.width > 140) return;
				for (int k = 0; k < K; ++k) n.val[k] = apply1(q.ty, nodes[q.a].val[k], w, q.i);
				n.vars = nodes[q.a].vars;
				n.size = 1 + nodes[q.a].size;
			} else if (kind < 3) {
				q.ty = TT::EXTRACT;
				q.j = r.below(w);
				q.i = r.range(q.j, w - 1);
				n.width = q.i - q.j + 1;
				for (int k = 0; k < K; ++k) n.val[k] = umod(nodes[q.a].val[k] >> q.j, n.width);
				n.vars = nodes[q.a].vars;
				n.size = 1 + nodes[q.a].size;
			} else {
				q.ty = bin[r.below(19)];
				q.b = pick(t, r, w);
				std::size_t wb = nodes[q.b].width;
				if (wb != w) q.ty = TT::CONCAT;
				n.width = width_of(q.ty, w, wb, 0);
				if (n.width > 140) return;
				for (int k = 0; k < K; ++k) n.val[k] = apply2(q.ty, nodes[q.a].val[k], nodes[q.b].val[k], w, wb);
				n.vars = nodes[q.a].vars;
				n.vars.insert(nodes[q.b].vars.begin(), nodes[q.b].vars.end());
				n.size = 1 + nodes[q.a].size + nodes[q.b].size;
			}
			if (n.size > 25) return;
			SIM_LOG("t" << t << " build " << show(q));
		}
		BVTerm x, a = nodes[q.a].t, b = q.b >= 0 ? nodes[q.b].t : a;
		{
			Faulty f;
			if (q.ty == TT::EXTRACT) x = BVTerm(q.ty, a, q.i, q.j);
			else if (q.b >= 0) x = BVTerm(q.ty, a, b);
			else if (q.ty == TT::NOT || q.ty == TT::NEG) x = BVTerm(q.ty, a);
			else x = BVTerm(q.ty, a, q.i);
		}
		Quiet qq;
		hold(t, file(x, q, n), r);
	}
	void substitute(int t, Rng& r) {
		int no;
		int k = (int)r.below(K);
		bool all;
		std::vector<int> repl; // node per variable, -1 for its value, -2 for none
		BVTerm x;
		{
			Quiet q;
			no = pick(t, r);
			x = nodes[no].t;
			all = r.chance(0.5);
			for (std::size_t i = 0; i < vars.size(); ++i) {
				int c = all ? -1 : r.chance(0.4) ? -1 : -2;
				if (!all && r.chance(0.3)) { int n = pick(t, r, vars[i].width()); if (nodes[n].width == vars[i].width() && nodes[n].size < 4) c = n; }
				repl.push_back(c);
			}
		}
		std::map<carl::BVVariable, BVTerm> m;
		for (std::size_t i = 0; i < vars.size(); ++i) {
			if (repl[i] == -1) m.emplace(vars[i], BVTerm(TT::CONSTANT, BVValue(vars[i].width(), assignment[k][i])));
			else if (repl[i] >= 0) m.emplace(vars[i], nodes[repl[i]].t);
		}
		BVTerm y;
		{ Faulty f; y = x.substitute(m); }
		Quiet q;
		SIM_LOG("t" << t << " substitute in " << x << (all ? " all" : ""));
		SIM_CHECK(y.width() == x.width(), "value", "substituting changes the width of " << x);
		if (all) {
			SIM_CHECK(y.isConstant(), "value", "substituting constants for all variables of " << x << " gives " << y);
			SIM_CHECK(to_mpz(y.value()) == nodes[no].val[k], "value", x << " evaluates to " << y << " instead of " << nodes[no].val[k]);
			reach("evaluated");
			return;
		}
		// value under sample k2 with the replaced variables read from their replacements
		int k2 = (int)r.below(K);
		auto saved = assignment[k2];
		mpz_class got = eval(y, k2);
		std::vector<mpz_class> as = saved;
		for (std::size_t i = 0; i < vars.size(); ++i) {
			if (repl[i] == -1) as[i] = assignment[k][i];
			else if (repl[i] >= 0) as[i] = nodes[repl[i]].val[k2];
		}
		assignment[k2] = as;
		mpz_class want = eval(x, k2);
		assignment[k2] = saved;
		SIM_CHECK(got == want, "value", "substituting in " << x << " gives " << y << " of value " << got << " instead of " << want);
		std::set<carl::BVVariable> vs;
		y.gatherBVVariables(vs);
		for (std::size_t i = 0; i < vars.size(); ++i) if (repl[i] == -1 && vs.count(vars[i])) {
			bool other = false;
			for (std::size_t j = 0; j < vars.size(); ++j) other |= repl[j] >= 0 && nodes[repl[j]].vars.count((int)i);
			SIM_CHECK(other, "structure", "a replaced variable is still in " << y);
		}
		reach("substituted");
	}
	void constraint(int t, Rng& r) {
		Rel rel = (Rel)r.below(10);
		int a, b;
		BVTerm x, y;
		{
			Quiet q;
			a = pick(t, r);
			b = pick(t, r, nodes[a].width);
			if (nodes[b].width != nodes[a].width) b = a;
			x = nodes[a].t;
			y = nodes[b].t;
			SIM_LOG("t" << t << " constraint " << x << " " << rel << " " << y);
		}
		carl::BVConstraint c = [&] { Faulty f; return carl::BVConstraint::create(rel, x, y); }();
		Quiet q;
		if (x.isConstant() && y.isConstant()) {
			bool want = compare(rel, nodes[a].val[0], nodes[b].val[0], nodes[a].width);
			SIM_CHECK(c.isConstant() && c.isAlwaysConsistent() == want && c.isAlwaysInconsistent() == !want, "value", "the constraint " << x << " " << rel << " " << y << " is decided as " << c);
			SIM_CHECK(c == carl::BVConstraint::create(want), "identity", "two objects for a decided constraint");
			reach("decided");
			return;
		}
		SIM_CHECK(!c.isConstant() && !c.isAlwaysConsistent() && !c.isAlwaysInconsistent(), "value", "the constraint " << x << " " << rel << " " << y << " is decided as " << c);
		SIM_CHECK(c.relation() == rel && c.lhs() == x && c.rhs() == y, "structure", "the constraint " << x << " " << rel << " " << y << " reports " << c);
		SIM_CHECK(c.id() != 0, "identity", "a constraint without id");
		for (auto& o : cons) {
			bool same = o.rel == rel && o.a == a && o.b == b;
			SIM_CHECK((o.c == c) == same && (o.c.id() == c.id()) == same, "identity", "the constraints " << o.c << " and " << c << (same ? " are two objects" : " are one object"));
			SIM_CHECK(!same || o.c.hash() == c.hash(), "identity", "equal constraints have different hashes");
		}
		carl::carlVariables vs;
		c.gatherVariables(vs);
		std::set<carl::Variable> got(vs.begin(), vs.end()), want;
		for (int v : nodes[a].vars) want.insert(vars[v].variable());
		for (int v : nodes[b].vars) want.insert(vars[v].variable());
		SIM_CHECK(got == want, "structure", "the constraint " << c << " reports other variables");
		cons.push_back({c, rel, a, b});
		reach("constraint");
	}
	void op(int t, int, Rng& r) override {
		try {
			int k = (int)r.below(12);
			if (pool[t].size() < 2 || k < 2) leaf(t, r);
			else if (k < 7) compound(t, r);
			else if (k < 9) substitute(t, r);
			else if (k < 10) constraint(t, r);
			else {
				std::lock_guard<std::mutex> l(mx);
				if (shared.empty() || r.chance(0.5)) { int n = pick(t, r); Quiet q; shared.push_back(n); }
				else { Quiet q; hold(t, shared[r.below(shared.size())], r); reach("exchanged"); }
			}
			Quiet q;
			check(pick_any(t, r));
			if (!cons.empty()) check(cons[r.below(cons.size())]);
			state(mix(mix(nodes.size(), cons.size()), reqs.size()));
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "exception", "bad_alloc without allocation failure");
			reach("alloc-failure-survived");
		}
	}
	const Node* pick_any(int t, Rng& r) { return pool[t].empty() ? nullptr : &nodes[pool[t][r.below(pool[t].size())]]; }
	void check(const Node* n) {
		if (!n) return;
		SIM_CHECK(n->t.width() == n->width, "structure", "the width of " << n->t << " changed");
		for (int k = 0; k < K; ++k) SIM_CHECK(eval(n->t, k) == n->val[k], "value", "the meaning of " << n->t << " changed");
	}
	void check(const Con& c) { SIM_CHECK(c.c.relation() == c.rel && c.c.lhs() == nodes[c.a].t && c.c.rhs() == nodes[c.b].t, "structure", "the constraint " << c.c << " changed"); }
	void finish() override {
		Quiet q;
		for (auto& n : nodes) check(&n);
		for (auto& c : cons) {
			check(c);
			SIM_CHECK(carl::BVConstraint::create(c.rel, nodes[c.a].t, nodes[c.b].t) == c.c, "identity", "building the constraint " << c.c << " again gives another object");
		}
		for (std::size_t i = 0; i < nodes.size(); ++i) for (std::size_t j = 0; j < i; ++j) {
			SIM_CHECK(!(nodes[i].t == nodes[j].t) && (nodes[i].t < nodes[j].t) != (nodes[j].t < nodes[i].t), "identity", "the order of " << nodes[i].t << " and " << nodes[j].t << " is wrong");
		}
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

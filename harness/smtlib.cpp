// SMT-LIB output: scripts written by several clients from shared formulas are read by an independent reader and evaluated.
// build-flags: -DNDEBUG -include @VERIF@/harness/cocoa_stub.h
#include "poly_model.h"
#include <carl/core/UnivariatePolynomial.h>
#include <carl/formula/Formula.h>
#include <carl/formula/FormulaPool.h>
#include <carl/formula/SortManager.h>
#include <carl/formula/uninterpreted/UFInstanceManager.h>
#include <carl/formula/uninterpreted/UFManager.h>
#include <carl-io/SMTLIBStream.h>
#include <mutex>

using namespace sim;
using carl::FormulaType;
using carl::Relation;
using carl::Variable;
using F = carl::Formula<Poly>;
using Fs = carl::Formulas<Poly>;

namespace sim { const char* const harness_name = "smtlib"; }

namespace {
constexpr unsigned K = 24; // worlds; a truth value is a set of worlds
using Mask = std::uint32_t;
constexpr Mask ALLW = (1u << K) - 1;
const Relation RELS[] = {Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};

bool holds(const Q& v, Relation r) {
	switch (r) {
	case Relation::EQ: return v == 0;
	case Relation::NEQ: return v != 0;
	case Relation::LESS: return v < 0;
	case Relation::LEQ: return v <= 0;
	case Relation::GREATER: return v > 0;
	default: return v >= 0;
	}
}

/// A parsed expression.
struct Sx {
	std::string atom;
	std::vector<Sx> kids;
	bool list = false;
	std::string show() const {
		if (!list) return atom;
		std::string s = "(";
		for (std::size_t i = 0; i < kids.size(); ++i) s += (i ? " " : "") + kids[i].show();
		return s + ")";
	}
};
std::vector<Sx> read_all(const std::string& s) {
	std::vector<Sx> stack(1);
	std::size_t i = 0;
	while (i < s.size()) {
		char c = s[i];
		if (c == ' ' || c == '\n' || c == '\t') ++i;
		else if (c == '(') { stack.emplace_back(); stack.back().list = true; ++i; }
		else if (c == ')') {
			SIM_CHECK(stack.size() > 1, "malformed", "unbalanced parentheses in " + s);
			Sx x = std::move(stack.back());
			stack.pop_back();
			stack.back().kids.push_back(std::move(x));
			++i;
		} else {
			std::size_t b = i;
			while (i < s.size() && !strchr(" \n\t()", s[i])) ++i;
			Sx x;
			x.atom = s.substr(b, i - b);
			stack.back().kids.push_back(x);
		}
	}
	SIM_CHECK(stack.size() == 1, "malformed", "unbalanced parentheses in " + s);
	return stack[0].kids;
}

/// A value in every world.
struct V {
	enum Kind { BOOL, NUM, ELEM } kind = BOOL;
	Mask m = 0;
	std::vector<Q> q;
	std::vector<int> e;
};
struct Val { F f{FormulaType::FALSE}; Mask m = 0; unsigned size = 1; };

struct H : Harness {
	PolyVars pv;
	std::vector<std::string> names, bnames, unames;
	std::vector<Variable> bools;
	std::vector<Mask> bmask;
	std::vector<std::vector<Q>> points; // by world
	std::vector<carl::UVariable> uvars;
	std::vector<std::vector<int>> uval;
	carl::UninterpretedFunction fun;
	std::vector<std::pair<carl::UTerm, std::vector<int>>> uterms; // made beforehand: the managers of functions make no promise about concurrent calls
	std::vector<Val> slots[MAXT + 1], shared;
	std::mutex mx;

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(3, r.chance(0.1) ? 24 : 9);
		c.step_cap = 40'000'000;
		if (faults) c.rate[F_STALL] = 0.01;
	}
	static int apply(int a, int b) { return (a * 2 + b + 1) % 3; }
	void setup(Rng& r) override {
		for (int i = 0; i < 4; ++i) {
			static const char* const n[] = {"x", "y", "k", "x1"};
			Variable v = r.chance(0.2) ? (i == 2 ? carl::freshIntegerVariable() : carl::freshRealVariable()) : i == 2 ? carl::freshIntegerVariable(n[i]) : carl::freshRealVariable(n[i]);
			std::string s = v.name();
			Quiet q;
			pv.vars.push_back(v);
			names.push_back(s);
		}
		{
			Quiet q;
			std::vector<std::pair<Variable, std::string>> both;
			for (std::size_t i = 0; i < 4; ++i) both.emplace_back(pv.vars[i], names[i]);
			std::sort(both.begin(), both.end());
			for (std::size_t i = 0; i < 4; ++i) { pv.vars[i] = both[i].first; names[i] = both[i].second; }
		}
		for (int i = 0; i < 4; ++i) {
			Variable v = r.chance(0.5) ? carl::freshBooleanVariable() : carl::freshBooleanVariable("b" + std::to_string(i));
			std::string s = v.name();
			Quiet q;
			bools.push_back(v);
			bnames.push_back(s);
			bmask.push_back((Mask)r.next() & ALLW);
		}
		carl::Sort us = carl::SortManager::getInstance().addSort("U");
		for (int i = 0; i < 3; ++i) {
			carl::UVariable u(carl::freshUninterpretedVariable("u" + std::to_string(i)), us);
			Quiet q;
			uvars.push_back(u);
			unames.push_back("u" + std::to_string(i));
			uval.emplace_back();
			for (unsigned w = 0; w < K; ++w) uval.back().push_back((int)r.below(3));
		}
		fun = carl::newUninterpretedFunction("f", {us, us}, us);
		{
			Quiet q;
			for (unsigned w = 0; w < K; ++w) {
				points.emplace_back();
				for (std::size_t i = 0; i < PM_VARS; ++i) {
					Q v(r.range(-3, 3), i < 4 && pv.vars[i].type() == carl::VariableType::VT_INT ? 1 : r.range(1, 3));
					v.canonicalize();
					points.back().push_back(v);
				}
			}
			for (auto& s : slots) s.reserve(4);
			shared.reserve(3);
		}
		for (int i = 0; i < 8; ++i) {
			std::vector<int> v;
			carl::UTerm x = uterm(r, v);
			Quiet q;
			uterms.emplace_back(x, v);
		}
		for (int t = 1; t <= MAXT; ++t) for (int i = 0; i < 3; ++i) slots[t].emplace_back();
		for (int i = 0; i < 3; ++i) shared.emplace_back();
		Poly p(pv.vars[0]);
		F a(p, Relation::LESS), b(bools[0]), c(FormulaType::AND, a, b), d(carl::UTerm(uvars[0]), carl::UTerm(uvars[1]), false);
		std::ostringstream os;
		os << carl::outputSMTLIB(carl::Logic::QF_NRA, {c, d}) << carl::asSMTLIB(p);
	}
	Poly build(const PM& x) {
		Poly p;
		for (auto& t : x) {
			Poly m(t.second);
			for (std::size_t i = 0; i < 4; ++i) for (unsigned k = 0; k < t.first[i]; ++k) m *= Poly(pv.vars[i]);
			p += m;
		}
		return p;
	}
	Mask con_mask(const PM& x, Relation rel) const {
		Mask m = 0;
		for (unsigned w = 0; w < K; ++w) if (holds(pm_eval(x, points[w]), rel)) m |= 1u << w;
		return m;
	}
	carl::UTerm uterm(Rng& r, std::vector<int>& v) {
		std::size_t a = r.below(3);
		if (r.chance(0.6)) { Quiet q; v = uval[a]; return carl::UTerm(uvars[a]); }
		std::size_t b = r.below(3);
		std::vector<int> y;
		bool nest = r.chance(0.3);
		carl::UTerm second = nest ? uterm(r, y) : carl::UTerm(uvars[b]);
		{
			Quiet q;
			if (!nest) y = uval[b];
			v.clear();
			for (unsigned w = 0; w < K; ++w) v.push_back(apply(uval[a][w], y[w]));
		}
		return carl::UTerm(carl::newUFInstance(fun, std::vector<carl::UTerm>{carl::UTerm(uvars[a]), second}));
	}
	void leaf(Rng& r, Val& o) {
		o.size = 1;
		switch (r.below(8)) {
		case 0: case 1: { std::size_t b = r.below(4); o.f = F(bools[b]); o.m = bmask[b]; return; }
		case 2: { bool v = r.chance(0.5); o.f = F(v ? FormulaType::TRUE : FormulaType::FALSE); o.m = v ? ALLW : 0; return; }
		case 3: {
			auto& x = uterms[r.below(uterms.size())];
			auto& y = uterms[r.below(uterms.size())];
			const std::vector<int>&a = x.second, &b = y.second;
			bool neg = r.chance(0.5);
			o.f = F(x.first, y.first, neg);
			Quiet q;
			o.m = 0;
			for (unsigned w = 0; w < K; ++w) if ((a[w] == b[w]) != neg) o.m |= 1u << w;
			return;
		}
		default: {
			PM x;
			Relation rel = RELS[r.below(6)];
			{ Quiet q; x = pm_random(r, 4, 3, 3); o.m = con_mask(x, rel); }
			o.f = F(build(x), rel);
		}
		}
	}
	Val pick(int t, Rng& r) {
		Val v;
		if (r.chance(0.3)) {
			std::lock_guard<std::mutex> g(mx);
			v = shared[r.below(shared.size())];
		} else v = slots[t][r.below(slots[t].size())];
		if (v.size > 30 || r.chance(0.35)) leaf(r, v);
		return v;
	}
	void make(int t, Rng& r, Val& o) {
		Val a = pick(t, r), b = pick(t, r), c = pick(t, r);
		switch (r.below(9)) {
		case 0: leaf(r, o); return;
		case 1: o.f = F(FormulaType::NOT, a.f); o.m = ALLW & ~a.m; break;
		case 2: o.f = F(FormulaType::IMPLIES, {a.f, b.f}); o.m = (ALLW & ~a.m) | b.m; break;
		case 3: o.f = F(FormulaType::ITE, {a.f, b.f, c.f}); o.m = (a.m & b.m) | (ALLW & ~a.m & c.m); break;
		case 4: o.f = F(FormulaType::XOR, {a.f, b.f}); o.m = a.m ^ b.m; break;
		case 5: o.f = F(FormulaType::IFF, {a.f, b.f}); o.m = ALLW & ~(a.m ^ b.m); break;
		case 6: o.f = F(FormulaType::OR, {a.f, b.f, c.f}); o.m = a.m | b.m | c.m; break;
		default: o.f = F(FormulaType::AND, {a.f, b.f, c.f}); o.m = a.m & b.m & c.m; break;
		}
		o.size = a.size + b.size + c.size + 1;
	}

	// --- the independent reader
	using Env = std::map<std::string, std::string>; // name -> declared signature
	V num(const Q& c) const { V v; v.kind = V::NUM; v.q.assign(K, c); return v; }
	V lookup(const std::string& n, const Env* env) const {
		V v;
		auto declared = [&](const char* sort) {
			if (!env) return;
			auto it = env->find(n);
			SIM_CHECK(it != env->end(), "undeclared", n + " is used and not declared");
			SIM_CHECK(it->second == std::string("() ") + sort, "wrong-sort", n + " is declared as " + it->second);
		};
		for (std::size_t i = 0; i < 4; ++i) if (names[i] == n) {
			declared(pv.vars[i].type() == carl::VariableType::VT_INT ? "Int" : "Real");
			v.kind = V::NUM;
			for (unsigned w = 0; w < K; ++w) v.q.push_back(points[w][i]);
			return v;
		}
		for (std::size_t i = 0; i < 4; ++i) if (bnames[i] == n) { declared("Bool"); v.m = bmask[i]; return v; }
		for (std::size_t i = 0; i < 3; ++i) if (unames[i] == n) { declared("U"); v.kind = V::ELEM; v.e = uval[i]; return v; }
		SIM_CHECK(false, "malformed", "unknown symbol " + n);
		return v;
	}
	V eval(const Sx& x, const Env* env) const {
		V v;
		if (!x.list) {
			if (x.atom == "true") { v.m = ALLW; return v; }
			if (x.atom == "false") { v.m = 0; return v; }
			if (isdigit((unsigned char)x.atom[0])) {
				for (char c : x.atom) SIM_CHECK(isdigit((unsigned char)c), "malformed", "not a numeral: " + x.atom);
				return num(Q(x.atom));
			}
			return lookup(x.atom, env);
		}
		SIM_CHECK(x.kids.size() > 1 && !x.kids[0].list, "malformed", "not an application: " + x.show());
		std::string f = x.kids[0].atom;
		std::vector<V> a;
		for (std::size_t i = 1; i < x.kids.size(); ++i) a.push_back(eval(x.kids[i], env));
		auto all = [&](V::Kind k, std::size_t lo, std::size_t hi) {
			SIM_CHECK(a.size() >= lo && a.size() <= hi, "malformed", "wrong number of arguments: " + x.show());
			for (auto& y : a) SIM_CHECK(y.kind == k, "malformed", "wrong kind of argument: " + x.show());
		};
		if (f == "not") { all(V::BOOL, 1, 1); v.m = ALLW & ~a[0].m; }
		else if (f == "and") { all(V::BOOL, 1, 99); v.m = ALLW; for (auto& y : a) v.m &= y.m; }
		else if (f == "or") { all(V::BOOL, 1, 99); for (auto& y : a) v.m |= y.m; }
		else if (f == "xor") { all(V::BOOL, 2, 99); for (auto& y : a) v.m ^= y.m; }
		else if (f == "=>") { all(V::BOOL, 2, 2); v.m = (ALLW & ~a[0].m) | a[1].m; }
		else if (f == "ite") { all(V::BOOL, 3, 3); v.m = (a[0].m & a[1].m) | (ALLW & ~a[0].m & a[2].m); }
		else if (f == "=" && a[0].kind != V::NUM) {
			all(a[0].kind, 2, 99);
			v.m = ALLW;
			for (std::size_t i = 1; i < a.size(); ++i)
				for (unsigned w = 0; w < K; ++w)
					if (a[0].kind == V::BOOL ? ((a[0].m ^ a[i].m) >> w) & 1 : a[0].e[w] != a[i].e[w]) v.m &= ~(1u << w);
		} else if (f == "=" || f == "<" || f == "<=" || f == ">" || f == ">=") {
			all(V::NUM, 2, 2);
			Relation rel = f == "=" ? Relation::EQ : f == "<" ? Relation::LESS : f == "<=" ? Relation::LEQ : f == ">" ? Relation::GREATER : Relation::GEQ;
			for (unsigned w = 0; w < K; ++w) if (holds(a[0].q[w] - a[1].q[w], rel)) v.m |= 1u << w;
		} else if (f == "+" || f == "*" || f == "-" || f == "/") {
			all(V::NUM, f == "-" ? 1 : 2, f == "-" ? 1 : f == "/" ? 2 : 99);
			v = a[0];
			for (unsigned w = 0; w < K; ++w) {
				if (f == "-") v.q[w] = -v.q[w];
				for (std::size_t i = 1; i < a.size(); ++i) {
					if (f == "+") v.q[w] += a[i].q[w];
					else if (f == "*") v.q[w] *= a[i].q[w];
					else { SIM_CHECK(a[i].q[w] != 0, "malformed", "division by zero"); v.q[w] /= a[i].q[w]; }
				}
			}
		} else if (f == "f") {
			all(V::ELEM, 2, 2);
			if (env) {
				auto it = env->find("f");
				SIM_CHECK(it != env->end() && it->second == "(U U) U", "undeclared", "the function f is not declared as it is used");
			}
			v.kind = V::ELEM;
			for (unsigned w = 0; w < K; ++w) v.e.push_back(apply(a[0].e[w], a[1].e[w]));
		} else SIM_CHECK(false, "malformed", "unknown function " + f + " in " + x.show());
		return v;
	}
	/// Reads a script; returns the truth values of the assertions.
	void script(const std::string& text, const std::string& logic, const std::vector<Mask>& want, const PM* objective, bool model) {
		std::vector<Sx> cmds = read_all(text);
		Env env;
		std::set<std::string> sorts;
		std::size_t asserted = 0, checks = 0, models = 0, minimised = 0;
		bool first = true;
		for (auto& c : cmds) {
			SIM_CHECK(c.list && !c.kids.empty() && !c.kids[0].list, "malformed", "not a command: " + c.show());
			std::string n = c.kids[0].atom;
			SIM_CHECK(first == (n == "set-logic"), "malformed", "set-logic is not the first command");
			first = false;
			if (n == "set-logic") SIM_CHECK(c.kids.size() == 2 && c.kids[1].atom == logic, "wrong-logic", c.show());
			else if (n == "declare-sort") {
				SIM_CHECK(c.kids.size() == 3 && c.kids[1].atom == "U" && c.kids[2].atom == "0", "malformed", c.show());
				SIM_CHECK(sorts.insert("U").second, "malformed", "sort declared twice");
			} else if (n == "declare-fun") {
				SIM_CHECK(c.kids.size() == 4 && c.kids[2].list, "malformed", c.show());
				SIM_CHECK(env.emplace(c.kids[1].atom, c.kids[2].show() + " " + c.kids[3].show()).second, "malformed", c.kids[1].atom + " is declared twice");
				SIM_CHECK(c.kids[3].atom != "U" || sorts.count("U"), "undeclared", "a sort is used before it is declared: " + c.show());
			} else if (n == "assert") {
				SIM_CHECK(c.kids.size() == 2 && asserted < want.size() && checks == 0, "malformed", c.show());
				V v = eval(c.kids[1], &env);
				SIM_CHECK(v.kind == V::BOOL && v.m == want[asserted], "wrong-meaning", "the assertion " + c.show() + " holds in worlds " + std::to_string(v.m) + ", the formula in " + std::to_string(want[asserted]));
				++asserted;
			} else if (n == "minimize") {
				SIM_CHECK(c.kids.size() == 2 && objective, "malformed", c.show());
				V v = eval(c.kids[1], &env);
				for (unsigned w = 0; w < K; ++w) SIM_CHECK(v.kind == V::NUM && v.q[w] == pm_eval(*objective, points[w]), "wrong-meaning", "the objective " + c.show());
				++minimised;
			} else if (n == "check-sat") ++checks;
			else if (n == "get-model") { SIM_CHECK(checks == 1, "malformed", "get-model before check-sat"); ++models; }
			else SIM_CHECK(false, "malformed", "unknown command " + n);
		}
		SIM_CHECK(asserted == want.size() && checks == 1 && models == (model ? 1u : 0u) && minimised == (objective && !objective->empty() ? 1u : 0u), "missing", "a command is missing in " + text);
		reach(sorts.empty() ? "arithmetic-script" : "script-with-functions");
	}
	static carl::Logic logic(Rng& r, std::string& s) {
		static const std::pair<carl::Logic, const char*> l[] = {{carl::Logic::QF_NRA, "QF_NRA"}, {carl::Logic::QF_NIRA, "QF_NIRA"}, {carl::Logic::QF_UF, "QF_UF"}, {carl::Logic::QF_LIA, "QF_LIA"}, {carl::Logic::QF_LRA, "QF_LRA"}, {carl::Logic::QF_NIA, "QF_NIA"}, {carl::Logic::QF_BV, "QF_BV"}, {carl::Logic::QF_IDL, "QF_IDL"}, {carl::Logic::QF_RDL, "QF_RDL"}, {carl::Logic::QF_LIRA, "QF_LIRA"}, {carl::Logic::QF_PB, "QF_PB"}};
		auto& p = l[r.below(sizeof l / sizeof *l)];
		s = p.second;
		return p.first;
	}
	void op(int t, int, Rng& r) override {
		int k = (int)r.below(10);
		if (k < 4) {
			Val v;
			make(t, r, v);
			{ Quiet q; SIM_LOG("t" << t << " makes a formula for worlds " << v.m); }
			if (r.chance(0.5)) slots[t][r.below(slots[t].size())] = v;
			else {
				std::lock_guard<std::mutex> g(mx);
				std::swap(shared[r.below(shared.size())], v);
			}
		} else if (k < 8) {
			std::vector<Val> vs;
			std::vector<Mask> want;
			int n = (int)r.range(1, 3);
			for (int i = 0; i < n; ++i) { vs.push_back(pick(t, r)); want.push_back(vs.back().m); }
			std::string ln, out;
			carl::Logic l;
			{ Quiet q; l = logic(r, ln); }
			bool model = r.chance(0.4), minimise = r.chance(0.2);
			PM obj;
			if (minimise) { Quiet q; obj = pm_random(r, 4, 2, 3); }
			std::ostringstream os;
			if (r.chance(0.5)) {
				if (minimise) { // the variables of the objective are declared with the formulas
					Val v;
					{ Quiet q; for (std::size_t i = 0; i < 4; ++i) if (pm_deg(obj, i) > 0) obj = pm_var(i); if (pm_deg(obj) == 0) obj = pm_var(0); v.m = con_mask(obj, Relation::LEQ); }
					v.f = F(build(obj), Relation::LEQ);
					want.assign(1, v.m);
					os << carl::outputSMTLIB(l, {v.f}, build(obj), model);
				} else if (n == 1) os << carl::outputSMTLIB(l, {vs[0].f}, model);
				else if (n == 2) os << carl::outputSMTLIB(l, {vs[0].f, vs[1].f}, model);
				else os << carl::outputSMTLIB(l, {vs[0].f, vs[1].f, vs[2].f}, model);
				out = os.str();
			} else {
				minimise = false;
				carl::SMTLIBStream ss;
				if (n == 1) ss.initialize(l, {vs[0].f});
				else if (n == 2) ss.initialize(l, {vs[0].f, vs[1].f});
				else ss.initialize(l, {vs[0].f, vs[1].f, vs[2].f});
				for (auto& v : vs) ss.assertFormula(v.f);
				ss.checkSat();
				if (model) ss.getModel();
				if (r.chance(0.5)) out = ss.str();
				else { os << ss; out = os.str(); }
			}
			Quiet q;
			SIM_LOG("t" << t << " writes " << out);
			script(out, ln, want, minimise ? &obj : nullptr, model);
		} else if (k == 8) { // a formula or polynomial on its own
			if (r.chance(0.4)) {
				Val v = pick(t, r);
				std::ostringstream os;
				os << carl::asSMTLIB(F(v.f));
				std::string out = os.str();
				Quiet q;
				SIM_LOG("t" << t << " writes the formula " << out);
				std::vector<Sx> x = read_all(out);
				SIM_CHECK(x.size() == 1, "malformed", "not one expression: " + out);
				V g = eval(x[0], nullptr);
				SIM_CHECK(g.kind == V::BOOL && g.m == v.m, "wrong-meaning", "the formula " + out + " holds in worlds " + std::to_string(g.m) + ", not " + std::to_string(v.m));
			} else {
				PM x;
				bool uni = r.chance(0.4);
				{ Quiet q; x = pm_random(r, uni ? 1 : 4, 4, 4); }
				std::ostringstream os;
				if (uni) {
					std::vector<Q> cs;
					{ Quiet q; for (auto& e : x) { if (cs.size() <= e.first[0]) cs.resize(e.first[0] + 1); cs[e.first[0]] = e.second; } }
					carl::UnivariatePolynomial<Q> u(pv.vars[0], cs);
					os << carl::asSMTLIB(carl::UnivariatePolynomial<Q>(u));
				} else os << carl::asSMTLIB(build(x));
				std::string out = os.str();
				Quiet q;
				SIM_LOG("t" << t << " writes the polynomial " << out);
				std::vector<Sx> y = read_all(out);
				SIM_CHECK(y.size() == 1, "malformed", "not one expression: " + out);
				V g = eval(y[0], nullptr);
				for (unsigned w = 0; w < K; ++w) SIM_CHECK(g.kind == V::NUM && g.q[w] == pm_eval(x, points[w]), "wrong-meaning", "the polynomial " + pm_show(x) + " is written as " + out);
			}
		} else if (r.chance(0.5)) { // a model
			carl::Model<Q, Poly> m;
			std::map<std::string, std::pair<std::string, Q>> want;
			unsigned w = (unsigned)r.below(K);
			for (std::size_t i = 0; i < 4; ++i) {
				if (r.chance(0.6)) {
					Q v;
					{ Quiet q; v = points[w][i]; want[names[i]] = {pv.vars[i].type() == carl::VariableType::VT_INT ? "Int" : "Real", v}; }
					m.assign(pv.vars[i], v);
				}
				if (r.chance(0.4)) {
					bool b = (bmask[i] >> w) & 1;
					{ Quiet q; want[bnames[i]] = {"Bool", Q(b ? 1 : 0)}; }
					m.assign(bools[i], b);
				}
			}
			carl::SMTLIBStream ss;
			ss << m;
			std::string out = ss.str();
			Quiet q;
			SIM_LOG("t" << t << " writes the model " << out);
			std::vector<Sx> x = read_all(out);
			SIM_CHECK(x.size() == 1 && x[0].list && !x[0].kids.empty() && x[0].kids[0].atom == "model" && x[0].kids.size() == want.size() + 1, "malformed", "not a model of the assigned variables: " + out);
			for (std::size_t i = 1; i < x[0].kids.size(); ++i) {
				const Sx& d = x[0].kids[i];
				SIM_CHECK(d.kids.size() == 5 && d.kids[0].atom == "define-fun" && d.kids[2].list && d.kids[2].kids.empty(), "malformed", "not a definition: " + d.show());
				auto it = want.find(d.kids[1].atom);
				SIM_CHECK(it != want.end(), "wrong-meaning", "unassigned or repeated in the model: " + d.show());
				SIM_CHECK(d.kids[3].atom == it->second.first, "wrong-sort", d.show());
				V v = eval(d.kids[4], nullptr);
				SIM_CHECK(it->second.first == "Bool" ? v.kind == V::BOOL && v.m == (it->second.second == 1 ? ALLW : 0) : v.kind == V::NUM && v.q[0] == it->second.second, "wrong-meaning", "the model has " + d.show() + ", assigned was " + it->second.second.get_str());
				want.erase(it);
			}
		} else { // replace a shared formula: the writers keep their copies
			Val v;
			leaf(r, v);
			std::lock_guard<std::mutex> g(mx);
			std::swap(shared[r.below(shared.size())], v);
		}
		std::lock_guard<std::mutex> g(mx);
		Quiet q;
		std::uint64_t h = (std::uint64_t)k;
		for (auto& v : shared) h = h * 1099511628211ull ^ v.m;
		state(h);
		observe(h);
	}
	void task_end(int t) override { for (auto& v : slots[t]) v.f = F(FormulaType::FALSE); }
	void finish() override { for (auto& v : shared) v.f = F(FormulaType::FALSE); }
};
}
namespace sim { Harness* make_harness() { return new H; } }

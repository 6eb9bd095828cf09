// Infix text: each client keeps a reader that remembers its variables, and reads polynomials, quotients and Boolean formulas.
// build-flags: -include @VERIF@/harness/cocoa_stub.h -DNDEBUG
// (the consistency assertions of the library allocate inside noexcept functions; the harness checks the normal form itself)
#include "poly_model.h"
#include <carl/core/UnivariatePolynomial.h>
#include <carl/util/parser/Parser.h>
#include <mutex>

using namespace sim;
namespace sim { const char* const harness_name = "infix"; }

namespace {
using sim::operator+;
using sim::operator-;
using sim::operator*;
using Reader = carl::parser::Parser<Poly>;
using Formula = carl::Formula<Poly>;
using FT = carl::FormulaType;
using RF = carl::RationalFunction<Poly>;
constexpr unsigned NB = 4;

struct NullBuf : std::streambuf {
	int overflow(int c) override { return c; }
} null_buf;

struct H : Harness {
	std::vector<std::string> names, bools;
	std::unique_ptr<Reader> readers[MAXT + 1];
	PolyVars pv, own[MAXT + 1];
	std::size_t lim = 0; // names in use for the text being written
	std::vector<carl::Variable> bv;
	/// A client may leave its Boolean names undeclared; the reader then makes the variables up.
	bool declared[MAXT + 1] = {};
	carl::Variable seen[MAXT + 1][NB];

	void configure(Rng& r, Config& c, bool faults) override {
		c.preempt = false;
		c.step_cap = 60'000'000;
		c.ntasks = (int)r.range(1, 3);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(2, r.chance(0.1) ? 24 : 8);
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.0005, 0.005, 0.05});
			c.max_faults = (int)r.range(1, 6);
		}
	}
	void setup(Rng& r) override {
		std::cout.rdbuf(&null_buf);
		names = pick_from<std::vector<std::string>>(r, {{"x", "y", "z"}, {"x", "x1", "x12", "x_2"}, {"var", "Y", "a.b"}});
		names.push_back("nn"); // these two are never declared
		names.push_back("Mm");
		bools = {"p", "p1", "qq", "s_2"};
		for (std::size_t i = 0; i + 2 < names.size(); ++i) pv.vars.push_back(carl::freshRealVariable(names[i]));
		for (auto& n : bools) bv.push_back(carl::freshBooleanVariable(n));
		Formula f(FT::TRUE);
	}
	// --- polynomials
	std::string blank(Rng& r) { return r.chance(0.3) ? pick_from<const char*>(r, {" ", "  ", "\t"}) : ""; }
	std::string number(Rng& r, Q& c) {
		int k = (int)r.below(20);
		if (k == 0) { c = Q(5, 2); return "2.5"; }
		if (k == 1) { c = Q(1, 4); return "0.25"; }
		if (k == 2) { c = Q(123456789) * 1000000007; return c.get_str(); }
		if (k == 3) { c = 0; return "0"; }
		c = r.range(1, 9);
		return c.get_str();
	}
	std::string term(Rng& r, PM& x) {
		std::string s;
		Q c = 1;
		bool num = r.chance(0.5);
		if (num) s = number(r, c);
		Exps e{};
		int k = (int)r.below(num ? 3 : 4);
		if (!num && k == 0) k = 1;
		for (int i = 0; i < k; ++i) {
			std::size_t v = r.below(lim);
			unsigned d = (unsigned)r.range(1, 3);
			if (i || (num && r.chance(0.6))) s += blank(r) + "*" + blank(r);
			else if (num) s += " ";
			s += names[v];
			if (d > 1) s += blank(r) + "^" + blank(r) + std::to_string(d);
			e[v] = (unsigned char)(e[v] + d);
		}
		x = pm_term(e, c);
		return s;
	}
	std::string atom(Rng& r, int depth, PM& x) {
		if (depth > 0 && r.chance(0.3)) {
			std::string s = "(" + blank(r) + sum(r, depth - 1, x) + blank(r);
			return s + ")";
		}
		return term(r, x);
	}
	std::string product(Rng& r, int depth, PM& x) {
		std::string s = atom(r, depth, x);
		while (r.chance(0.25) && pm_deg(x) < 12) {
			PM y;
			s += blank(r) + "*" + blank(r);
			s += atom(r, depth, y);
			x = x * y;
		}
		return s;
	}
	std::string sum(Rng& r, int depth, PM& x) {
		std::string s;
		if (r.chance(0.1)) { // a sign in front
			s = "-" + blank(r) + product(r, depth, x);
			x = pm_const(0) - x;
		} else s = product(r, depth, x);
		for (int i = (int)r.below(4); i > 0; --i) {
			PM y;
			bool minus = r.chance(0.4);
			s += blank(r) + (minus ? "-" : "+") + blank(r);
			s += product(r, depth, y);
			x = minus ? x - y : x + y;
		}
		return s;
	}
	// --- formulas; the value is a truth table over NB variables
	static unsigned column(unsigned b) { unsigned m = 0; for (unsigned a = 0; a < (1u << NB); ++a) if ((a >> b) & 1) m |= 1u << a; return m; }
	std::string formula(Rng& r, int depth, unsigned& x) {
		constexpr unsigned all = (1u << (1u << NB)) - 1;
		if (depth == 0 || r.chance(0.2)) {
			unsigned b = (unsigned)r.below(NB);
			x = column(b);
			return r.chance(0.15) ? "(" + blank(r) + bools[b] + blank(r) + ")" : bools[b];
		}
		unsigned y;
		std::string a = formula(r, depth - 1, x);
		switch (r.below(6)) {
		case 0: x = all & ~x; return std::string("(") + (r.chance(0.5) ? "not " : "NOT ") + a + ")";
		case 1: { std::string b = formula(r, depth - 1, y); x = (all & ~x) | y; return "(" + a + " IMPLIES " + b + ")"; }
		case 2: { std::string b = formula(r, depth - 1, y); x = all & ~(x ^ y); return "(" + a + " iff " + b + ")"; }
		case 3: { std::string b = formula(r, depth - 1, y); x = x ^ y; return "(" + a + " xor  " + b + blank(r) + ")"; }
		default: {
			bool conj = r.chance(0.5);
			std::string s = "(" + a;
			for (int i = (int)r.range(1, 3); i > 0; --i) {
				s += conj ? " AND " : " OR ";
				s += formula(r, depth - 1, y);
				x = conj ? x & y : x | y;
			}
			return s + ")";
		}
		}
	}
	static bool holds(const Formula& f, const std::vector<carl::Variable>& vars, unsigned a) {
		switch (f.getType()) {
		case FT::TRUE: return true;
		case FT::FALSE: return false;
		case FT::BOOL:
			for (unsigned i = 0; i < NB; ++i) if (vars[i] == f.boolean()) return (a >> i) & 1;
			SIM_CHECK(false, "wrong-result", "a formula mentions a variable that was not written");
			return false;
		case FT::NOT: return !holds(f.subformula(), vars, a);
		case FT::IMPLIES: return !holds(f.premise(), vars, a) || holds(f.conclusion(), vars, a);
		case FT::AND: for (auto& g : f.subformulas()) if (!holds(g, vars, a)) return false; return true;
		case FT::OR: for (auto& g : f.subformulas()) if (holds(g, vars, a)) return true; return false;
		case FT::XOR: { bool b = false; for (auto& g : f.subformulas()) b ^= holds(g, vars, a); return b; }
		case FT::IFF: {
			std::size_t n = 0, h = 0;
			for (auto& g : f.subformulas()) { ++n; if (holds(g, vars, a)) ++h; }
			return h == 0 || h == n;
		}
		default: SIM_CHECK(false, "wrong-result", "unexpected kind of formula"); return false;
		}
	}
	static void collect(const Formula& f, std::vector<carl::Variable>& out) {
		if (f.getType() == FT::BOOL) out.push_back(f.boolean());
		else if (f.getType() == FT::NOT) collect(f.subformula(), out);
		else if (f.getType() == FT::IMPLIES) { collect(f.premise(), out); collect(f.conclusion(), out); }
		else if (f.isNary()) for (auto& g : f.subformulas()) collect(g, out);
	}
	Reader& rd0(int t) { return *readers[t]; }
	void op(int t, int, Rng& r) override {
		if (!readers[t]) {
			readers[t].reset(new Reader);
			for (auto v : pv.vars) readers[t]->addVariable(v);
			own[t] = pv;
			if (r.chance(0.5)) for (std::size_t i = names.size() - 2; i < names.size(); ++i) {
				Poly p = r.chance(0.5) ? rd0(t).polynomial(names[i]) : rd0(t).polynomial("2*" + names[i] + "^3 + 1 ");
				SIM_CHECK(p.isUnivariate(), "wrong-result", "a new name is not read as a variable");
				carl::Variable v = p.getSingleVariable();
				SIM_CHECK(pv.index(v) == 999 && v.type() == carl::VariableType::VT_REAL, "wrong-result", "a new name is not read as a new real variable");
				own[t].vars.push_back(v);
			}
			declared[t] = r.chance(0.7);
			if (declared[t]) for (unsigned i = 0; i < NB; ++i) readers[t]->addVariable(seen[t][i] = bv[i]);
			else for (unsigned i = 0; i < NB; ++i) { // longest names first: a declared name may not be the start of a new one
				unsigned b = NB - 1 - i;
				Formula f = readers[t]->formula(bools[b]);
				SIM_CHECK(f.getType() == FT::BOOL, "wrong-result", "a new name is not read as a variable");
				seen[t][b] = f.boolean();
				SIM_CHECK(f.boolean().type() == carl::VariableType::VT_BOOL, "wrong-result", "a new name in a formula is not Boolean");
			}
		}
		Reader& rd = *readers[t];
		PM x, y;
		std::string s;
		unsigned what = (unsigned)r.below(10);
		std::uint64_t h = what;
		if (what < 5) {
			{
				Quiet q;
				lim = own[t].vars.size();
				s = sum(r, (int)r.below(3), x);
				SIM_LOG("t" << t << " reads \"" << s << "\" as " << pm_show(x));
			}
			Poly p;
			try {
				Faulty f;
				p = rd.polynomial(s);
			} catch (const std::bad_alloc&) {
				return;
			}
			pm_check(own[t], p, x, "polynomial read");
			h = pm_hash(x);
		} else if (what < 7) {
			bool den = r.chance(0.6);
			{
				Quiet q;
				lim = pv.vars.size();
				s = sum(r, 1, x);
				y = pm_const(1);
				if (den) {
					std::string d = sum(r, 1, y);
					if (y.empty()) { y = pm_const(1); den = false; }
					else s += blank(r) + "/" + blank(r) + d;
				}
				SIM_LOG("t" << t << " reads the quotient \"" << s << "\"");
			}
			RF f;
			try {
				Faulty g;
				f = rd.rationalFunction(s);
			} catch (const std::bad_alloc&) {
				return;
			}
			Poly np = f.nominator(), dp = f.denominator();
			PM n = pm_read(pv, np, "numerator read"), d = pm_read(pv, dp, "denominator read");
			Quiet q;
			SIM_CHECK(n * y == d * x && !d.empty(), "wrong-result", "quotient read: got " << pm_show(n) << " over " << pm_show(d) << ", expected " << pm_show(x) << " over " << pm_show(y));
			h = pm_hash(x) ^ pm_hash(y) * 3;
		} else {
			unsigned table;
			{
				Quiet q;
				s = formula(r, (int)r.below(4), table);
				SIM_LOG("t" << t << " reads the formula \"" << s << "\"");
			}
			Formula f;
			try {
				Faulty g;
				f = rd.formula(s);
			} catch (const std::bad_alloc&) {
				return;
			}
			std::vector<carl::Variable> vars(seen[t], seen[t] + NB);
			for (unsigned a = 0; a < (1u << NB); ++a) {
				bool got = holds(f, vars, a);
				SIM_CHECK(got == (bool)((table >> a) & 1), "wrong-result", "formula read has another value under assignment " << a);
			}
			h = table;
		}
		Quiet q;
		observe(h);
		state(h * 31 + what);
	}
	void task_end(int t) override { readers[t].reset(); }
};
}
namespace sim { Harness* make_harness() { return new H; } }

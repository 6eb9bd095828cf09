// Polynomials and rational functions as text: shared and private readers, printed and hand written input.
// build-flags: -DNDEBUG
// (the consistency assertions of the library allocate inside noexcept functions; the harness checks the normal form itself)
#include "poly_model.h"
#include <carl/core/UnivariatePolynomial.h>
#include <carl/util/stringparser.h>
#include <mutex>

using namespace sim;
namespace sim { const char* const harness_name = "text"; }

namespace {
using sim::operator+;
using sim::operator-;
using sim::operator*;
using RF = carl::RationalFunction<Poly>;

struct H : Harness {
	std::vector<std::string> names;
	std::unique_ptr<carl::StringParser> shared;
	PolyVars spv;
	std::mutex mx;
	std::vector<std::pair<std::string, PM>> board; // text left by some client

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(2, r.chance(0.1) ? 16 : 7);
		c.step_cap = 40'000'000;
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.0, 0.0005, 0.005});
			c.max_faults = (int)r.range(1, 6);
		}
	}
	static void declare(carl::StringParser& p, PolyVars& pv, const std::vector<std::string>& names) {
		p.setVariables(std::list<std::string>(names.begin(), names.end()));
		pv.vars.clear();
		for (auto& n : names) pv.vars.push_back(p.variables().at(n));
	}
	void setup(Rng& r) override {
		std::vector<std::string> all = r.chance(0.4) ? std::vector<std::string>{"x", "y", "z", "a"} : std::vector<std::string>{"x", "x1", "x12", "yy", "e", "Z_1"};
		for (std::size_t i = 0, n = (std::size_t)r.range(1, (long)all.size()); i < n; ++i) names.push_back(all[i]);
		std::sort(names.begin(), names.end()); // readers number their variables in this order
		shared.reset(new carl::StringParser);
		declare(*shared, spv, names);
		shared->parseMultivariatePolynomial<Q>("3*" + names[0] + "^2 + 1/2*" + names[0]);
		shared->parseRationalFunction<Q>(names[0] + "^2/2");
		std::ostringstream os;
		os << Poly(spv.vars[0]);
	}
	static std::string space(Rng& r) { return r.chance(0.2) ? pick_from<const char*>(r, {"  ", "\t", "\n", ""}) : " "; }
	std::string number(Rng& r, Q c, bool frac) {
		std::string s = c.get_str();
		if (frac && c.get_den() == 1 && r.chance(0.1)) s += "/1";
		if (c.get_den() == 1 && r.chance(0.05)) s += ".0";
		if (c == Q(1, 2) && r.chance(0.5)) s = r.chance(0.5) ? "0.5" : ".5";
		if (c == Q(-5, 2) && r.chance(0.5)) s = "-2.5";
		if (r.chance(0.2)) s = "(" + s + ")";
		return s;
	}
	/// One summand, its factors in any order.
	std::string term(Rng& r, const Exps& e, const Q& c, bool frac) {
		std::vector<std::string> f;
		for (std::size_t i = 0; i < names.size(); ++i) if (e[i] || r.chance(0.02)) f.push_back(names[i] + (e[i] != 1 || r.chance(0.1) ? "^" + std::to_string((int)e[i]) : ""));
		if (c != 1 || f.empty() || r.chance(0.3)) {
			if (c.get_den() == 1 && r.chance(0.15)) {
				f.push_back(number(r, c * 3, frac));
				f.push_back(frac ? "1/3" : "1");
				if (!frac) f[f.size() - 2] = number(r, c, false);
			} else f.push_back(number(r, c, frac));
			if (r.chance(0.7)) std::rotate(f.begin(), f.end() - 1, f.end());
		}
		if (r.chance(0.4)) for (std::size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[r.below(i)]);
		std::string s;
		for (auto& x : f) s += (s.empty() ? "" : "*") + x;
		return s;
	}
	std::string write(Rng& r, const PM& x, bool frac = true) {
		std::vector<std::string> ts;
		for (auto& t : x) {
			if (r.chance(0.15)) { // the same monomial more than once
				Q d = Q(r.range(1, 4));
				ts.push_back(term(r, t.first, t.second - d, frac));
				ts.push_back(term(r, t.first, d, frac));
			} else ts.push_back(term(r, t.first, t.second, frac));
		}
		if (ts.empty() || r.chance(0.05)) ts.push_back("0");
		for (std::size_t i = ts.size(); i > 1; --i) std::swap(ts[i - 1], ts[r.below(i)]);
		std::string s = r.chance(0.1) ? " " : "";
		for (std::size_t i = 0; i < ts.size(); ++i) s += (i ? space(r) + "+" + space(r) : "") + ts[i];
		return s + (r.chance(0.1) ? " " : "");
	}
	PM integral(Rng& r) {
		PM x = pm_random(r, names.size(), 3, 4), y;
		for (auto& t : x) pm_add(y, t.first, Q(t.second.get_num()));
		return y;
	}
	/// Text that denotes nothing.
	std::string flawed(Rng& r, std::string s) {
		std::string v = names[r.below(names.size())];
		const std::string bad[] = {v + "^" + v, v + "^2^2", v + "^", "^2", "nope", "nope^2", "3^3", v + "*", "*" + v, "", "3" + v + "q", v + "^1.5", v + "^-1", v + "*2*" + v, v + "^2*" + v + "^3", v + "*" + v, "2//3*" + v, "(3*" + v, "3-", "#", "1/2/3", v + " " + v, "--1", "()", "("};
		std::string b = bad[r.below(sizeof bad / sizeof *bad)];
		return r.chance(0.5) ? s + " + " + b : b + " + " + s;
	}
	void op(int t, int, Rng& r) override {
		int what = (int)r.below(10);
		bool own = r.chance(0.25);
		PM x, y;
		std::string s;
		bool taken = false;
		{
			Quiet q;
			x = pm_random(r, names.size(), (unsigned)r.range(0, 4), (unsigned)r.range(1, r.chance(0.05) ? 14 : 5));
			s = write(r, x);
		}
		if (what == 0) { // somebody else's text
			std::lock_guard<std::mutex> g(mx);
			Quiet q;
			if (!board.empty()) { auto& b = board[r.below(board.size())]; s = b.first; x = b.second; taken = true; }
		}
		std::unique_ptr<carl::StringParser> mine;
		PolyVars pv = spv;
		if (own) {
			mine.reset(new carl::StringParser);
			declare(*mine, pv, names);
		}
		const carl::StringParser& sp = own ? *mine : *shared;
		if (what <= 4) {
			Poly p;
			bool ok = false;
			{ Quiet q; SIM_LOG("t" << t << (taken ? " taken" : "") << " reads \"" << s << "\" as " << pm_show(x)); }
			try {
				Faulty f;
				p = sp.parseMultivariatePolynomial<Q>(s);
				ok = true;
			} catch (const std::bad_alloc&) {
			} catch (const carl::InvalidInputStringException&) {
				SIM_CHECK(faults_in_op() > 0, "rejected", "text of a polynomial rejected");
			}
			if (ok) {
				pm_check(pv, p, x, "polynomial read");
				std::ostringstream os;
				Poly c(p);
				os << c;
				std::string out = os.str();
				{ Quiet q; SIM_LOG("t" << t << " printed \"" << out << "\""); }
				Poly back = sp.parseMultivariatePolynomial<Q>(out);
				pm_check(pv, back, x, "printed polynomial read again");
				SIM_CHECK(back == p, "wrong-result", "printed polynomial is a different one when read again");
				std::lock_guard<std::mutex> g(mx);
				Quiet q;
				if (board.size() < 8) board.emplace_back(out, x);
			}
		} else if (what == 5) { // a single term
			Exps e{};
			Q c;
			{
				Quiet q;
				for (int k = (int)r.below(5); k > 0; --k) ++e[r.below(names.size())];
				c = pm_rational(r, true);
				s = term(r, e, c, true);
				SIM_LOG("t" << t << " reads the term \"" << s << "\"");
			}
			try {
				PTerm got;
				{ Faulty f; got = sp.parseTerm<Q>(s); }
				Exps ge = pm_exps(pv, got.monomial());
				SIM_CHECK(got.coeff() == c && ge == e, "wrong-result", "term read");
				if (c != 0) {
					std::ostringstream os;
					os << got;
					PTerm back = sp.parseTerm<Q>(os.str());
					SIM_CHECK(back == got, "wrong-result", "printed term is a different one when read again");
				}
			} catch (const std::bad_alloc&) {
			} catch (const carl::InvalidInputStringException&) {
				SIM_CHECK(faults_in_op() > 0, "rejected", "text of a term rejected");
			}
		} else if (what <= 7) { // rational function
			{
				Quiet q;
				x = integral(r);
				y = integral(r);
				s = write(r, x, false);
				bool den = r.chance(0.7);
				if (den) s += "/" + write(r, y, false);
				else y = pm_const(1);
				SIM_LOG("t" << t << " reads \"" << s << "\" as a quotient");
			}
			try {
				RF f;
				{ Faulty g; f = sp.parseRationalFunction<Q>(s); }
				SIM_CHECK(!y.empty(), "accepted", "quotient by zero read");
				PM n = pm_read(pv, f.nominator(), "numerator read"), d = pm_read(pv, f.denominator(), "denominator read");
				Quiet q;
				SIM_CHECK(n * y == d * x && !d.empty(), "wrong-result", "quotient read: got " << pm_show(n) << " over " << pm_show(d));
			} catch (const std::bad_alloc&) {
			} catch (const carl::InvalidInputStringException&) {
				SIM_CHECK(faults_in_op() > 0 || y.empty(), "rejected", "text of a quotient rejected");
			}
		} else { // not a polynomial
			bool quo = r.chance(0.2);
			{
				Quiet q;
				s = flawed(r, quo ? write(r, integral(r), false) : s);
				if (quo) s += r.chance(0.5) ? "/2" : "/2/3";
				SIM_LOG("t" << t << " reads the flawed \"" << s << "\"" << (quo ? " as a quotient" : ""));
			}
			bool threw = false;
			try {
				Faulty f;
				if (quo) sp.parseRationalFunction<Q>(s);
				else sp.parseMultivariatePolynomial<Q>(s);
			} catch (const std::bad_alloc&) {
				threw = true;
			} catch (const carl::InvalidInputStringException& e) {
				threw = true;
				SIM_CHECK(faults_in_op() > 0 || std::string(e.what()).size() > 4, "message", "the refusal says nothing");
			}
			SIM_CHECK(threw, "accepted", "text that is not a polynomial was read as one");
		}
		Quiet q;
		observe(pm_hash(x));
		state((std::uint64_t)what * 1000003u ^ pm_hash(x));
	}
	void finish() override {
		for (auto& b : board) {
			Poly p = shared->parseMultivariatePolynomial<Q>(b.first);
			pm_check(spv, p, b.second, "text read at the end");
		}
	}
};
}
namespace sim { Harness* make_harness() { return new H; } }

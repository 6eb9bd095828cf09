// Groebner bases: any order and batching of generators, reuse, copies and several computations at once, against a
// reference computation of the reduced basis.
// build-flags: -DNDEBUG
// (the consistency assertions of the library allocate inside noexcept functions; the harness checks the results itself)
#include "poly_model.h"
#include <carl/groebner/groebner.h>

using namespace sim;
using carl::Monomial;
using carl::Variable;

namespace sim { const char* const harness_name = "groebner"; }

namespace {
using Proc = carl::GBProcedure<Poly, carl::Buchberger, carl::StdAdding>;
using PIdeal = carl::Ideal<Poly>;
using Basis = std::vector<PM>; // monic, sorted by leading monomial

/// Effort of the reference computation; computations that exceed it are not given to the library.
struct Effort {
	long left;
	bool spend(const PM& p) {
		left -= (long)p.size() + 1;
		for (auto& t : p) if (mpz_sizeinbase(t.second.get_num_mpz_t(), 2) > 600 || pm_tdeg(t.first) > 24) left = -1;
		return left > 0;
	}
};

PM monic(const PM& p) { return p.empty() ? p : pm_scale(p, 1 / p.at(pm_lead(p))); }

/// Normal form; all elements of g are monic.
PM normal_form(PM p, const Basis& g, Effort& ef) {
	PM rem;
	while (!p.empty() && ef.spend(p)) {
		Exps l = pm_lead(p);
		Q c = p[l];
		bool hit = false;
		for (auto& b : g) {
			Exps lb = pm_lead(b);
			if (!pm_divides(lb, l)) continue;
			p = p - pm_term(pm_quot(l, lb), c) * b;
			hit = true;
			break;
		}
		if (!hit) {
			pm_add(rem, l, c);
			p.erase(l);
		}
	}
	return rem;
}

/// The reduced Groebner basis of the ideal generated by in. False if too expensive.
bool reduced_basis(const std::vector<PM>& in, Basis& out, Effort& ef) {
	Basis g;
	std::vector<std::pair<std::size_t, std::size_t>> pairs;
	auto add = [&](const PM& p) {
		g.push_back(monic(p));
		for (std::size_t i = 0; i + 1 < g.size(); ++i) pairs.emplace_back(i, g.size() - 1);
	};
	for (auto& p : in) {
		PM n = normal_form(p, g, ef);
		if (ef.left <= 0) return false;
		if (!n.empty()) add(n);
	}
	while (!pairs.empty()) {
		std::size_t best = 0;
		unsigned bd = ~0u;
		for (std::size_t k = 0; k < pairs.size(); ++k) {
			unsigned d = pm_tdeg(pm_lcm(pm_lead(g[pairs[k].first]), pm_lead(g[pairs[k].second])));
			if (d < bd) { bd = d; best = k; }
		}
		auto pr = pairs[best];
		pairs.erase(pairs.begin() + (long)best);
		Exps a = pm_lead(g[pr.first]), b = pm_lead(g[pr.second]), l = pm_lcm(a, b);
		if (pm_tdeg(l) == pm_tdeg(a) + pm_tdeg(b)) continue; // coprime
		PM s = g[pr.first] * pm_term(pm_quot(l, a), 1) - g[pr.second] * pm_term(pm_quot(l, b), 1);
		PM n = normal_form(s, g, ef);
		if (ef.left <= 0) return false;
		if (!n.empty()) {
			if (pm_deg(n) == 0) { out.assign(1, pm_const(1)); return true; }
			add(n);
		}
	}
	Basis m;
	for (std::size_t i = 0; i < g.size(); ++i) {
		bool drop = false;
		for (std::size_t j = 0; j < g.size() && !drop; ++j) if (j != i) {
			Exps a = pm_lead(g[i]), b = pm_lead(g[j]);
			drop = pm_divides(b, a) && (a != b || j < i);
		}
		if (!drop) m.push_back(g[i]);
	}
	out.clear();
	for (std::size_t i = 0; i < m.size(); ++i) {
		Basis others;
		for (std::size_t j = 0; j < m.size(); ++j) if (j != i) others.push_back(m[j]);
		out.push_back(monic(normal_form(m[i], others, ef)));
		if (ef.left <= 0) return false;
	}
	std::sort(out.begin(), out.end(), [](const PM& a, const PM& b) { return pm_less(pm_lead(a), pm_lead(b)); });
	return true;
}

struct Slot {
	std::unique_ptr<Proc> p;
	Basis basis;               // of what has been calculated
	std::vector<PM> scheduled; // added and not yet calculated
	std::size_t added = 0;
	bool reduced = false;      // the scheduled input has been reduced since the last addition
};

struct H : Harness {
	std::size_t nvars = 2, nslots = 2;
	unsigned maxdeg = 3, maxterms = 3;
	long effort = 1500;
	bool consistent = false; // most generators have a common zero, so that the bases are interesting
	PolyVars pv;
	std::vector<Slot> slots[MAXT];
	struct Gens { // a generator set that is edited directly
		std::unique_ptr<PIdeal> i;
		std::vector<PM> gens;
		std::set<std::size_t> gone;
	};
	Gens own[MAXT];
	std::vector<PM> exch; // generators shared by all threads
	std::mutex shared_mutex;
	PIdeal shared_ideal; // an ideal that every thread reads
	Basis shared_gens;

	void configure(Rng& r, Config& c, bool faults) override {
		nvars = r.range(1, 4);
		maxdeg = (unsigned)r.range(1, 3);
		maxterms = (unsigned)r.range(1, 4);
		nslots = r.range(1, 3);
		consistent = r.chance(0.7);
		effort = r.chance(0.2) ? 8000 : 2000;
		c.ntasks = r.chance(0.4) ? 1 : (int)r.range(2, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(3, c.ntasks == 1 ? 36 : 12);
		c.step_cap = 4000000;
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.001, 0.01});
			c.rate[F_STALL] = 0.005;
		}
	}
	void setup(Rng& r) override {
		for (std::size_t i = 0; i < nvars; ++i) {
			Variable v = carl::freshRealVariable();
			Quiet q;
			pv.vars.push_back(v);
		}
		{
			Quiet q;
			for (auto& s : slots) s.resize(nslots);
		}
		for (int t = 1; t < MAXT; ++t) for (auto& s : slots[t]) s.p = std::make_unique<Proc>();
		{
			Quiet q;
			for (int i = 0; i < 3; ++i) exch.push_back(pm_random(r, nvars, maxdeg, maxterms));
			for (std::size_t i = r.range(0, 3); i > 0; --i) {
				PM x = monic(pm_random(r, nvars, maxdeg, maxterms));
				if (!x.empty() && pm_deg(x) > 0) shared_gens.push_back(x);
			}
		}
		for (auto& x : shared_gens) {
			Poly p = build(r, x);
			shared_ideal.addGenerator(p);
		}
		Poly a(pv.vars[0]), b(pv.vars[0]);
		b += Q(1);
		SIM_CHECK(!(a == b), "wrong-result", "x == x + 1");
	}
	Poly build(Rng& r, const PM& x) {
		std::vector<std::pair<Exps, Q>> ts;
		{
			Quiet q;
			for (auto& t : x) ts.push_back(t);
			for (std::size_t i = ts.size(); i > 1; --i) std::swap(ts[i - 1], ts[r.below(i)]);
		}
		std::vector<PTerm> v;
		for (auto& t : ts) {
			std::vector<std::pair<Variable, carl::exponent>> c;
			for (std::size_t i = 0; i < nvars; ++i) if (t.first[i]) c.emplace_back(pv.vars[i], t.first[i]);
			Monomial::Arg m = c.empty() ? nullptr : carl::createMonomial(std::move(c));
			v.emplace_back(t.second, m);
		}
		return Poly(std::move(v));
	}
	static std::string show(const std::vector<PM>& b) {
		std::string s = "{";
		for (auto& p : b) { if (s.size() > 1) s += ", "; s += pm_show(p); }
		return s + "}";
	}
	/// The basis that a procedure reports is the expected one.
	void check_basis(const std::vector<Poly>& got, const Basis& want, const char* what) {
		Quiet q;
		Basis g;
		for (auto& p : got) g.push_back(pm_read(pv, p, what));
		std::sort(g.begin(), g.end(), [](const PM& a, const PM& b) {
			if (a.empty() || b.empty()) return a.size() < b.size();
			return pm_less(pm_lead(a), pm_lead(b));
		});
		SIM_CHECK(g == want, "wrong-basis", what << ": got " << show(g) << ", expected " << show(want));
	}
	void check_all(int t) {
		std::uint64_t h = 0;
		for (auto& s : slots[t]) {
			if (!s.p) continue;
			check_basis(s.p->getBasisPolynomials(), s.basis, "held basis");
			Quiet q;
			SIM_CHECK(s.p->inputEmpty() == s.scheduled.empty() || s.reduced, "wrong-result", "inputEmpty");
			for (auto& p : s.basis) h = mix(h, pm_hash(p));
			h = mix(h, s.scheduled.size());
		}
		state(h);
	}
	PM gen_input(Rng& r, const Slot& s) {
		PM x = gen_any(r, s);
		if (consistent && !r.chance(0.03)) x.erase(Exps{});
		return x;
	}
	PM gen_any(Rng& r, const Slot& s) {
		unsigned k = (unsigned)r.below(16);
		if (k == 0) return PM();
		if (k == 1) return pm_const(pm_rational(r));
		if (k <= 4) return exch[r.below(exch.size())];
		if (k <= 6 && !s.basis.empty()) { // in the ideal already
			PM x;
			for (auto& b : s.basis) if (r.chance(0.7)) {
				Exps e{};
				if (r.chance(0.5)) ++e[r.below(nvars)];
				x = x + b * pm_term(e, pm_rational(r));
			}
			return x;
		}
		if (k == 7 && !s.scheduled.empty()) return pm_scale(s.scheduled[r.below(s.scheduled.size())], pm_rational(r));
		if (k == 8 && !s.basis.empty()) return s.basis[r.below(s.basis.size())] + pm_random(r, nvars, 1, 1);
		return pm_random(r, nvars, maxdeg, maxterms);
	}
	/// what: basis of s.basis and s.scheduled
	bool expected(const Slot& s, Basis& out) {
		Quiet q;
		Effort ef{effort};
		std::vector<PM> in = s.basis;
		in.insert(in.end(), s.scheduled.begin(), s.scheduled.end());
		return reduced_basis(in, out, ef);
	}
	void discard(Slot& s) {
		std::unique_ptr<Proc> old;
		{ Quiet q; old.swap(s.p); s.basis.clear(); s.scheduled.clear(); s.added = 0; s.reduced = false; }
		old.reset();
		s.p = std::make_unique<Proc>();
	}
	/// Sets of generators: added, eliminated, compacted, copied and used for reductions.
	void ideal_op(int t, Rng& r) {
		Gens& g = own[t];
		if (!g.i) g.i = std::make_unique<PIdeal>();
		unsigned k = (unsigned)r.below(10);
		if (k <= 3 && g.gens.size() < 6) {
			PM x;
			{ Quiet q; do x = pm_random(r, nvars, maxdeg, maxterms); while (x.empty()); SIM_LOG("ideal: generator " << pm_show(x)); }
			Poly p = build(r, x);
			std::size_t i = g.i->addGenerator(p);
			Quiet q;
			g.gens.push_back(x);
			SIM_CHECK(i + 1 == g.gens.size(), "wrong-result", "index of a new generator");
		} else if (k == 4 && !g.gens.empty()) {
			std::size_t i = r.below(g.gens.size());
			SIM_LOG("ideal: eliminate " << i);
			g.i->eliminateGenerator(i);
			Quiet q;
			g.gone.insert(i);
		} else if (k == 5) {
			SIM_LOG("ideal: remove the eliminated");
			g.i->removeEliminated();
			Quiet q;
			std::vector<PM> left;
			for (std::size_t i = 0; i < g.gens.size(); ++i) if (!g.gone.count(i)) left.push_back(g.gens[i]);
			g.gens = left;
			g.gone.clear();
		} else if (k == 6) {
			SIM_LOG("ideal: copy");
			std::unique_ptr<PIdeal> n;
			n = std::make_unique<PIdeal>(*g.i);
			{
				Quiet q; // a copy holds what is left
				std::vector<PM> left;
				for (std::size_t i = 0; i < g.gens.size(); ++i) if (!g.gone.count(i)) left.push_back(g.gens[i]);
				g.gens = left;
				g.gone.clear();
				n.swap(g.i);
			}
			n.reset();
		} else if (k == 7 && r.chance(0.2)) {
			SIM_LOG("ideal: clear");
			g.i->clear();
			Quiet q;
			g.gens.clear();
			g.gone.clear();
		} else {
			PM x;
			std::vector<PM> left;
			Basis gb;
			{
				Quiet q;
				x = pm_random(r, nvars, maxdeg + 1, maxterms + 1);
				for (std::size_t i = 0; i < g.gens.size(); ++i) if (!g.gone.count(i)) left.push_back(g.gens[i]);
				Effort ef{effort};
				if (!reduced_basis(left, gb, ef)) return;
				SIM_LOG("ideal: reduce " << pm_show(x) << " by " << show(left));
			}
			Poly p = build(r, x);
			Poly res;
			{
				Faulty f;
				carl::Reductor<Poly, Poly> red(*g.i, p);
				res = red.fullReduce();
			}
			Quiet q;
			PM got = pm_read(pv, res, "reduced polynomial");
			for (auto& tt : got) for (auto& b : left) SIM_CHECK(!pm_divides(pm_lead(b), tt.first), "wrong-result", pm_show(got) << " is not reduced by " << show(left));
			Effort ef{20000};
			PM diff = normal_form(x - got, gb, ef);
			SIM_CHECK(ef.left <= 0 || diff.empty(), "wrong-result", "reducing " << pm_show(x) << " by " << show(left) << " gives " << pm_show(got));
		}
		check_list(g);
	}
	void check_list(const Gens& g) {
		Quiet q;
		SIM_CHECK(g.i->nrGenerators() == g.gens.size(), "wrong-result", "number of generators " << g.i->nrGenerators() << " instead of " << g.gens.size());
		for (std::size_t i = 0; i < g.gens.size(); ++i) {
			PM got = pm_read(pv, g.i->getGenerator(i), "generator");
			SIM_CHECK(got == g.gens[i], "wrong-result", "generator " << i << " is " << pm_show(got) << " instead of " << pm_show(g.gens[i]));
		}
	}
	void op(int t, int, Rng& r) override {
		Slot& s = slots[t][r.below(nslots)];
		bool failed = false, inside = false;
		int k = (int)r.below(24);
		if (s.scheduled.empty() && s.basis.empty() && r.chance(0.6)) k = 0;
		try {
			if (k <= 7) {
				PM x;
				{ Quiet q; x = gen_input(r, s); }
				Poly p = build(r, x);
				Faulty f;
				{ SIM_LOG("add " << pm_show(x)); }
				inside = true;
				s.p->addPolynomial(p);
				inside = false;
				Quiet q;
				s.scheduled.push_back(x);
				++s.added;
				s.reduced = false;
				SIM_CHECK(s.p->nrOrigGenerators() == s.added, "wrong-result", "number of generators added");
			} else if (k <= 11) {
				Basis want;
				if (!expected(s, want)) { { Quiet q; reach("too expensive"); } discard(s); return; }
				bool pre = r.chance(0.3);
				SIM_LOG("calculate" << (pre ? " after reducing the input" : "") << ", expected " << show(want));
				{
					Faulty f;
					inside = true;
					if (pre) s.p->reduceInput();
					s.p->calculate();
					inside = false;
				}
				{
					Quiet q;
					s.basis = want;
					s.scheduled.clear();
					s.reduced = false;
					SIM_CHECK(s.p->inputEmpty(), "wrong-result", "input left after the calculation");
					SIM_CHECK(s.p->basisIsConstant() == (want.size() == 1 && pm_deg(want[0]) == 0), "wrong-result", "basisIsConstant for " << show(want));
					if (want.size() == 1 && pm_deg(want[0]) == 0) reach("whole ring");
					else if (want.size() > 2) reach(want.size() > 4 ? "basis of five or more" : "basis of three or four");
				}
				check_basis(s.p->getBasisPolynomials(), want, "calculated basis");
			} else if (k == 12) { // reduce the scheduled input
				Basis want;
				if (!expected(s, want)) { discard(s); return; }
				SIM_LOG("reduceInput");
				Faulty f;
				inside = true;
				s.p->reduceInput();
				inside = false;
				s.reduced = true;
			} else if (k == 13) { // copy to another slot
				Slot& d = slots[t][r.below(nslots)];
				SIM_LOG("copy");
				bool assign = r.chance(0.5);
				if (&d == &s && !assign) return;
				std::unique_ptr<Proc> n;
				{
					Faulty f;
					if (assign) {
						n = std::make_unique<Proc>();
						if (r.chance(0.5)) { // assign over something that has content
							Poly p(pv.vars[0]);
							n->addPolynomial(p);
							if (r.chance(0.5)) n->calculate();
						}
						*n = *s.p;
					} else n = std::make_unique<Proc>(*s.p);
				}
				{
					Quiet q;
					n.swap(d.p);
					d.basis = s.basis;
					d.scheduled = s.scheduled;
					d.added = s.added;
					d.reduced = s.reduced;
				}
				n.reset();
			} else if (k == 14) { // start over with the same object
				if (!s.scheduled.empty()) return;
				SIM_LOG("reset");
				inside = true;
				{ Faulty f; s.p->reset(); }
				inside = false;
				Quiet q;
				s.basis.clear();
			} else if (k <= 16) { // the same ideal in another order and batching
				Basis want;
				if (s.scheduled.empty() || !expected(s, want)) return;
				std::vector<PM> in;
				{
					Quiet q;
					in = s.basis;
					in.insert(in.end(), s.scheduled.begin(), s.scheduled.end());
					for (std::size_t i = in.size(); i > 1; --i) std::swap(in[i - 1], in[r.below(i)]);
					SIM_LOG("from scratch " << show(in) << ", expected " << show(want));
				}
				std::vector<Poly> ps;
				for (auto& x : in) ps.push_back(build(r, x));
				Faulty f;
				Proc n;
				for (auto& p : ps) {
					n.addPolynomial(p);
					if (r.chance(0.2)) n.reduceInput();
					if (r.chance(0.3)) n.calculate();
				}
				n.calculate();
				check_basis(n.getBasisPolynomials(), want, "basis from scratch");
			} else if (k <= 18) { // normal form with respect to the basis
				PM x, want;
				{
					Quiet q;
					x = gen_input(r, s);
					Effort ef{effort};
					want = normal_form(x, s.basis, ef);
					if (ef.left <= 0) return;
					SIM_LOG("reduce " << pm_show(x) << " by " << show(s.basis));
				}
				Poly p = build(r, x);
				Faulty f;
				carl::Reductor<Poly, Poly> red(s.p->getIdeal(), p);
				Poly res = red.fullReduce();
				bool occ = red.reductionOccured();
				Quiet q;
				PM got = pm_read(pv, res, "normal form");
				SIM_CHECK(got == want, "wrong-result", "normal form of " << pm_show(x) << " by " << show(s.basis) << " is " << pm_show(got));
				bool can = false;
				for (auto& tt : x) for (auto& b : s.basis) can |= pm_divides(pm_lead(b), tt.first);
				SIM_CHECK(occ == can, "wrong-result", "reductionOccured for " << pm_show(x) << " by " << show(s.basis));
			} else if (k >= 20) {
				ideal_op(t, r);
			} else { // reduction by an ideal that all threads read
				PM x;
				Basis gb;
				{
					Quiet q;
					x = pm_random(r, nvars, maxdeg + 1, maxterms + 1);
					Effort ef{effort};
					if (!reduced_basis(shared_gens, gb, ef)) return;
					SIM_LOG("reduce " << pm_show(x) << " by the shared ideal " << show(shared_gens));
				}
				Poly p = build(r, x);
				Faulty f;
				Poly res;
				if (r.chance(0.7)) {
					carl::Reductor<Poly, Poly> red(shared_ideal, p);
					res = red.fullReduce();
				} else {
					PIdeal own(shared_ideal);
					carl::Reductor<Poly, Poly> red(own, p);
					res = red.fullReduce();
				}
				Quiet q;
				PM got = pm_read(pv, res, "reduced polynomial");
				for (auto& tt : got) for (auto& b : shared_gens) SIM_CHECK(!pm_divides(pm_lead(b), tt.first), "wrong-result", pm_show(got) << " is not reduced by " << show(shared_gens));
				Effort ef{20000};
				PM diff = normal_form(x - got, gb, ef);
				SIM_CHECK(ef.left <= 0 || diff.empty(), "wrong-result", "reducing " << pm_show(x) << " by " << show(shared_gens) << " gives " << pm_show(got));
			}
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "unexpected-exception", "bad_alloc without an allocation failure");
			failed = true;
			{ Quiet q; reach("allocation failure"); }
		}
		if (failed && inside) discard(s); // a computation that was cut off is abandoned; nothing else is affected
		check_all(t);
	}
	void finish() override {
		for (int t = 1; t < MAXT; ++t) for (auto& s : slots[t]) if (s.p) check_basis(s.p->getBasisPolynomials(), s.basis, "basis at the end");
		for (int t = 1; t < MAXT; ++t) own[t].i.reset();
		for (int t = 1; t < MAXT; ++t) for (auto& s : slots[t]) s.p.reset();
	}
};
} // namespace

namespace sim { Harness* make_harness() { return new H; } }

// DIMACS: files with several problems are imported over a faulty disk, exported clauses are read back.
// build-flags: -include @VERIF@/harness/cocoa_stub.h
#include "common.h"
#include <carl/core/MultivariatePolynomial.h>
#include <carl/formula/Formula.h>
#include <carl-io/DIMACSImporter.h>
#include <carl-io/DIMACSExporter.h>
#include <fstream>

using namespace sim;
namespace sim { const char* const harness_name = "dimacs"; }

namespace {
using Pol = carl::MultivariatePolynomial<mpq_class>;
using Formula = carl::Formula<Pol>;
using Clauses = std::vector<std::vector<int>>;

bool holds(const Clauses& c, unsigned a) {
	for (auto& cl : c) {
		bool sat = false;
		for (int l : cl) sat |= ((a >> (std::abs(l) - 1)) & 1) == (l > 0 ? 1u : 0u);
		if (!sat) return false;
	}
	return true;
}
bool holds(const Formula& f, const std::map<carl::Variable, int>& idx, unsigned a) {
	switch (f.getType()) {
	case carl::TRUE: return true;
	case carl::FALSE: return false;
	case carl::BOOL: {
		auto it = idx.find(f.boolean());
		SIM_CHECK(it != idx.end(), "content", "a formula has a variable that no clause has");
		return (a >> (it->second - 1)) & 1;
	}
	case carl::NOT: return !holds(f.subformula(), idx, a);
	case carl::AND: for (auto& s : f.subformulas()) if (!holds(s, idx, a)) return false; return true;
	case carl::OR: for (auto& s : f.subformulas()) if (holds(s, idx, a)) return true; return false;
	default: SIM_CHECK(false, "content", "unexpected kind of formula");
	}
	return false;
}

struct H : Harness {
	int files = 0;
	carl::Variable arith;
	void configure(Rng& r, Config& c, bool faults) override {
		c.preempt = false;
		c.step_cap = 20'000'000;
		c.ntasks = (int)r.range(1, 2);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(1, 3);
		if (faults) {
			c.rate[F_OPEN] = pick_from(r, {0.0, 0.2});
			c.rate[F_READ_SHORT] = pick_from(r, {0.0, 0.3, 0.9});
			c.rate[F_READ_EINTR] = pick_from(r, {0.0, 0.2});
			c.rate[F_READ_EIO] = pick_from(r, {0.0, 0.1});
		}
	}
	void setup(Rng&) override {
		Formula f(carl::FormulaType::TRUE);
		carl::freshBooleanVariable();
		arith = carl::freshRealVariable();
		Formula g(Pol(arith), carl::Relation::LESS);
	}
	Clauses random_clauses(Rng& r, int nv) {
		Clauses c;
		int n = (int)r.below(r.chance(0.05) ? 60 : 7);
		for (int i = 0; i < n; ++i) {
			std::vector<int> cl;
			int k = r.chance(0.03) ? 0 : (int)r.range(1, 4);
			for (int j = 0; j < k; ++j) cl.push_back((int)r.range(1, nv) * (r.chance(0.5) ? 1 : -1));
			c.push_back(cl);
		}
		return c;
	}
	void junk(Rng& r, std::ostream& os) {
		if (r.chance(0.15)) os << "c a comment " << std::string(r.chance(0.05) ? 9000 : r.below(30), '-') << "\n";
		if (r.chance(0.1)) os << "\n";
	}
	/// An import in progress: the importer and what the file holds.
	struct Import {
		std::unique_ptr<carl::DIMACSImporter<Pol>> im;
		std::vector<Clauses> problems;
		std::vector<int> unit; // which variable the problem introduces, 0 for none
		int nv = 0;
		std::string flaw;
		bool missing = false, bad_read = false, bad_open = false;
		std::size_t got = 0;
		std::map<carl::Variable, int> idx;
	};
	std::vector<std::unique_ptr<Import>> open[MAXT];

	static void blanks(Rng& r, std::ostream& os) { os << (r.chance(0.1) ? "   " : r.chance(0.05) ? "\t" : " "); }
	static void print(Rng& r, std::ostream& os, const std::vector<int>& cl) {
		if (r.chance(0.05)) blanks(r, os);
		for (int l : cl) { os << l; blanks(r, os); }
		os << "0";
	}
	std::unique_ptr<Import> write_file(Rng& r, std::string& path) {
		auto im = std::make_unique<Import>();
		im->missing = r.chance(0.05);
		path = std::string(scratch()) + "/cnf" + std::to_string(files++);
		std::ostringstream os;
		bool many = r.chance(0.05);
		int sections = (int)r.range(1, 3);
		bool last_newline = true;
		// every section has a header of its own, usually declaring more variables
		for (int s = 0; s < sections; ++s) {
			int nv = s == 0 ? (int)r.range(1, 4) : im->nv + (int)r.below(3);
			int declared = s > 0 && r.chance(0.1) ? (int)r.range(1, im->nv) : nv;
			if (declared < nv) nv = im->nv;
			junk(r, os);
			if (im->flaw.empty() && r.chance(0.03)) {
				im->flaw = "header";
				os << pick_from<const char*>(r, {"p dnf ", "p cnf x", "pcnf "}) << declared << " 3\n";
			} else os << "p cnf " << declared << " " << r.below(50) << "\n";
			// one problem per new variable tells which variable is which
			for (int i = im->nv + 1; i <= nv; ++i) { os << i << " 0\nreset\n"; im->problems.push_back({{i}}); im->unit.push_back(i); junk(r, os); }
			im->nv = nv;
			int np = (int)r.range(1, 3);
			int bad = r.chance(0.03) ? (int)r.below(np) : -1;
			for (int p = 0; p < np; ++p) {
				Clauses c = random_clauses(r, nv);
				if (many && r.chance(0.3)) {
					std::vector<int> wide;
					for (int i = 0; i < 300; ++i) wide.push_back((int)r.range(1, nv) * (r.chance(0.9) ? 1 : -1));
					c.push_back(wide);
				}
				if (p == bad) { c.push_back({r.chance(0.5) ? 20 : nv + 1, 1}); if (im->flaw.empty()) im->flaw = "variable"; }
				bool last = s + 1 == sections && p + 1 == np;
				for (std::size_t i = 0; i < c.size(); ++i) {
					junk(r, os);
					print(r, os, c[i]);
					last_newline = !(last && i + 1 == c.size() && r.chance(0.2));
					if (last_newline) os << "\n";
				}
				if (!last) os << "reset\n";
				im->problems.push_back(c);
				im->unit.push_back(0);
			}
		}
		if (!im->missing) std::ofstream(path) << os.str();
		return im;
	}
	/// Reads up to n further problems, returns whether the import is over.
	bool advance_import(int t, Import& im, int n, const std::string* path) {
		bool threw = false, over = false;
		std::string what;
		auto eio = faults_so_far(F_READ_EIO), eopen = faults_so_far(F_OPEN);
		try {
			if (path) {
				carl::DIMACSImporter<Pol>* p;
				{ Faulty f; p = new carl::DIMACSImporter<Pol>(*path); }
				im.im.reset(p);
			}
			for (; n > 0; --n) {
				if (!im.im->hasNext()) { over = true; break; }
				Formula f;
				{ Faulty ff; f = im.im->next(); }
				Quiet q;
				SIM_CHECK(!im.missing, "content", "a formula was read from a missing file");
				SIM_CHECK(im.got < im.problems.size(), "content", "more than the " << im.problems.size() << " problems of the file were read");
				check(f, im.problems[im.got], im.got, im.unit[im.got], im.nv, im.idx);
				++im.got;
			}
		} catch (const std::exception& e) {
			threw = true;
			what = e.what();
		}
		Quiet q;
		im.bad_read |= faults_so_far(F_READ_EIO) > eio;
		im.bad_open |= faults_so_far(F_OPEN) > eopen;
		SIM_LOG("t" << t << " read " << im.got << " of " << im.problems.size() << " problems" << (threw ? ", fails: " : over ? ", end" : "") << what);
		if (threw) {
			SIM_CHECK(im.missing || im.bad_read || im.bad_open || !im.flaw.empty(), "spurious", "import of a correct file fails: " << what);
			reach(im.missing ? "missing-file-reported" : im.bad_read ? "read-error-reported" : im.bad_open ? "open-error-reported" : "malformed-file-reported");
			over = true;
		} else if (over) {
			SIM_CHECK(!im.bad_read, "silent", "a read error was taken for the end of the file after " << im.got << " of " << im.problems.size() << " problems");
			SIM_CHECK(im.flaw.empty() || im.missing || im.bad_open, "silent", "a malformed file (" << im.flaw << ") was read without complaint");
			if (im.missing || im.bad_open) { SIM_CHECK(im.got == 0, "content", "problems were read from an unreadable file"); reach("unreadable-file-is-empty"); }
			else SIM_CHECK(im.got == im.problems.size(), "content", im.got << " of " << im.problems.size() << " problems were read");
		}
		if (faults_in_op(F_READ_SHORT)) reach("short-read");
		state(mix(im.got, im.problems.size()));
		return over;
	}
	void op(int t, int, Rng& r) override {
		if (r.chance(0.3)) return roundtrip(t, r);
		auto& mine = open[t];
		if (!mine.empty() && r.chance(0.5)) {
			std::size_t i = r.below(mine.size());
			reach("import-resumed");
			if (advance_import(t, *mine[i], (int)r.range(1, 5), nullptr)) mine.erase(mine.begin() + (long)i);
			return;
		}
		std::string path;
		std::unique_ptr<Import> im;
		{ Quiet q; im = write_file(r, path); }
		SIM_LOG("t" << t << " import " << im->problems.size() << " problems over " << im->nv << " variables" << (im->missing ? ", file missing" : "") << (im->flaw.empty() ? "" : ", bad ") << im->flaw);
		bool whole = r.chance(0.6);
		if (!advance_import(t, *im, whole ? 1000 : (int)r.range(0, 3), &path)) {
			SIM_CHECK(!whole, "endless", "reading a file of " << im->problems.size() << " problems does not end");
			Quiet q;
			mine.push_back(std::move(im));
		}
	}
	void task_end(int t) override {
		while (!open[t].empty()) {
			auto im = std::move(open[t].back());
			open[t].pop_back();
			SIM_CHECK(advance_import(t, *im, 1000, nullptr), "endless", "reading a file of " << im->problems.size() << " problems does not end");
		}
	}
	void check(const Formula& f, const Clauses& c, std::size_t num, int unit, int nv, std::map<carl::Variable, int>& idx) {
		if (unit) {
			SIM_CHECK(f.getType() == carl::BOOL, "content", "unit clause " << unit << " was read as " << f);
			SIM_CHECK(idx.emplace(f.boolean(), unit).second, "content", "two variables of the file were read as one");
			return;
		}
		for (unsigned a = 0; a < (1u << nv); ++a)
			SIM_CHECK(holds(f, idx, a) == holds(c, a), "content", "problem " << num << " was read as " << f << ", which differs under assignment " << a);
		observe(num);
	}
	void roundtrip(int t, Rng& r) {
		int nv = (int)r.range(1, 5);
		Clauses c;
		std::vector<Formula> vars;
		std::map<carl::Variable, int> vi;
		carl::DIMACSExporter<Pol> ex;
		std::ostringstream out;
		int batches = (int)r.range(1, 3);
		if (r.chance(0.2)) { // an exporter that was used before and cleared
			for (int i = 0; i < 2; ++i) ex(Formula(carl::freshBooleanVariable()));
			ex.clear();
		}
		for (int i = 1; i <= nv; ++i) { auto v = carl::freshBooleanVariable(); vars.emplace_back(v); vi[v] = i; }
		for (int b = 0; b < batches; ++b) {
			carl::Formulas<Pol> cls;
			int n = (int)r.range(1, 4);
			for (int k = 0; k < n; ++k) {
				carl::Formulas<Pol> lits;
				std::vector<int> cl;
				int m = (int)r.range(1, 3), first = (int)r.range(1, nv);
				for (int j = 0; j < m; ++j) {
					int x = (first + j - 1) % nv + 1;
					if (j >= nv) break;
					bool pos = r.chance(0.5);
					lits.push_back(pos ? vars[x - 1] : Formula(carl::FormulaType::NOT, vars[x - 1]));
					cl.push_back(pos ? x : -x);
				}
				cls.push_back(lits.size() == 1 ? lits[0] : Formula(carl::FormulaType::OR, std::move(lits)));
				c.push_back(cl);
			}
			Formula f(carl::FormulaType::AND, std::move(cls));
			// contradictory units collapse to FALSE, which the exporter documents to skip
			if (f.getType() == carl::FALSE || f.getType() == carl::TRUE) return;
			SIM_CHECK(ex(f), "export", "exporting " << f << " fails");
		}
		if (r.chance(0.2)) { // a clause with an arithmetic literal has no representation
			Formula con(Pol(arith), carl::Relation::LESS);
			Formula f = r.chance(0.3) ? con : Formula(carl::FormulaType::OR, {vars[0], con});
			if (nv > 1 && r.chance(0.3)) f = Formula(carl::FormulaType::AND, {f, vars[nv - 1]});
			carl::DIMACSExporter<Pol> other;
			SIM_CHECK(!other(f), "export", "exporting " << f << " succeeds");
			reach("refused");
		}
		out << ex;
		Quiet q;
		SIM_LOG("t" << t << " export " << c.size() << " clauses");
		// the file numbers variables by its own choice: find one numbering that gives back the clauses
		std::istringstream in(out.str());
		std::string p, cnf;
		int fv, fc;
		in >> p >> cnf >> fv >> fc;
		SIM_CHECK(p == "p" && cnf == "cnf" && fv <= nv, "export", "bad header in \"" << out.str() << "\"");
		Clauses written;
		std::vector<int> cur;
		for (int l; in >> l;) {
			if (l == 0) { written.push_back(cur); cur.clear(); }
			else { SIM_CHECK(std::abs(l) <= fv, "export", "literal " << l << " exceeds the header"); cur.push_back(l); }
		}
		SIM_CHECK((int)written.size() == fc && cur.empty(), "export", "header announces " << fc << " clauses, " << written.size() << " follow");
		std::vector<int> perm;
		for (int i = 1; i <= nv; ++i) perm.push_back(i);
		bool ok = false;
		do {
			bool same = true;
			for (unsigned a = 0; a < (1u << nv) && same; ++a) {
				unsigned m = 0; // assignment of file variables
				for (int i = 0; i < nv; ++i) if ((a >> i) & 1) m |= 1u << (perm[i] - 1);
				same = holds(c, a) == holds(written, m);
			}
			ok = same;
		} while (!ok && std::next_permutation(perm.begin(), perm.end()));
		SIM_CHECK(ok, "export", "the exported file\n" << out.str() << "does not describe the clauses");
		reach("exported");
		// and back
		std::string path = std::string(scratch()) + "/cnf" + std::to_string(files++);
		std::ofstream(path) << out.str();
		bool threw = false;
		Formula f;
		int n = 0;
		try {
			carl::DIMACSImporter<Pol> im(path);
			while (im.hasNext()) { f = im.next(); ++n; }
		} catch (const std::exception&) { threw = true; }
		SIM_CHECK(!threw && n == 1, "export", "the exported file cannot be read back");
		// which fresh variable stands for which number follows from the order of creation
		carl::Variables vs;
		std::map<carl::Variable, int> idx;
		std::vector<carl::Variable> ord;
		auto collect = [&](const Formula& g, auto&& self) -> void {
			if (g.getType() == carl::BOOL) vs.insert(g.boolean());
			else if (g.getType() == carl::NOT) self(g.subformula(), self);
			else if (g.getType() == carl::AND || g.getType() == carl::OR) for (auto& s : g.subformulas()) self(s, self);
		};
		collect(f, collect);
		for (auto v : vs) ord.push_back(v);
		ok = false;
		std::vector<int> num;
		for (int i = 1; i <= fv; ++i) num.push_back(i);
		std::sort(num.begin(), num.end());
		do {
			idx.clear();
			for (std::size_t i = 0; i < ord.size() && i < num.size(); ++i) idx[ord[i]] = num[i];
			bool same = idx.size() == ord.size();
			for (unsigned a = 0; a < (1u << fv) && same; ++a) same = holds(f, idx, a) == holds(written, a);
			ok = same;
		} while (!ok && std::next_permutation(num.begin(), num.end()));
		SIM_CHECK(ok, "export", "reading back\n" << out.str() << "gives " << f);
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

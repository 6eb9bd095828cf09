// Pseudo-Boolean problems: files are imported over a faulty disk and compared with what was written.
// build-flags: -include @VERIF@/harness/cocoa_stub.h
#include "common.h"
#include <carl/core/MultivariatePolynomial.h>
#include <carl/formula/Formula.h>
#include <carl-io/OPBImporter.h>
#include <carl-io/OPBImporter.cpp>
#include <fstream>
#include <set>

using namespace sim;
namespace sim { const char* const harness_name = "opb"; }

namespace {
using Q = mpq_class;
using Pol = carl::MultivariatePolynomial<Q>;
using Formula = carl::Formula<Pol>;
using carl::Relation;

struct NullBuf : std::streambuf {
	int overflow(int c) override { return c; }
} null_buf;

constexpr Relation rels[] = {Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};
const char* const rel_text[] = {"=", "!=", "<", "<=", ">", ">="};

using Sum = std::vector<std::pair<int, int>>; // coefficient, name
struct Con { Sum lhs; int rel; int rhs; };
struct Problem { Sum objective; std::vector<Con> cons; };

bool compare(const Q& l, Relation rel, const Q& r) {
	switch (rel) {
	case Relation::EQ: return l == r;
	case Relation::NEQ: return l != r;
	case Relation::LESS: return l < r;
	case Relation::LEQ: return l <= r;
	case Relation::GREATER: return l > r;
	default: return l >= r;
	}
}
Q value(const Sum& s, unsigned a) {
	Q v = 0;
	for (auto& t : s) if ((a >> t.second) & 1) v += t.first;
	return v;
}
bool holds(const Problem& p, unsigned a) {
	for (auto& c : p.cons) if (!compare(value(c.lhs, a), rels[c.rel], c.rhs)) return false;
	return true;
}

struct H : Harness {
	std::vector<std::string> names;
	int files = 0;

	void configure(Rng& r, Config& c, bool faults) override {
		c.preempt = false;
		c.step_cap = 30'000'000;
		c.ntasks = (int)r.range(1, 3);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(1, 4);
		if (faults) {
			c.rate[F_OPEN] = pick_from(r, {0.0, 0.2});
			c.rate[F_READ_SHORT] = pick_from(r, {0.0, 0.3, 0.9});
			c.rate[F_READ_EINTR] = pick_from(r, {0.0, 0.2});
			c.rate[F_READ_EIO] = pick_from(r, {0.0, 0.1, 0.3});
		}
	}
	void setup(Rng&) override {
		std::cout.rdbuf(&null_buf);
		names = {"x1", "x", "x12", "x1_2", "Y", "zz9"};
		carl::Variable b = carl::freshBooleanVariable();
		carl::freshIntegerVariable("warm");
		Formula f(Pol(b) - Pol(Q(1)), Relation::LESS);
		Formula g(carl::FormulaType::TRUE);
	}
	Sum random_sum(Rng& r, int nv, bool large) {
		Sum s;
		for (int i = (int)r.range(1, large ? 12 : 4); i > 0; --i) {
			int c = r.chance(0.05) ? (int)pick_from(r, {2147483647, -2147483647, 0, 1000000}) : (int)r.range(-5, 5);
			s.emplace_back(c, (int)r.below((std::uint64_t)nv));
		}
		return s;
	}
	static void blank(Rng& r, std::ostream& os, bool needed) {
		int n = (int)r.below(12);
		if (n == 0) os << "\n";
		else if (n == 1) os << "  ";
		else if (n == 2) os << "\t";
		else if (n == 3) os << "\r\n";
		else if (n == 4) os << "\n* a comment; min: 1 x1 >= 2 ;\n";
		else if (n == 5 && !needed) return;
		else os << " ";
	}
	void print(Rng& r, std::ostream& os, const Sum& s) {
		for (auto& t : s) {
			if (t.first >= 0 && r.chance(0.6)) os << "+";
			os << t.first;
			blank(r, os, false);
			os << names[(std::size_t)t.second];
			blank(r, os, true);
		}
	}
	/// Writes the problem, with a flaw if one is asked for.
	std::string text(Rng& r, const Problem& p, const std::string& flaw) {
		std::ostringstream os;
		std::size_t at = r.below(std::max<std::size_t>(1, p.cons.size()));
		if (r.chance(0.5)) os << "* #variable= 3 #constraint= " << p.cons.size() << "\n";
		if (r.chance(0.02)) os << "* " << std::string(9000, '-') << "\n";
		if (!p.objective.empty()) {
			os << "min:";
			blank(r, os, false);
			print(r, os, p.objective);
			os << ";";
			blank(r, os, false);
		}
		for (std::size_t i = 0; i < p.cons.size(); ++i) {
			bool bad = i == at && !flaw.empty();
			if (!(bad && flaw == "lhs")) print(r, os, p.cons[i].lhs);
			if (bad && flaw == "relation") os << "=> ";
			else if (!(bad && flaw == "norelation")) os << rel_text[p.cons[i].rel];
			blank(r, os, false);
			if (bad && flaw == "rhs") os << "";
			else if (bad && flaw == "range") os << "99999999999999";
			else os << p.cons[i].rhs;
			blank(r, os, false);
			if (!(bad && flaw == "semicolon")) os << ";";
			blank(r, os, false);
		}
		if (flaw == "tail") os << pick_from<const char*>(r, {")", "+1 x1", "min: +1 x1 ;", "1"});
		else if (flaw.empty() && r.chance(0.1)) os << "\n* the end";
		return os.str();
	}
	void op(int t, int, Rng& r) override {
		Problem p;
		std::string flaw, path;
		int nv;
		bool missing = false;
		{
			Quiet q;
			nv = (int)r.range(1, (std::int64_t)names.size() - 1);
			bool large = r.chance(0.05);
			if (r.chance(0.6)) p.objective = random_sum(r, nv, large);
			for (int i = (int)r.below(large ? 20 : 5); i > 0; --i) p.cons.push_back({random_sum(r, nv, large), (int)r.below(6), (int)r.range(-6, 6)});
			if (r.chance(0.15) && !p.cons.empty()) flaw = pick_from<const char*>(r, {"lhs", "relation", "norelation", "rhs", "range", "semicolon", "tail"});
			missing = r.chance(0.03);
			path = std::string(scratch()) + "/opb" + std::to_string(files++);
			std::string s = text(r, p, flaw);
			if (!missing) std::ofstream(path) << s;
			SIM_LOG("t" << t << (missing ? " missing" : "") << " file (" << flaw << ") " << s);
		}
		bool direct = r.chance(0.5), threw = false;
		std::optional<carl::OPBFile> file;
		std::optional<std::pair<Formula, Pol>> res;
		std::string what;
		try {
			if (direct) {
				Faulty f;
				std::ifstream in(path);
				if (in.is_open()) file = carl::parseOPBFile(in);
			} else {
				Faulty f;
				carl::OPBImporter<Pol> im(path);
				res = im.parse();
			}
		} catch (const std::exception& e) { threw = true; what = e.what(); }
		bool ok = direct ? bool(file) : bool(res);
		bool eio = faults_in_op(F_READ_EIO) > 0, eopen = faults_in_op(F_OPEN) > 0;
		SIM_LOG("t" << t << (direct ? " parse" : " import") << (threw ? " throws " : ok ? " succeeds" : " fails") << what);
		if (faults_in_op(F_READ_SHORT)) reach("short-read");
		if (!ok) {
			SIM_CHECK(missing || eio || eopen || !flaw.empty(), "spurious", "import of a correct file fails " << what);
			reach(missing ? "missing-file-reported" : eopen ? "open-error-reported" : eio ? "read-error-reported" : "malformed-file-reported");
			return;
		}
		SIM_CHECK(!missing && !eopen, "content", "a problem was read from an unreadable file");
		SIM_CHECK(!eio, "silent", "a read error was taken for the end of the file");
		SIM_CHECK(flaw.empty(), "silent", "a malformed file (" << flaw << ") was read without complaint");
		if (direct) check(*file, p);
		else check(res->first, res->second, p, nv);
	}
	void check(const carl::OPBFile& f, const Problem& p) {
		std::map<int, carl::Variable> var;
		std::set<carl::Variable> seen;
		auto same = [&](const carl::OPBPolynomial& got, const Sum& want, const char* what) {
			SIM_CHECK(got.size() == want.size(), "content", what << " has " << got.size() << " terms, " << want.size() << " were written");
			for (std::size_t i = 0; i < got.size(); ++i) {
				SIM_CHECK(got[i].first == want[i].first, "content", "coefficient " << want[i].first << " was read as " << got[i].first);
				auto it = var.find(want[i].second);
				if (it == var.end()) {
					var.emplace(want[i].second, got[i].second);
					SIM_CHECK(seen.insert(got[i].second).second, "content", "two names of the file were read as one variable");
					SIM_CHECK(got[i].second.name() == names[(std::size_t)want[i].second], "content", "variable " << names[(std::size_t)want[i].second] << " was read as " << got[i].second.name());
				} else SIM_CHECK(it->second == got[i].second, "content", "variable " << names[(std::size_t)want[i].second] << " was read as two variables");
			}
		};
		same(f.objective, p.objective, "objective");
		SIM_CHECK(f.constraints.size() == p.cons.size(), "content", f.constraints.size() << " of " << p.cons.size() << " constraints were read");
		for (std::size_t i = 0; i < p.cons.size(); ++i) {
			same(std::get<0>(f.constraints[i]), p.cons[i].lhs, "constraint");
			SIM_CHECK(std::get<1>(f.constraints[i]) == rels[p.cons[i].rel] && std::get<2>(f.constraints[i]) == p.cons[i].rhs, "content", "constraint " << i << " has another relation or bound");
		}
		observe(mix(p.cons.size(), p.objective.size()));
		state(mix(var.size(), p.cons.size()));
		reach("parsed");
	}
	static Q eval(const Pol& p, const std::map<carl::Variable, int>& idx, unsigned a) {
		Q v = 0;
		for (auto& t : p) {
			bool one = true;
			if (t.monomial()) for (auto& e : *t.monomial()) {
				SIM_CHECK(idx.count(e.first), "content", "unknown variable");
				one &= (a >> idx.at(e.first)) & 1;
			}
			if (one) v += t.coeff();
		}
		return v;
	}
	static bool eval(const Formula& f, const std::map<carl::Variable, int>& idx, unsigned a) {
		switch (f.getType()) {
		case carl::TRUE: return true;
		case carl::FALSE: return false;
		case carl::NOT: return !eval(f.subformula(), idx, a);
		case carl::AND: for (auto& s : f.subformulas()) if (!eval(s, idx, a)) return false; return true;
		case carl::CONSTRAINT: return compare(eval(f.constraint().lhs(), idx, a), f.constraint().relation(), 0);
		default: SIM_CHECK(false, "content", "unexpected kind of formula " << f);
		}
		return false;
	}
	static void collect(const Formula& f, std::set<carl::Variable>& vs) {
		if (f.getType() == carl::NOT) collect(f.subformula(), vs);
		else if (f.getType() == carl::AND) for (auto& s : f.subformulas()) collect(s, vs);
		else if (f.getType() == carl::CONSTRAINT) collect(f.constraint().lhs(), vs);
	}
	static void collect(const Pol& p, std::set<carl::Variable>& vs) {
		for (auto& t : p) if (t.monomial()) for (auto& e : *t.monomial()) vs.insert(e.first);
	}
	void check(const Formula& f, const Pol& obj, const Problem& p, int nv) {
		Quiet q;
		std::set<carl::Variable> vs;
		collect(f, vs);
		collect(obj, vs);
		for (auto v : vs) SIM_CHECK(v.type() == carl::VariableType::VT_BOOL, "content", "the problem has the variable " << v << " that is not Boolean");
		SIM_CHECK((int)vs.size() <= nv, "content", "a file with " << nv << " variables was read as " << f << " with objective " << obj);
		// the file's names are not kept: some numbering of the variables gives the problem back
		std::vector<int> perm;
		for (int i = 0; i < nv; ++i) perm.push_back(i);
		bool ok = false;
		do {
			std::map<carl::Variable, int> idx;
			std::size_t i = 0;
			for (auto v : vs) idx[v] = perm[i++];
			bool same = true;
			for (unsigned a = 0; a < (1u << nv) && same; ++a) same = eval(obj, idx, a) == value(p.objective, a) && eval(f, idx, a) == holds(p, a);
			ok = same;
		} while (!ok && std::next_permutation(perm.begin(), perm.end()));
		SIM_CHECK(ok, "content", "the problem was read as " << f << " with objective " << obj);
		observe(mix(vs.size(), p.cons.size()));
		reach("imported");
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

// Statistics: registering, recording, collecting, rendering, exporting to a file on a faulty disk.
#include "common.h"
#include <carl-statistics/StatisticsPrinter.h>
#include <fstream>

using namespace sim;
namespace sim { const char* const harness_name = "stats"; }

namespace {
using Values = std::map<std::string, std::string>;

/// A client's statistics object: what it will report on the next collection.
struct Stat : carl::statistics::Statistics {
	bool on = true;
	std::map<std::string, int> ints;
	std::map<std::string, std::string> strs;
	std::map<std::string, double> dbls;
	std::map<std::string, std::size_t> sizes;
	carl::statistics::timer tim;
	bool with_timer = false;
	bool enabled() const override { return on; }
	void collect() override {
		for (auto& p : ints) addKeyValuePair(p.first, p.second);
		for (auto& p : strs) addKeyValuePair(p.first, p.second);
		for (auto& p : dbls) addKeyValuePair(p.first, p.second);
		for (auto& p : sizes) addKeyValuePair(p.first, p.second);
		if (with_timer) addKeyValuePair("timer", tim);
	}
};
struct Rec {
	Stat* s;
	std::string name;
	Values shown;   // expected content of reports
	Values partial; // possible content after a collection that failed half way
	bool unsure = false;
	std::size_t timer_count = 0;
};

struct H : Harness {
	std::vector<Rec> recs;
	bool unsure_all = false;
	int counter = 0;

	void configure(Rng& r, Config& c, bool faults) override {
		c.preempt = false; // the registry makes no promise about concurrent calls; clients are interleaved between calls
		c.ntasks = (int)r.range(1, 3);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(4, 25);
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.0, 0.01, 0.05});
			c.rate[F_OPEN] = pick_from(r, {0.0, 0.1});
			c.rate[F_WRITE_SHORT] = pick_from(r, {0.0, 0.3, 0.9});
			c.rate[F_WRITE_EINTR] = pick_from(r, {0.0, 0.2});
			c.rate[F_WRITE_ERR] = pick_from(r, {0.0, 0.1});
			c.rate[F_DISK_FULL] = pick_from(r, {0.0, 0.05});
			c.rate[F_CLOCK_BACK] = pick_from(r, {0.0, 0.1});
		}
	}
	void setup(Rng&) override { carl::statistics::StatisticsCollector::getInstance(); }
	static Values current(const Rec& x) {
		Values v;
		for (auto& p : x.s->ints) v[p.first] = std::to_string(p.second);
		for (auto& p : x.s->strs) v[p.first] = p.second;
		for (auto& p : x.s->dbls) { std::stringstream ss; ss << p.second; v[p.first] = ss.str(); }
		for (auto& p : x.s->sizes) v[p.first] = std::to_string(p.second);
		if (x.s->with_timer) {
			v["timer_count"] = std::to_string(x.s->tim.count());
			v["timer_overall_ms"] = std::to_string(x.s->tim.overall_ms());
		}
		return v;
	}
	std::string xml(bool whole) {
		std::ostringstream os;
		if (whole) os << "<runtimestats>\n";
		for (auto& x : recs) {
			if (x.shown.empty()) continue;
			std::string name = x.name;
			std::replace(name.begin(), name.end(), '<', '(');
			std::replace(name.begin(), name.end(), '>', ')');
			os << "\t<module name=\"" << name << "\">\n";
			for (auto& kv : x.shown) os << "\t\t<stat name=\"" << kv.first << "\" value=\"" << kv.second << "\" />\n";
			os << "\t</module>\n";
		}
		if (whole) os << "</runtimestats>\n";
		return os.str();
	}
	/// Parses the SMT-LIB rendering back.
	std::vector<std::pair<std::string, Values>> parse_smt(const std::string& s) {
		std::vector<std::pair<std::string, Values>> res;
		std::istringstream in(s);
		std::string tok;
		while (in >> tok) {
			SIM_CHECK(tok.compare(0, 2, "(:") == 0, "report", "unexpected token \"" << tok << "\" in report");
			res.emplace_back(tok.substr(2), Values());
			in >> tok;
			SIM_CHECK(tok == "(", "report", "unexpected token \"" << tok << "\" in report");
			while (in >> tok && tok != "))") {
				SIM_CHECK(tok[0] == ':', "report", "unexpected token \"" << tok << "\" in report");
				std::string v;
				in >> v;
				SIM_CHECK(res.back().second.emplace(tok.substr(1), v).second, "report", "key " << tok << " listed twice");
			}
			SIM_CHECK(tok == "))", "report", "report ends early");
		}
		return res;
	}
	std::string describe(const std::vector<std::pair<std::string, Values>>& l) {
		std::ostringstream os;
		for (auto& p : l) { os << p.first << "{"; for (auto& kv : p.second) os << kv.first << "=" << kv.second << " "; os << "} "; }
		return os.str();
	}
	void settle() {
		// after a collection that failed half way each object shows a mixture of old and new values: look and check
		for (auto& x : recs) if (x.unsure) {
			Values now(x.s->collected().begin(), x.s->collected().end());
			for (auto& kv : now) {
				auto o = x.shown.find(kv.first), n = x.partial.find(kv.first);
				SIM_CHECK((o != x.shown.end() && o->second == kv.second) || (n != x.partial.end() && n->second == kv.second), "report", "value " << kv.second << " of " << kv.first << " was never recorded");
			}
			for (auto& kv : x.shown) SIM_CHECK(now.count(kv.first), "report", "key " << kv.first << " vanished");
			x.shown = now;
			x.unsure = false;
		}
	}
	void op(int t, int, Rng& r) override {
		int k = (int)r.below(12);
		try {
			if (k <= 1) {
				std::string name;
				{
					Quiet q;
					// several objects may have the same name; names of class templates have angle brackets
					if (!recs.empty() && r.chance(0.3)) name = recs[r.chance(0.5) ? recs.size() - 1 : r.below(recs.size())].name;
					else name = (r.chance(0.2) ? "m<" : "module") + std::to_string(counter++) + (r.chance(0.2) ? ">" : "_with_a_name_that_needs_memory");
				}
				Stat* s;
				{
					Faulty f;
					s = &carl::statistics::get<Stat>(name);
				}
				Quiet q;
				SIM_LOG("t" << t << " register " << name);
				SIM_CHECK(s->name() == name, "report", "registered object is called " << s->name());
				Rec x;
				x.s = s;
				x.name = name;
				s->on = !r.chance(0.15);
				s->with_timer = r.chance(0.3);
				recs.push_back(x);
			} else if (k <= 6) {
				if (recs.empty()) return;
				Quiet q;
				Rec& x = recs[r.below(recs.size())];
				std::string key = std::string(r.chance(0.2) ? 1 : r.chance(0.1) ? 30 : 3, 'k') + std::to_string(r.below(5));
				switch (r.below(6)) {
				case 5: x.s->sizes["n" + key] = r.chance(0.2) ? ~std::size_t(0) - r.below(3) : r.below(1u << 20); break;
				case 0: x.s->strs["s" + key] = "text" + std::to_string(r.below(100)); break;
				case 1: x.s->dbls["d" + key] = (double)r.range(-1000, 1000) / 8; break;
				case 2: if (r.chance(0.3)) x.s->on = !x.s->on; break;
				case 3: { auto st = carl::statistics::timer::start(); advance((std::int64_t)r.below(50'000'000)); x.s->tim.finish(st); break; }
				default: x.s->ints[key] += (int)r.range(1, 50);
				}
			} else if (k <= 8) {
				for (auto& x : recs) if (x.s->on) { Quiet q; x.partial = current(x); }
				bool done = false;
				try {
					Faulty f;
					carl::statistics::StatisticsCollector::getInstance().collect();
					done = true;
				} catch (const std::bad_alloc&) {
					SIM_CHECK(faults_in_op(F_ALLOC) > 0, "exception", "bad_alloc without allocation failure");
					reach("collect-failed");
				}
				Quiet q;
				SIM_LOG("t" << t << " collect" << (done ? "" : " bad_alloc"));
				for (auto& x : recs) if (x.s->on) {
					if (done) for (auto& kv : x.partial) x.shown[kv.first] = kv.second;
					else x.unsure = true;
				}
				settle();
				std::uint64_t h = 0;
				for (auto& x : recs) for (auto& kv : x.shown) h = mix(h, std::hash<std::string>()(kv.first + kv.second));
				state(h);
				if (done) reach("collected");
			} else if (k == 9) {
				std::ostringstream os;
				os << carl::statistics::statistics_as_smtlib();
				Quiet q;
				auto got = parse_smt(os.str());
				std::vector<std::pair<std::string, Values>> want;
				for (auto& x : recs) if (!x.shown.empty()) want.emplace_back(x.name, x.shown);
				SIM_CHECK(got == want, "report", "report shows " << describe(got) << ", recorded is " << describe(want));
				observe(std::hash<std::string>()(os.str()));
				reach("smtlib-report");
			} else if (k == 10) {
				std::ostringstream os;
				os << carl::statistics::statistics_as_xml();
				Quiet q;
				SIM_CHECK(os.str() == xml(false), "report", "report is\n" << os.str() << "recorded is\n" << xml(false));
			} else {
				std::string file;
				{ Quiet q; file = std::string(scratch()) + "/stats.xml"; if (r.chance(0.5)) set_disk_full(false); }
				{
					Faulty f;
					carl::statistics::statistics_to_xml_file(file);
				}
				Quiet q;
				bool hard = faults_in_op(F_OPEN) || faults_in_op(F_WRITE_ERR) || faults_in_op(F_DISK_FULL) || disk_full();
				std::ifstream in(file);
				std::stringstream ss;
				ss << in.rdbuf();
				std::string got = ss.str(), want = xml(true);
				SIM_LOG("t" << t << " export " << got.size() << " of " << want.size() << " bytes" << (hard ? " (disk error)" : ""));
				if (faults_in_op(F_OPEN)) reach("export-open-failed");
				else if (hard) {
					reach("export-write-failed");
					// libstdc++ retries its buffer after a transient error, so only a lasting one leaves a clean prefix
					if (!faults_in_op(F_WRITE_ERR)) SIM_CHECK(want.compare(0, got.size(), got) == 0, "file", "after a disk error the file holds bytes that are not a prefix of the report:\n" << got);
				} else {
					if (faults_in_op(F_WRITE_SHORT)) reach("export-short-write");
					SIM_CHECK(got == want, "file", "the exported file holds\n" << got << "recorded is\n" << want);
				}
			}
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "exception", "bad_alloc without allocation failure");
			reach("alloc-failure-survived");
		}
	}
	void finish() override {
		for (auto& x : recs) if (x.s->on) { Quiet q; for (auto& kv : current(x)) x.shown[kv.first] = kv.second; }
		carl::statistics::StatisticsCollector::getInstance().collect();
		std::ostringstream os;
		os << carl::statistics::statistics_as_smtlib();
		Quiet q;
		auto got = parse_smt(os.str());
		std::vector<std::pair<std::string, Values>> want;
		for (auto& x : recs) if (!x.shown.empty()) want.emplace_back(x.name, x.shown);
		SIM_CHECK(got == want, "report", "final report shows " << describe(got) << ", recorded is " << describe(want));
		for (auto& s : carl::statistics::StatisticsCollector::getInstance().statistics()) {
			bool known = false;
			for (auto& x : recs) known = known || x.s == s.get();
			SIM_CHECK(known, "registry", "the registry holds an object \"" << s->name() << "\" nobody obtained");
		}
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

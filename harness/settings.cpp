// Settings: options from command line, configuration file on a faulty disk, defaults and finalisers; shared settings objects.
// link-libs: -lboost_program_options -lstdc++fs
#include "common.h"
#include <carl-settings/Settings.h>
#include <carl-settings/SettingsParser.h>
#include <cstdio>
#include <fstream>

using namespace sim;
namespace po = boost::program_options;
namespace sim { const char* const harness_name = "settings"; }

namespace {
struct Data {
	std::string str, nodef = "unset";
	std::size_t num = 0;
	int sgn = 0;
	bool flag = false;
	carl::settings::duration dur;
	carl::settings::binary_quantity bin;
	carl::settings::metric_quantity met;
	std::string pos = "unset";
};
struct Parser : carl::settings::SettingsParser {
	mutable std::vector<std::string> unknown, badfile;
	void warn_for_unrecognized_option(const std::string& s) const override { Quiet q; unknown.push_back(s); }
	void warn_config_file(const std::string& s) const override { Quiet q; badfile.push_back(s); }
	Parser(Data& d) {
		add("General").add_options()
			("config,c", po::value<std::string>(), "file")
			("str", po::value<std::string>(&d.str)->default_value("default-string"), "a string")
			("nodef", po::value<std::string>(&d.nodef), "a string without default")
			("flag", po::bool_switch(&d.flag), "a switch");
		add("Numbers").add_options()
			("sub.num", po::value<std::size_t>(&d.num)->default_value(7), "a number")
			("sub.sgn", po::value<int>(&d.sgn)->default_value(-3), "a signed number")
			("sub.dur", po::value<carl::settings::duration>(&d.dur)->default_value(carl::settings::duration(std::chrono::seconds(5))), "a duration")
			("bin", po::value<carl::settings::binary_quantity>(&d.bin)->default_value(carl::settings::binary_quantity(4096)), "memory")
			("met", po::value<carl::settings::metric_quantity>(&d.met)->default_value(carl::settings::metric_quantity(2000)), "count")
			("pos", po::value<std::string>(&d.pos), "positional");
		mPositional.add("pos", 1);
		finalize();
	}
	const po::variables_map& values() const { return mValues; }
};
const char* const names[] = {"str", "nodef", "flag", "sub.num", "sub.sgn", "sub.dur", "bin", "met", "pos"};
constexpr int NOPT = 9;
/// Value of an option as text in canonical form.
std::string canon(const Data& d, int i) {
	std::ostringstream os;
	switch (i) {
	case 0: return d.str;
	case 1: return d.nodef;
	case 2: return d.flag ? "1" : "0";
	case 3: os << d.num; break;
	case 4: os << d.sgn; break;
	case 5: os << std::chrono::nanoseconds(d.dur).count(); break;
	case 6: os << d.bin.n(); break;
	case 7: os << d.met.n(); break;
	case 8: return d.pos;
	}
	return os.str();
}
const char* const defaults[] = {"default-string", "unset", "0", "7", "-3", "5000000000", "4096", "2000", "unset"};

struct Gen { std::string text, value; };
Gen gen(Rng& r, int i) {
	switch (i) {
	case 2: return {"", "1"};
	case 3: { auto v = std::to_string(r.below(1ull << r.below(63))); return {v, v}; }
	case 4: { auto v = std::to_string(r.range(-100000, 100000)); return {v, v}; }
	case 5: {
		static const std::pair<const char*, long long> u[] = {{"ns", 1}, {"us", 1000}, {"µs", 1000}, {"ms", 1000000}, {"s", 1000000000}, {"m", 60000000000ll}, {"h", 3600000000000ll}};
		auto& p = u[r.below(7)];
		long long n = (long long)r.below(500);
		return {std::to_string(n) + p.first, std::to_string(n * p.second)};
	}
	case 6: {
		static const char* const u[] = {"", "Ki", "Mi", "Gi", "Ti", "Pi", "Ei", "K", "M", "G", "T", "P", "E"};
		int k = (int)r.below(13), e = k == 0 ? 0 : k <= 6 ? k : k - 6;
		std::uint64_t n = r.below(e == 6 ? 8 : 500);
		return {std::to_string(n) + u[k], std::to_string(n << (10 * e))};
	}
	case 7: {
		static const char* const u[] = {"", "K", "M", "G", "T", "P", "E"};
		int k = (int)r.below(7);
		std::uint64_t n = r.below(k == 6 ? 8 : 500), f = 1;
		for (int j = 0; j < k; ++j) f *= 1000;
		return {std::to_string(n) + u[k], std::to_string(n * f)};
	}
	default: { auto v = "value" + std::to_string(r.below(1000)) + std::string(r.chance(0.1) ? r.below(3000) : r.below(30), 'y'); return {v, v}; }
	}
}

struct Other { int v = 5; std::string s = "x"; };

struct H : Harness {
	int files = 0;
	carl::settings::Settings shared;
	std::map<std::string, std::pair<void*, int>> objects;

	void configure(Rng& r, Config& c, bool faults) override {
		c.preempt = false;
		c.ntasks = (int)r.range(1, 3);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(1, 5);
		if (faults) {
			c.rate[F_OPEN] = pick_from(r, {0.0, 0.1});
			c.rate[F_READ_SHORT] = pick_from(r, {0.0, 0.3, 0.9});
			c.rate[F_READ_EINTR] = pick_from(r, {0.0, 0.2});
			c.rate[F_READ_EIO] = pick_from(r, {0.0, 0.1});
		}
	}
	void shared_objects(Rng& r, int t) {
		std::string name = "module" + std::to_string(r.below(4));
		bool other = name == "module0" || name == "module2";
		void* p;
		int* v;
		if (other) { auto& o = shared.get<Other>(name); p = &o; v = &o.v; }
		else { auto& o = shared.get<Data>(name); p = &o; v = &o.sgn; }
		Quiet q;
		auto it = objects.emplace(name, std::make_pair(p, other ? 5 : 0)).first;
		SIM_CHECK(it->second.first == p, "shared", "two users of the settings " << name << " got different objects");
		SIM_CHECK(*v == it->second.second, "shared", "settings " << name << " hold " << *v << " instead of " << it->second.second);
		if (r.chance(0.5)) it->second.second = *v = (int)r.below(1000);
		SIM_LOG("t" << t << " settings " << name);
	}
	void op(int t, int, Rng& r) override {
		if (r.chance(0.3)) return shared_objects(r, t);
		Data data;
		Parser* parser;
		std::string want[NOPT];
		std::string from[NOPT];
		std::vector<std::string> args{"binary"};
		std::vector<std::string> unknown;
		std::string path, filetext;
		bool missing = false;
		{
			Quiet q;
			for (int i = 0; i < NOPT; ++i) { want[i] = defaults[i]; from[i] = "default"; }
			bool file = r.chance(0.8);
			if (file) {
				path = std::string(scratch()) + "/conf" + std::to_string(files++);
				missing = r.chance(0.1);
				std::ostringstream body;
				body << "# configuration\n";
				std::vector<int> top, sub;
				for (int i = 0; i < NOPT; ++i) if (r.chance(0.5)) (std::string(names[i]).compare(0, 4, "sub.") == 0 && r.chance(0.6) ? sub : top).push_back(i);
				for (auto l : {&top, &sub}) {
					if (l == &sub && sub.empty()) continue;
					if (l == &sub) body << "\n[sub]\n";
					for (int i : *l) {
						Gen g = gen(r, i);
						if (i == 2) g.text = "true";
						body << (l == &sub ? names[i] + 4 : names[i]) << (r.chance(0.5) ? " = " : "=") << g.text << (r.chance(0.2) ? "  # remark" : "") << "\n";
						want[i] = g.value;
						from[i] = "file";
						if (r.chance(0.2)) body << "\n";
						if (r.chance(0.1)) body << "# str = commented\n";
					}
				}
				if (r.chance(0.2)) { body << (sub.empty() ? "" : "") << "stranger = 1\n"; unknown.push_back("stranger"); }
				filetext = body.str();
				if (!missing) std::ofstream(path) << filetext;
				else for (int i = 0; i < NOPT; ++i) { want[i] = defaults[i]; from[i] = "default"; }
				if (missing) unknown.clear();
				args.push_back(r.chance(0.5) ? "--config=" + path : "-c" + path);
			}
			for (int i = 0; i < NOPT; ++i) {
				if (!r.chance(0.35)) continue;
				Gen g = gen(r, i);
				std::string a = std::string("--") + names[i];
				if (i == 2) args.push_back(a);
				else if (i == 8) args.push_back(g.text);
				else if (r.chance(0.5) || i == 4) args.push_back(a + "=" + g.text);
				else { args.push_back(a); args.push_back(g.text); }
				want[i] = g.value;
				from[i] = "command line";
			}
			if (r.chance(0.15)) { args.push_back("--foreign=1"); unknown.push_back("--foreign"); }
			parser = new Parser(data);
		}
		// finalisers
		std::vector<int> ran;
		int nf = (int)r.below(4);
		std::string final_want[NOPT];
		for (int i = 0; i < NOPT; ++i) final_want[i] = want[i];
		bool given[NOPT];
		for (int i = 0; i < NOPT; ++i) given[i] = from[i] != "default";
		struct Step { int kind, opt; std::string text; std::size_t num; };
		std::vector<Step> steps;
		for (int f = 0; f < nf; ++f) {
			Quiet q;
			// at most one default_to per option: which of several wins is not specified
			Step s{(int)r.below(4), r.chance(0.5) ? 0 : 3, "fin" + std::to_string(r.below(100)), (std::size_t)r.below(100)};
			for (auto& o : steps) if (s.kind == 2 && o.kind == 2 && o.opt == s.opt) s.kind = 1;
			steps.push_back(s);
		}
		for (int f = 0; f < nf; ++f) {
			Step s = steps[f];
			parser->add_finalizer([&ran, f, s](po::variables_map& m) {
				{ Quiet q; ran.push_back(f); }
				if (s.kind == 0) return false;
				if (s.kind == 1) return true;
				if (s.kind == 2) {
					if (s.opt == 0) carl::settings::default_to(m, "str", s.text);
					else carl::settings::default_to(m, "sub.num", s.num);
				} else {
					if (s.opt == 0) carl::settings::overwrite_to(m, "str", s.text);
					else carl::settings::overwrite_to(m, "sub.num", s.num);
				}
				return true;
			});
		}
		SIM_LOG("t" << t << " parse " << args.size() - 1 << " arguments, file of " << filetext.size() << " bytes, " << nf << " finalisers");
		std::vector<char*> argv;
		for (auto& a : args) argv.push_back(&a[0]);
		argv.push_back(nullptr);
		bool threw = false;
		std::string what;
		try {
			Faulty f;
			parser->parse_options((int)args.size(), argv.data(), true);
		} catch (const std::exception& e) {
			threw = true;
			what = e.what();
		}
		Quiet q;
		bool bad_read = faults_in_op(F_READ_EIO) > 0, bad_open = faults_in_op(F_OPEN) > 0;
		if (threw || !parser->badfile.empty()) {
			SIM_CHECK(bad_read || bad_open || missing, "spurious", "parsing fails without cause: " << what);
			reach(missing ? "missing-file-reported" : bad_read ? "read-error-reported" : "open-error-reported");
			if (!missing) { delete parser; return; }
		} else {
			SIM_CHECK(!bad_read, "silent", "a read error in the configuration file was not reported");
			SIM_CHECK(!bad_open && !missing, "silent", "an unreadable configuration file was not reported");
		}
		if (faults_in_op(F_READ_SHORT)) reach("short-read");
		for (int f = 0; f < nf; ++f) SIM_CHECK((int)ran.size() > f && ran[f] == f, "finaliser", "of " << nf << " finalisers, " << ran.size() << " ran");
		SIM_CHECK((int)ran.size() == nf, "finaliser", "of " << nf << " finalisers, " << ran.size() << " ran");
		std::vector<int> tried;
		for (auto& s : steps) {
			if (s.kind < 2) continue;
			if (s.kind == 2 && given[s.opt]) continue;
			final_want[s.opt] = s.opt == 0 ? s.text : std::to_string(s.num);
			given[s.opt] = true;
			from[s.opt] = "finaliser";
			reach("finaliser-changed-value");
		}
		for (int i = 0; i < NOPT; ++i) {
			// known finding: a value set by a finaliser is in the map, but does not reach the variable bound to the option
			if (from[i] == "finaliser" && canon(data, i) == want[i]) { reach("known-finaliser-value-not-bound"); continue; }
			SIM_CHECK(canon(data, i) == final_want[i], "value", "option " << names[i] << " is " << canon(data, i).substr(0, 60) << " instead of " << final_want[i].substr(0, 60) << " from " << from[i]);
			observe(std::hash<std::string>()(final_want[i]));
			state(mix(i, std::hash<std::string>()(from[i])));
		}
		SIM_CHECK(parser->values()["str"].as<std::string>() == final_want[0], "value", "stored value of str differs");
		SIM_CHECK(parser->values()["sub.num"].as<std::size_t>() == std::stoull(final_want[3]), "value", "stored value of sub.num differs");
		if (!missing) {
			std::string got, exp;
			for (auto& u : parser->unknown) got += u + " ";
			for (auto& u : unknown) SIM_CHECK(got.find(u.substr(0, 8)) != std::string::npos, "silent", "unknown option " << u << " was not reported (" << got << ")");
			SIM_CHECK(unknown.empty() == parser->unknown.empty(), "spurious", "reported as unknown: " << got);
		}
		delete parser;
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

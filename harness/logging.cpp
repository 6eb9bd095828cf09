// Logging: several threads log through channel filters to stream and file sinks, some of them slow, failing or on a faulty disk.
#include "common.h"
#include <carl-logging/logging.h>
#include <carl-logging/logging-internals.h>
#include <fstream>

using namespace sim;
namespace sim { const char* const harness_name = "logging"; }

namespace {
using carl::logging::LogLevel;
using carl::logging::logger;

const char* const channels[] = {"", "carl", "carl.core", "carl.core.pool", "carl.core.pool.x", "carlx", "carl.corex", "smt", "smt.", "smt..x", ".carl", "other.deeply.nested.channel.name"};
const LogLevel levels[] = {LogLevel::LVL_TRACE, LogLevel::LVL_DEBUG, LogLevel::LVL_INFO, LogLevel::LVL_WARN, LogLevel::LVL_ERROR, LogLevel::LVL_FATAL};
const char* const level_names[] = {"ALL", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL", "OFF"};

/// A client's output: stores what it gets, piece by piece, and may start to fail.
struct Buf : std::streambuf {
	std::string data;
	bool faulty = false;
	bool dead = false;
	bool trouble() {
		if (!faulty) return false;
		if (auto p = fault(F_CLIENT)) {
			dead = true;
			reach("sink-failed");
			if (p % 2) throw std::runtime_error("sink failed");
			return true;
		}
		return false;
	}
	int_type overflow(int_type c) override {
		if (trouble()) return traits_type::eof();
		data.push_back((char)c);
		return c;
	}
	std::streamsize xsputn(const char* s, std::streamsize n) override {
		if (trouble()) return 0;
		std::streamsize h = n / 2; // in two pieces, so that another writer could come between
		data.append(s, h);
		data.append(s + h, n - h);
		return n;
	}
	int sync() override { return 0; }
};
struct Plain : carl::logging::Formatter {
	void prefix(std::ostream& os, const std::string& channel, LogLevel level, const carl::logging::RecordInfo&) override { os << "# " << level << " [" << channel << "] "; }
};
struct Record {
	int task, num;
	LogLevel level;
	std::string channel, text;
};
struct Want {
	std::shared_ptr<Record> rec;
	bool plain, bare; // format in use when it was logged
};
struct SinkInfo {
	std::string id;
	std::shared_ptr<Buf> buf; // stream sink
	std::string path;         // file sink
	bool dead = false;        // nothing is claimed about its content any more
	bool plain = false, bare = false;
	std::map<std::string, LogLevel> rules{{"", LogLevel::LVL_WARN}};
	std::vector<Want> want;
};

struct H : Harness {
	std::map<std::string, SinkInfo> sinks;
	std::vector<std::unique_ptr<std::ostream>> streams;
	std::vector<SinkInfo> retired;
	bool fixed = true;
	int num[MAXT] = {};
	int ntasks = 1, disk_errors = 0;
	int files = 0;

	void configure(Rng& r, Config& c, bool faults) override {
		fixed = r.chance(0.7);
		c.preempt = fixed; // reconfiguring is a client step of its own: no promise for it while others are inside the logger
		c.ntasks = (int)r.range(1, 4);
		ntasks = c.ntasks;
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(2, 12);
		if (faults) {
			c.rate[F_STALL] = pick_from(r, {0.0, 0.0005});
			c.rate[F_CLIENT] = pick_from(r, {0.0, 0.01, 0.05});
			c.rate[F_OPEN] = pick_from(r, {0.0, 0.2});
			c.rate[F_WRITE_SHORT] = pick_from(r, {0.0, 0.3, 0.9});
			c.rate[F_WRITE_EINTR] = pick_from(r, {0.0, 0.2});
			c.rate[F_WRITE_ERR] = pick_from(r, {0.0, 0.05});
			c.rate[F_DISK_FULL] = pick_from(r, {0.0, 0.03});
		}
	}
	static LogLevel threshold(const SinkInfo& s, std::string ch) {
		// the nearest configured ancestor in the dot hierarchy
		while (true) {
			auto it = s.rules.find(ch);
			if (it != s.rules.end()) return it->second;
			std::size_t p = std::string::npos;
			for (std::size_t i = 0; i < ch.size(); ++i) if (ch[i] == '.') p = i;
			ch = p == std::string::npos ? "" : std::string(ch.begin(), ch.begin() + p);
		}
	}
	void add_sink(Rng& r, const std::string& id) {
		SinkInfo s;
		s.id = id;
		auto old = sinks.find(id);
		if (r.chance(0.35)) {
			{ Quiet q; s.path = std::string(scratch()) + "/log" + std::to_string(files++); }
			{ Faulty f; logger().configure(id, s.path); }
			s.dead = faults_in_op(F_OPEN) > 0 || disk_full();
			if (faults_in_op(F_OPEN)) reach("sink-open-failed");
		} else {
			{
				Quiet q;
				s.buf = std::make_shared<Buf>();
				s.buf->faulty = r.chance(0.3);
				streams.emplace_back(new std::ostream(s.buf.get()));
			}
			logger().configure(id, *streams.back());
		}
		Quiet q;
		SIM_LOG("sink " << id << (s.path.empty() ? " stream" : " file") << (s.dead ? " (not open)" : ""));
		if (old != sinks.end()) { retired.push_back(old->second); old->second = s; } else sinks.emplace(id, s);
	}
	void tune(Rng& r, const std::string& id) {
		SinkInfo& s = sinks[id];
		if (r.chance(0.25)) {
			logger().formatter(id, std::make_shared<Plain>());
			s.plain = true;
			s.bare = false;
		}
		if (!s.plain && r.chance(0.15)) { logger().formatter(id)->printInformation = false; s.bare = true; }
		int n = (int)r.below(4);
		for (int i = 0; i < n; ++i) {
			std::string ch = channels[r.below(12)];
			LogLevel l = (LogLevel)r.below(8);
			logger().filter(id)(ch, l);
			Quiet q;
			s.rules[ch] = l;
			SIM_LOG("sink " << id << " \"" << ch << "\" >= " << level_names[(int)l]);
		}
		if (r.chance(0.3)) logger().resetFormatter();
	}
	void setup(Rng& r) override {
		logger();
		int n = (int)r.range(1, 3);
		for (int i = 0; i < n; ++i) {
			std::string id = "sink" + std::to_string(i);
			add_sink(r, id);
			tune(r, id);
		}
		SIM_CHECK(logger().has("sink0") && !logger().has("sink9"), "config", "installed sinks are not reported");
	}
	/// With several threads a disk error cannot be attributed to one file: from the first one on nothing is claimed about any.
	void note_disk() {
		if (!disk_full() && faults_so_far(F_WRITE_ERR) + faults_so_far(F_DISK_FULL) == disk_errors) return;
		disk_errors = faults_so_far(F_WRITE_ERR) + faults_so_far(F_DISK_FULL);
		for (auto& p : sinks) if (!p.second.path.empty()) p.second.dead = true;
	}
	std::string content(const SinkInfo& s) {
		if (s.buf) return s.buf->data;
		std::ifstream in(s.path, std::ios::binary);
		std::stringstream ss;
		ss << in.rdbuf();
		return ss.str();
	}
	static std::string tail(const Want& w) { return w.bare ? w.rec->text : w.plain ? "] " + w.rec->text : "func(): " + w.rec->text; }
	void op(int t, int, Rng& r) override {
		if (!fixed && r.chance(0.25)) {
			std::string id = "sink" + std::to_string(r.below(4));
			if (!sinks.count(id) || r.chance(0.2)) add_sink(r, id);
			tune(r, id);
			return;
		}
		auto x = std::make_shared<Record>();
		{
			Quiet q;
			x->task = t;
			x->num = num[t]++;
			x->level = levels[r.below(6)];
			x->channel = channels[r.below(12)];
			std::ostringstream os;
			os << "record " << t << "/" << x->num << " " << std::string(r.chance(0.03) ? r.range(5000, 20000) : r.below(20), 'x') << "!";
			x->text = os.str();
		}
		if (r.chance(0.05)) { Quiet q; note_disk(); set_disk_full(false); }
		bool any = false;
		{
			Quiet q;
			for (auto& p : sinks) {
				bool pass = (int)x->level >= (int)threshold(p.second, x->channel);
				any |= pass;
				if (pass) { p.second.want.push_back({x, p.second.plain, p.second.bare}); if (p.second.buf && p.second.buf->dead) p.second.dead = true; }
			}
			SIM_LOG("t" << t << " log " << level_names[(int)x->level] << " \"" << x->channel << "\" " << x->text.substr(0, 40));
		}
		bool vis = carl::logging::visible(x->level, x->channel);
		SIM_CHECK(vis == any, "filter", "record of level " << level_names[(int)x->level] << " on \"" << x->channel << "\" is " << (vis ? "" : "not ") << "visible");
		if (vis) {
			try {
				std::stringstream ss;
				ss << x->text;
				Faulty f;
				carl::logging::log(x->level, x->channel, ss, carl::logging::RecordInfo{"/some/dir/file.cpp", "func", 42});
			} catch (const std::exception& e) {
				SIM_CHECK(false, "throws", "logging call throws " << e.what());
			}
		}
		Quiet q;
		bool hard = faults_in_op(F_WRITE_ERR) || disk_full() || faults_in_op(F_DISK_FULL);
		if (ntasks > 1) note_disk();
		for (auto& p : sinks) {
			SinkInfo& s = p.second;
			if (s.buf && s.buf->dead) s.dead = true;
			if (!s.path.empty() && hard && !s.want.empty() && s.want.back().rec == x) { if (!s.dead) reach("file-sink-failed"); s.dead = true; }
			if (s.dead) continue;
			const Want* wanted = nullptr;
			for (auto& w : s.want) if (w.rec == x) wanted = &w;
			if (!wanted) continue;
			// the record is there when the call returns
			std::string c = content(s), line = tail(*wanted) + "\n";
			SIM_CHECK(c.find(line) != std::string::npos, "lost", "after the call returned, sink " << s.id << " does not hold " << x->text.substr(0, 40));
			observe(c.size());
			state(mix(std::hash<std::string>()(s.id), s.want.size()));
		}
	}
	void verify(const SinkInfo& s) {
		if (s.dead) return;
		std::string c = content(s);
		std::istringstream in(c);
		std::string line;
		std::size_t i = 0;
		std::map<int, int> last;
		std::map<const Record*, int> seen;
		SIM_CHECK(c.empty() || c.back() == '\n', "torn", "sink " << s.id << " ends with an incomplete line");
		while (std::getline(in, line)) {
			const Want* w = nullptr;
			for (auto& c : s.want) {
				std::string e = tail(c);
				if (line.size() >= e.size() && line.compare(line.size() - e.size(), e.size(), e) == 0) w = &c;
			}
			const Record* hit = w ? w->rec.get() : nullptr;
			SIM_CHECK(hit, "torn", "sink " << s.id << " holds the line \"" << line.substr(0, 120) << "\", which is no record it should get");
			if (w->bare) SIM_CHECK(line == hit->text, "torn", "line \"" << line.substr(0, 120) << "\" has more than the text");
			else {
				std::ostringstream head;
				if (w->plain) head << "# " << hit->level << " [" << hit->channel << "] ";
				else head << " " << hit->level << " " << hit->channel << " ";
				std::size_t at = line.find(head.str());
				SIM_CHECK(at != std::string::npos && (!w->plain || at == 0) && at < 24, "torn", "line \"" << line.substr(0, 120) << "\" lacks level or channel of its record");
				if (!w->plain) SIM_CHECK(line.find("file.cpp:42") != std::string::npos && line.find("/some/dir") == std::string::npos, "torn", "line \"" << line.substr(0, 120) << "\" lacks its position");
				if (!w->plain) for (std::size_t k = 0; k < at; ++k) SIM_CHECK(std::isxdigit(line[k]) || line[k] == 'x', "torn", "line \"" << line.substr(0, 120) << "\" starts with foreign text");
			}
			SIM_CHECK(++seen[hit] == 1, "twice", "record " << hit->text.substr(0, 30) << " appears twice in sink " << s.id);
			auto l = last.find(hit->task);
			SIM_CHECK(l == last.end() || l->second < hit->num, "order", "records of one thread are out of order in sink " << s.id);
			last[hit->task] = hit->num;
			++i;
		}
		SIM_CHECK(i == s.want.size(), "lost", "sink " << s.id << " holds " << i << " of " << s.want.size() << " records");
		if (i > 3) reach("sink-with-several-records");
	}
	void finish() override {
		Quiet q;
		for (auto& p : sinks) verify(p.second);
		for (auto& s : retired) verify(s);
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

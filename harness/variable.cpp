// Variable registry: uniqueness, naming, lookup, persistence.
#include "common.h"
#include <carl/core/Variable.h>
#include <carl/core/VariablePool.h>
#include <list>
#include <set>

using namespace sim;
using carl::Variable;
using carl::VariablePool;
using carl::VariableType;

namespace sim { const char* const harness_name = "variable"; }

namespace {
constexpr VariableType types[] = {VariableType::VT_BOOL, VariableType::VT_REAL, VariableType::VT_INT, VariableType::VT_UNINTERPRETED, VariableType::VT_BITVECTOR};

struct Rec {
	Variable v;
	VariableType type;
	int owner;
	bool persistent = false;
	std::string created;             // name at creation, "" = generated
	std::vector<std::string> names;  // every name since creation, current last
	bool published = false;
};

struct H : Harness {
	std::list<Rec> recs;
	std::vector<Rec*> own[MAXT];
	bool clearing = false, longnames = false, autoprefix = false;
	std::string prefix = "_";
	int counter = 0;
	std::size_t before[5] = {};
	std::vector<std::vector<Rec*>> ids;

	void configure(Rng& r, Config& c, bool faults) override {
		clearing = r.chance(0.3);
		longnames = r.chance(0.5);
		autoprefix = r.chance(0.1);
		c.ntasks = clearing ? 1 : (int)r.range(1, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(5, 35);
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.05, 0.2});
			c.rate[F_STALL] = 0.02;
		}
	}
	void setup(Rng&) override {
		VariablePool::getInstance();
		if (autoprefix) {
			prefix = "aux";
			VariablePool::getInstance().setPrefix("aux");
		}
		for (int k = 0; k < 5; ++k) before[k] = VariablePool::getInstance().nrVariables(types[k]);
	}
	static std::string generated(const std::string& prefix, Variable v) {
		static const char* n[] = {"b_", "r_", "i_", "u_", "bv_"};
		return prefix + n[(int)v.type()] + std::to_string(v.id());
	}
	std::string fresh_name(Rng& r, int t) {
		// few names, so that lookups hit; unique ones now and then
		std::string s = r.chance(0.6) ? "n" + std::to_string(r.below(5)) : "u" + std::to_string(t) + "_" + std::to_string(++counter);
		if (longnames) s += "_a_rather_long_name_that_needs_memory";
		return s;
	}
	Rec* add(int t, Variable v, VariableType ty, const std::string& name, bool pers) {
		SIM_CHECK(v.type() == ty, "wrong-type", "fresh variable has type " << (int)v.type() << ", wanted " << (int)ty);
		SIM_CHECK(v.id() != 0 && v.rank() == 0, "identity", "fresh variable without proper id");
		for (auto& o : recs) {
			SIM_CHECK(!(o.v == v), "duplicate", "fresh variable (type " << (int)ty << ", id " << v.id() << ") was handed out before" << (o.persistent ? " and is persistent" : ""));
			SIM_CHECK(o.v.safe_name() != v.safe_name(), "duplicate", "two variables share the safe name " << v.safe_name());
		}
		recs.emplace_back();
		Rec* n = &recs.back();
		n->v = v;
		n->type = ty;
		n->owner = t;
		n->persistent = pers;
		n->created = name;
		n->names.push_back(name.empty() ? generated(prefix, v) : name);
		own[t].push_back(n);
		std::uint64_t h = 0;
		for (auto& o : recs) h = mix(h, mix(o.v.id() * 8 + (int)o.type, std::hash<std::string>()(o.names.back())));
		state(h);
		observe(v.id() * 8 + (int)ty);
		return n;
	}
	void op(int t, int, Rng& r) override {
		int k = (int)r.below(clearing ? 13 : 12);
		VariableType ty = types[r.below(5)];
		auto& pool = VariablePool::getInstance();
		if (k <= 2) {
			Variable v = carl::freshVariable(ty);
			SIM_LOG("t" << t << " fresh -> " << (int)ty << "/" << v.id());
			Quiet q;
			add(t, v, ty, "", false);
		} else if (k <= 5) {
			std::string n;
			{ Quiet q; n = fresh_name(r, t); }
			std::string arg(n);
			Variable v;
			bool failed = false;
			try {
				Faulty f;
				v = carl::freshVariable(arg, ty);
			} catch (const std::bad_alloc&) {
				failed = true;
			}
			SIM_LOG("t" << t << " fresh \"" << n << "\" -> " << (int)ty << "/" << v.id() << (failed ? " bad_alloc" : ""));
			SIM_CHECK(!failed || faults_in_op(F_ALLOC) > 0, "exception", "bad_alloc without allocation failure");
			if (failed) { reach("alloc-failure-survived"); return; }
			Quiet q;
			add(t, v, ty, n, false);
		} else if (k == 6) {
			bool named = r.chance(0.6);
			std::string n;
			if (named) { Quiet q; n = fresh_name(r, t); }
			std::string arg(n);
			Variable v = named ? pool.getFreshPersistentVariable(arg, ty) : pool.getFreshPersistentVariable(ty);
			SIM_LOG("t" << t << " persistent \"" << n << "\" -> " << (int)ty << "/" << v.id());
			Quiet q;
			add(t, v, ty, n, true);
			reach("persistent-created");
		} else if (k == 7) { // rename an own variable
			if (own[t].empty()) return;
			Rec* x = own[t][r.below(own[t].size())];
			std::string n;
			{ Quiet q; n = fresh_name(r, t); x->names.push_back(n); /* visible from now on at the earliest */ }
			std::string arg(n);
			bool failed = false;
			try {
				Faulty f;
				pool.setName(x->v, arg);
			} catch (const std::bad_alloc&) {
				failed = true;
				reach("rename-failed");
			}
			SIM_LOG("t" << t << " rename " << (int)x->type << "/" << x->v.id() << " \"" << n << "\"" << (failed ? " bad_alloc" : ""));
			Quiet q;
			if (failed) {
				SIM_CHECK(faults_in_op(F_ALLOC) > 0, "exception", "bad_alloc without allocation failure");
				std::string old = x->names[x->names.size() - 2];
				x->names.push_back(old);
			}
			x->published = true; // floor of what readers may still see is tracked by index
		} else if (k <= 9) { // read a name, own or foreign
			Rec* x = nullptr;
			std::size_t from = 0;
			{
				Quiet q;
				if (recs.empty()) return;
				std::size_t i = r.below(recs.size());
				auto it = recs.begin();
				std::advance(it, i);
				x = &*it;
				// A rename that already started may or may not have taken effect; renames that ended before are definite.
				from = x->names.size() - 1;
				if (from > 0) --from;
			}
			std::string got = r.chance(0.5) ? x->v.name() : pool.getName(x->v);
			std::string plain = pool.getName(x->v, false);
			Quiet q;
			bool ok = false;
			if (x->owner == t) ok = got == x->names.back();
			else for (std::size_t i = from; i < x->names.size(); ++i) ok = ok || got == x->names[i];
			SIM_CHECK(ok, "wrong-name", "variable " << (int)x->type << "/" << x->v.id() << " reports \"" << got << "\", expected \"" << x->names.back() << "\"");
			SIM_CHECK(plain == generated(prefix, x->v), "wrong-name", "generated name is \"" << plain << "\"");
			if (x->owner != t) reach("foreign-name-read");
			observe(std::hash<std::string>()(got));
		} else if (k == 10) { // lookup by name
			std::string n;
			{ Quiet q; n = fresh_name(r, t); }
			std::string arg(n);
			std::vector<std::pair<Rec*, std::size_t>> before_names;
			{
				Quiet q;
				for (auto& x : recs) before_names.emplace_back(&x, x.names.size());
			}
			Variable v = pool.findVariableWithName(arg);
			Quiet q;
			if (v == Variable::NO_VARIABLE) {
				// some variable carried the name during the whole call?
				for (auto& p : before_names)
					SIM_CHECK(!(p.first->names.size() == p.second && p.second > 0 && p.first->names.back() == n && !(p.first->created.empty() && p.first->names.size() == 1) && stable(*p.first, p.second)),
							  "lookup", "no variable found for name \"" << n << "\" although " << (int)p.first->type << "/" << p.first->v.id() << " carries it");
			} else {
				reach("lookup-hit");
				bool ok = false;
				for (auto& x : recs) if (x.v == v) {
					std::size_t from = 0;
					for (auto& p : before_names) if (p.first == &x) from = p.second >= 2 ? p.second - 2 : 0;
					for (std::size_t i = from; i < x.names.size(); ++i) ok = ok || x.names[i] == n;
				}
				bool unknown = true;
				for (auto& x : recs) if (x.v == v) unknown = false;
				// a named variable whose creation has not returned yet, or whose creation failed after naming, is legitimate
				SIM_CHECK(ok || unknown, "lookup", "variable " << (int)v.type() << "/" << v.id() << " found for \"" << n << "\" never had that name");
				if (unknown) SIM_CHECK(pool.getName(v) == n, "lookup", "lookup of \"" << n << "\" returned a variable named " << pool.getName(v));
			}
		} else if (k == 11) { // number of variables
			std::size_t have = 0;
			{ Quiet q; for (auto& x : recs) if (x.type == ty) have = std::max(have, x.v.id()); }
			std::size_t n = pool.nrVariables(ty);
			SIM_CHECK(n >= have, "count", "registry reports " << n << " variables of a type, id " << have << " was handed out");
			observe(n);
		} else { // clear, single client only
			SIM_LOG("clear");
			pool.clear();
			reach("cleared");
			Quiet q;
			own[t].clear();
			for (auto it = recs.begin(); it != recs.end();) {
				if (!it->persistent) { it = recs.erase(it); continue; }
				it->names.clear();
				it->names.push_back(it->created.empty() ? generated(prefix, it->v) : it->created);
				own[t].push_back(&*it);
				++it;
			}
			for (auto& x : recs)
				SIM_CHECK(pool.getName(x.v) == x.names.back(), "persistent", "persistent variable " << (int)x.type << "/" << x.v.id() << " is called \"" << pool.getName(x.v) << "\" after clear, expected \"" << x.names.back() << "\"");
		}
	}
	bool stable(const Rec& x, std::size_t) { return x.owner == self() || !parallel_phase() || x.names.size() == 1; }
	void finish() override {
		auto& pool = VariablePool::getInstance();
		{
			Quiet q;
			for (auto& x : recs) {
				SIM_CHECK(pool.getName(x.v) == x.names.back(), "wrong-name", "finally variable " << (int)x.type << "/" << x.v.id() << " is called \"" << pool.getName(x.v) << "\", expected \"" << x.names.back() << "\"");
				if (x.names.back() != generated(prefix, x.v)) {
					Variable v = pool.findVariableWithName(x.names.back());
					SIM_CHECK(v != Variable::NO_VARIABLE && pool.getName(v) == x.names.back(), "lookup", "name \"" << x.names.back() << "\" cannot be looked up");
				}
			}
		}
		pool.clear();
		{
			Quiet q;
			for (auto it = recs.begin(); it != recs.end();) {
				if (!it->persistent) { it = recs.erase(it); continue; }
				std::string want = it->created.empty() ? generated(prefix, it->v) : it->created;
				SIM_CHECK(pool.getName(it->v) == want, "persistent", "persistent variable " << (int)it->type << "/" << it->v.id() << " is called \"" << pool.getName(it->v) << "\" after clear, expected \"" << want << "\"");
				++it;
			}
		}
		for (int i = 0; i < 20; ++i) {
			Variable v = carl::freshVariable(types[i % 5]);
			Quiet q;
			add(0, v, types[i % 5], "", false);
			SIM_CHECK(pool.getName(v) == generated(prefix, v), "wrong-name", "variable created after clear inherits the name \"" << pool.getName(v) << "\"");
		}
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

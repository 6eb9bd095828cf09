// Sorts, uninterpreted functions and their applications: several clients declare, look up and combine.
#include "common.h"
#include <carl/core/VariablePool.h>
#include <carl/formula/SortManager.h>
#include <carl/formula/uninterpreted/UEquality.h>
#include <carl/formula/uninterpreted/UFInstanceManager.h>
#include <carl/formula/uninterpreted/UFManager.h>

using namespace sim;
namespace sim { const char* const harness_name = "uf"; }

namespace {
using carl::Sort;
using carl::VariableType;

struct SortDesc {
	std::string name;
	bool has_params = false, has_idx = false;
	std::vector<int> params; // numbers of sorts
	std::vector<std::size_t> idx;
	bool operator<(const SortDesc& o) const { return std::tie(name, has_params, params, has_idx, idx) < std::tie(o.name, o.has_params, o.params, o.has_idx, o.idx); }
};
struct FunDesc {
	std::string name;
	std::vector<int> dom;
	int cod = 0;
	bool operator<(const FunDesc& o) const { return std::tie(name, dom, cod) < std::tie(o.name, o.dom, o.cod); }
};
struct AppDesc {
	int fun = 0;
	std::vector<int> args; // numbers of terms
	bool operator<(const AppDesc& o) const { return std::tie(fun, args) < std::tie(o.fun, o.args); }
};

struct H : Harness {
	struct S { Sort s; SortDesc d; VariableType type; };
	struct F { carl::UninterpretedFunction f; FunDesc d; };
	struct T { carl::UTerm t; int sort; int app; carl::Variable var; std::size_t complexity; std::set<carl::Variable> vars; std::set<int> funs; std::string text; };
	std::vector<S> sorts;
	std::map<SortDesc, int> sort_no;
	std::map<std::string, std::size_t> declared;
	std::map<std::string, std::pair<std::vector<std::string>, int>> defined;
	std::map<int, std::pair<std::size_t, VariableType>> indexable;
	std::map<VariableType, int> interpreted;
	std::vector<F> funs;
	std::map<FunDesc, int> fun_no;
	std::vector<T> terms;
	std::vector<AppDesc> apps;
	std::map<AppDesc, int> app_no; // number of the term

	void configure(Rng& r, Config& c, bool faults) override {
		c.preempt = false; // the managers make no promise about concurrent calls; clients are interleaved between calls
		c.ntasks = (int)r.range(1, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(5, r.chance(0.1) ? 150 : 40);
		if (faults) c.rate[F_ALLOC] = pick_from(r, {0.002, 0.01, 0.05, 0.2});
	}
	void setup(Rng&) override {
		auto& m = carl::SortManager::getInstance();
		carl::UFManager::getInstance();
		carl::UFInstanceManager::getInstance();
		carl::freshRealVariable();
		Sort b = m.addInterpretedSort("Bool", VariableType::VT_BOOL);
		Sort n = m.addInterpretedSort("Int", VariableType::VT_INT);
		Sort v = m.addSort("BitVec", VariableType::VT_UNINTERPRETED);
		m.makeSortIndexable(v, 1, VariableType::VT_BITVECTOR);
		Sort x = m.addSort("X");
		Sort y = m.addSort("Y");
		Quiet q;
		learn(b, {"Bool"}, VariableType::VT_BOOL);
		learn(n, {"Int"}, VariableType::VT_INT);
		learn(v, {"BitVec"}, VariableType::VT_UNINTERPRETED);
		learn(x, {"X"}, VariableType::VT_UNINTERPRETED);
		learn(y, {"Y"}, VariableType::VT_UNINTERPRETED);
		indexable[2] = {1, VariableType::VT_BITVECTOR};
		interpreted[VariableType::VT_BOOL] = 0;
		interpreted[VariableType::VT_INT] = 1;
	}
	std::string name_of(Rng& r) { Quiet q; return pick_from<const char*>(r, {"A", "B", "AB", "List", "Array", "Pair", "BitVec", "Bool", "X", "a_sort_with_a_rather_long_name", "a_sort_with_a_rather_long_nam"}); }
	bool is_free(const std::string& n) {
		for (auto& s : sorts) if (s.d.name == n) return false;
		return !declared.count(n) && !defined.count(n);
	}
	std::string text(int no) {
		auto& d = sorts[no].d;
		std::ostringstream os;
		if (d.has_idx) os << "(_ ";
		if (d.has_params) os << "(";
		os << d.name;
		if (d.has_params) { for (int p : d.params) os << " " << text(p); os << ")"; }
		if (d.has_idx) { for (auto i : d.idx) os << " " << i; os << ")"; }
		return os.str();
	}
	/// Checks the handle obtained for a description and records it if it is new.
	int learn(Sort s, const SortDesc& d, VariableType type) {
		auto it = sort_no.find(d);
		if (it == sort_no.end()) {
			for (std::size_t i = 0; i < sorts.size(); ++i) SIM_CHECK(!(sorts[i].s == s), "identity", "the new sort " << d.name << " has the handle of " << text((int)i));
			SIM_CHECK(s.id() != 0, "identity", "a declared sort is not found: " << d.name);
			sorts.push_back({s, d, type});
			it = sort_no.emplace(d, (int)sorts.size() - 1).first;
			reach("new-sort");
		} else SIM_CHECK(sorts[it->second].s == s, "identity", "the sort " << text(it->second) << " was obtained as another handle, id " << s.id());
		check_sort(it->second);
		return it->second;
	}
	void check_sort(int no) {
		auto& m = carl::SortManager::getInstance();
		auto& x = sorts[no];
		SIM_CHECK(m.getName(x.s) == x.d.name, "content", "sort " << text(no) << " is called " << m.getName(x.s));
		auto* p = m.getParameters(x.s);
		SIM_CHECK((p != nullptr) == x.d.has_params, "content", "sort " << text(no) << (p ? " has" : " lost its") << " parameters");
		if (p) {
			SIM_CHECK(p->size() == x.d.params.size(), "content", "sort " << text(no) << " has " << p->size() << " parameters");
			for (std::size_t i = 0; i < p->size(); ++i) SIM_CHECK((*p)[i] == sorts[x.d.params[i]].s, "content", "parameter " << i << " of sort " << text(no) << " changed");
		}
		auto* ix = m.getIndices(x.s);
		SIM_CHECK((ix != nullptr) == x.d.has_idx && (!ix || *ix == x.d.idx), "content", "the indices of sort " << text(no) << " are wrong");
		SIM_CHECK(m.getArity(x.s) == x.d.params.size() && x.s.arity() == x.d.params.size(), "content", "sort " << text(no) << " has arity " << m.getArity(x.s));
		SIM_CHECK(m.getType(x.s) == x.type, "content", "sort " << text(no) << " has type " << m.getType(x.s));
		SIM_CHECK(m.isInterpreted(x.s) == (x.type != VariableType::VT_UNINTERPRETED), "content", "sort " << text(no) << " is wrongly reported (un)interpreted");
		std::ostringstream os;
		os << x.s;
		SIM_CHECK(os.str() == text(no), "content", "sort " << text(no) << " prints as " << os.str());
	}
	/// What indexing gives: the description and its type if it is new.
	VariableType index_type(const SortDesc& base, std::size_t count) {
		SortDesc plain = base;
		plain.has_idx = false;
		plain.idx.clear();
		auto it = sort_no.find(plain);
		if (it == sort_no.end()) return VariableType::VT_UNINTERPRETED;
		auto jt = indexable.find(it->second);
		return jt != indexable.end() && jt->second.first == count ? jt->second.second : VariableType::VT_UNINTERPRETED;
	}
	SortDesc indexed(SortDesc d, const std::vector<std::size_t>& idx) {
		if (idx.empty()) return d;
		d.has_idx = true;
		d.idx.insert(d.idx.end(), idx.begin(), idx.end());
		return d;
	}
	/// Replays the instantiation of a template in the model; -1 for parts the library may or may not have registered yet.
	struct Node { SortDesc d; std::vector<Node> kids; };
	Node expand(int no, const std::map<std::string, int>& repl) {
		auto it = repl.find(sorts[no].d.name);
		if (it != repl.end()) return expand(it->second, {});
		Node n;
		n.d = sorts[no].d;
		for (int p : sorts[no].d.params) n.kids.push_back(expand(p, repl));
		return n;
	}
	/// Learns the parts of an instantiated sort bottom up, finding their handles through the parameters of the result.
	int learn_tree(Sort s, const Node& n) {
		SortDesc d = n.d;
		if (d.has_params) {
			auto* p = carl::SortManager::getInstance().getParameters(s);
			SIM_CHECK(p && p->size() == n.kids.size(), "content", "an instance of a sort template lacks parameters");
			for (std::size_t i = 0; i < n.kids.size(); ++i) d.params[i] = learn_tree((*p)[i], n.kids[i]);
		}
		return learn(s, d, d.has_idx ? index_type(d, d.idx.size()) : VariableType::VT_UNINTERPRETED);
	}
	/// Whether a template parameter occurs with indices, which has no agreed meaning.
	bool indexed_parameter(int no) {
		auto& d = sorts[no].d;
		if ((d.name == "X" || d.name == "Y") && d.has_idx) return true;
		for (int p : d.params) if (indexed_parameter(p)) return true;
		return false;
	}
	std::vector<int> some_sorts(Rng& r, std::size_t n) {
		Quiet q;
		std::vector<int> v;
		for (std::size_t i = 0; i < n; ++i) v.push_back((int)(r.chance(0.5) ? r.below(std::min<std::size_t>(sorts.size(), 6)) : r.below(sorts.size())));
		return v;
	}
	std::vector<Sort> handles(const std::vector<int>& v) { Quiet q; std::vector<Sort> h; for (int i : v) h.push_back(sorts[i].s); return h; }
	std::vector<std::size_t> some_indices(Rng& r) { Quiet q; std::vector<std::size_t> v; for (std::size_t i = r.range(r.chance(0.1) ? 0 : 1, 2); i > 0; --i) v.push_back(r.below(3) * 8); return v; }

	void sort_op(int t, Rng& r) {
		auto& m = carl::SortManager::getInstance();
		std::string name = name_of(r);
		switch (r.below(8)) {
		case 0: {
			std::size_t arity = r.below(3);
			SIM_LOG("t" << t << " declare " << name << " " << arity);
			bool fresh = is_free(name), got;
			{ Faulty f; got = m.declare(name, arity); }
			Quiet q;
			SIM_CHECK(got == fresh, "declare", "declaring " << name << (fresh ? " is refused although the name is free" : " is accepted although the name is taken"));
			if (got) {
				declared[name] = arity;
				if (arity == 0) learn(m.getSort(name), SortDesc{name}, VariableType::VT_UNINTERPRETED);
				reach("declared");
			} else reach("declaration-refused");
			break;
		}
		case 1: {
			std::vector<std::string> params;
			int base = (int)r.below(sorts.size());
			if (indexed_parameter(base)) return;
			{ Quiet q; params = r.chance(0.5) ? std::vector<std::string>{"X"} : r.chance(0.5) ? std::vector<std::string>{"X", "Y"} : std::vector<std::string>{"Y"}; }
			SIM_LOG("t" << t << " define " << name << " as " << text(base));
			bool fresh = is_free(name), got;
			{ Faulty f; got = m.define(name, params, sorts[base].s); }
			Quiet q;
			SIM_CHECK(got == fresh, "declare", "defining " << name << (fresh ? " is refused although the name is free" : " is accepted although the name is taken"));
			if (got) { defined[name] = {params, base}; reach("defined"); }
			break;
		}
		case 2: {
			Sort s;
			{ Faulty f; s = m.getSort(name); }
			Quiet q;
			SIM_LOG("t" << t << " get " << name);
			auto it = sort_no.find(SortDesc{name});
			if (it == sort_no.end()) SIM_CHECK(s.id() == 0, "identity", "the undeclared sort " << name << " is found");
			else learn(s, SortDesc{name}, sorts[it->second].type);
			break;
		}
		case 3: case 4: {
			std::size_t want = declared.count(name) ? declared[name] : defined.count(name) ? defined[name].first.size() : r.range(1, 2);
			if (want == 0 || r.chance(0.1)) want = r.range(1, 3);
			auto ps = some_sorts(r, want);
			auto hs = handles(ps);
			std::vector<std::size_t> idx;
			bool known = declared.count(name) || defined.count(name);
			std::size_t arity = declared.count(name) ? declared[name] : defined.count(name) ? defined[name].first.size() : 0;
			bool ok = known && arity == want;
			if (ok && r.chance(0.2)) idx = some_indices(r);
			SIM_LOG("t" << t << " get " << name << " with " << want << " parameters and " << idx.size() << " indices");
			Sort s;
			{ Faulty f; s = idx.empty() ? m.getSort(name, hs) : m.getSort(name, idx, hs); }
			Quiet q;
			if (!ok) { SIM_CHECK(s.id() == 0, "identity", "the sort " << name << " with " << want << " parameters is found, declared arity is " << arity); reach("wrong-arity"); break; }
			if (declared.count(name)) {
				SortDesc d{name};
				d.has_params = true;
				d.params = ps;
				if (!idx.empty()) {
					// the unindexed sort is registered on the way
					learn(m.getSort(name, hs), d, VariableType::VT_UNINTERPRETED);
					auto type = index_type(d, idx.size());
					learn(s, indexed(d, idx), type);
				} else learn(s, d, VariableType::VT_UNINTERPRETED);
				reach("instance");
			} else {
				auto& def = defined[name];
				std::map<std::string, int> repl;
				for (std::size_t i = 0; i < ps.size(); ++i) repl[def.first[i]] = ps[i];
				Node n = expand(def.second, repl);
				if (!idx.empty()) {
					Sort plain = m.getSort(name, hs);
					int no = learn_tree(plain, n);
					SortDesc d = indexed(sorts[no].d, idx);
					learn(s, d, index_type(sorts[no].d, d.idx.size()));
				} else learn_tree(s, n);
				reach("template-instance");
			}
			break;
		}
		case 5: case 6: {
			int base = (int)r.below(sorts.size());
			auto idx = some_indices(r);
			bool by_name = !sorts[base].d.has_params && !sorts[base].d.has_idx && r.chance(0.5);
			Sort s;
			{ Faulty f; s = by_name ? m.getSort(sorts[base].d.name, idx) : m.index(sorts[base].s, idx); }
			Quiet q;
			SIM_LOG("t" << t << " index " << text(base) << " " << idx.size());
			SortDesc d = indexed(sorts[base].d, idx);
			learn(s, d, index_type(sorts[base].d, d.idx.size()));
			reach("indexed");
			break;
		}
		default: {
			if (!is_free(name)) return;
			auto ps = some_sorts(r, r.below(3));
			auto hs = handles(ps);
			VariableType ty = r.chance(0.7) ? VariableType::VT_UNINTERPRETED : VariableType::VT_REAL;
			bool interp = ty == VariableType::VT_REAL && !interpreted.count(ty);
			SIM_LOG("t" << t << " add sort " << name << " with " << ps.size() << " parameters");
			Sort s;
			{
				Faulty f;
				if (interp && ps.empty()) s = m.addSort(name, ty);
				else s = ps.empty() ? m.addSort(name, ty) : m.addSort(name, hs, ty);
			}
			Quiet q;
			SortDesc d{name};
			d.has_params = !ps.empty();
			d.params = ps;
			learn(s, d, ty);
			if (interp) { m.addInterpretedMapping(s, ty); interpreted[ty] = (int)sorts.size() - 1; }
			if (r.chance(0.3)) { auto n = (std::size_t)r.range(1, 2); m.makeSortIndexable(s, n, VariableType::VT_BITVECTOR); indexable[(int)sorts.size() - 1] = {n, VariableType::VT_BITVECTOR}; }
		}
		}
	}
	void check_fun(int no) {
		auto& x = funs[no];
		SIM_CHECK(x.f.name() == x.d.name, "content", "function " << x.d.name << " is called " << x.f.name());
		SIM_CHECK(x.f.domain() == handles(x.d.dom), "content", "the domain of function " << x.d.name << " changed");
		SIM_CHECK(x.f.codomain() == sorts[x.d.cod].s, "content", "the codomain of function " << x.d.name << " changed");
	}
	void check_term(int no) {
		auto& x = terms[no];
		SIM_CHECK(x.t.domain() == sorts[x.sort].s, "content", "term " << x.text << " has another sort");
		SIM_CHECK(x.t.complexity() == x.complexity, "content", "term " << x.text << " has complexity " << x.t.complexity() << ", not " << x.complexity);
		if (x.app < 0) SIM_CHECK(x.t.isUVariable() && !x.t.isUFInstance() && x.t.asUVariable().variable() == x.var, "content", "variable " << x.text << " changed");
		else {
			SIM_CHECK(x.t.isUFInstance() && !x.t.isUVariable(), "content", "term " << x.text << " is no application");
			auto i = x.t.asUFInstance();
			auto& a = apps[x.app];
			SIM_CHECK(i.uninterpretedFunction() == funs[a.fun].f, "content", "application " << x.text << " applies another function");
			SIM_CHECK(i.args().size() == a.args.size(), "content", "application " << x.text << " has " << i.args().size() << " arguments");
			for (std::size_t k = 0; k < a.args.size(); ++k) SIM_CHECK(i.args()[k] == terms[a.args[k]].t, "content", "argument " << k << " of " << x.text << " changed");
		}
		std::ostringstream os;
		os << x.t;
		SIM_CHECK(os.str() == x.text, "content", "term " << x.text << " prints as " << os.str());
		carl::carlVariables vs;
		x.t.gatherVariables(vs);
		std::set<carl::Variable> got(vs.begin(), vs.end());
		SIM_CHECK(got == x.vars, "content", "term " << x.text << " has other variables");
		std::set<carl::UninterpretedFunction> fs;
		x.t.gatherUFs(fs);
		std::set<carl::UninterpretedFunction> want;
		for (int f : x.funs) want.insert(funs[f].f);
		SIM_CHECK(fs == want, "content", "term " << x.text << " has other functions");
	}
	void op(int t, int, Rng& r) override {
		try {
			std::uint64_t k = r.below(10);
			if (k < 4) sort_op(t, r);
			else if (k < 5) {
				carl::Variable v = carl::freshVariable(VariableType::VT_UNINTERPRETED);
				Quiet q;
				int s = (int)r.below(sorts.size());
				std::ostringstream os;
				os << v;
				terms.push_back({carl::UTerm(carl::UVariable(v, sorts[s].s)), s, -1, v, 1, {v}, {}, os.str()});
			} else if (k < 7) {
				FunDesc d;
				{
					Quiet q;
					if (!funs.empty() && r.chance(0.5)) {
						d = funs[r.below(funs.size())].d; // again or a little different
						switch (r.below(4)) {
						case 0: d.cod = some_sorts(r, 1)[0]; break;
						case 1: if (!d.dom.empty()) d.dom[r.below(d.dom.size())] = some_sorts(r, 1)[0]; break;
						case 2: d.name += "'"; break;
						default: break;
						}
					} else {
						d.name = std::string("f") + char('a' + r.below(3));
						d.dom = some_sorts(r, r.range(1, 3));
						d.cod = some_sorts(r, 1)[0];
					}
				}
				carl::UninterpretedFunction f;
				std::vector<Sort> dom = handles(d.dom);
				{ Faulty ff; f = carl::newUninterpretedFunction(d.name, dom, sorts[d.cod].s); }
				Quiet q;
				SIM_LOG("t" << t << " function " << d.name);
				auto it = fun_no.find(d);
				if (it == fun_no.end()) {
					SIM_CHECK(f.id() != 0, "identity", "function " << d.name << " has no id");
					for (auto& o : funs) SIM_CHECK(!(o.f == f), "identity", "the new function " << d.name << " has the handle of another one called " << o.d.name);
					funs.push_back({f, d});
					it = fun_no.emplace(d, (int)funs.size() - 1).first;
					reach("new-function");
				} else { SIM_CHECK(funs[it->second].f == f, "identity", "function " << d.name << " was obtained as another handle"); reach("function-again"); }
				check_fun(it->second);
			} else if (k < 9) {
				if (funs.empty()) return;
				AppDesc d;
				std::vector<carl::UTerm> args;
				{
					Quiet q;
					d.fun = (int)r.below(funs.size());
					for (int s : funs[d.fun].d.dom) {
						std::vector<int> fit;
						for (std::size_t i = 0; i < terms.size(); ++i) if (terms[i].sort == s) fit.push_back((int)i);
						if (fit.empty()) {
							carl::Variable v = carl::freshVariable(VariableType::VT_UNINTERPRETED);
							std::ostringstream os;
							os << v;
							terms.push_back({carl::UTerm(carl::UVariable(v, sorts[s].s)), s, -1, v, 1, {v}, {}, os.str()});
							fit.push_back((int)terms.size() - 1);
						}
						d.args.push_back(r.chance(0.5) ? fit[0] : fit[r.below(fit.size())]);
						args.push_back(terms[d.args.back()].t);
						if (terms[d.args.back()].complexity > 60) return;
					}
				}
				carl::UFInstance i;
				bool moved = r.chance(0.5);
				{ Faulty f; i = moved ? carl::newUFInstance(funs[d.fun].f, std::vector<carl::UTerm>(args)) : carl::newUFInstance(funs[d.fun].f, args); }
				Quiet q;
				SIM_LOG("t" << t << " apply " << funs[d.fun].d.name);
				auto it = app_no.find(d);
				if (it == app_no.end()) {
					SIM_CHECK(i.id() != 0, "identity", "application has no id");
					for (auto& o : terms) SIM_CHECK(o.app < 0 || !(o.t.asUFInstance() == i), "identity", "a new application has the handle of " << o.text);
					T x{carl::UTerm(i), funs[d.fun].d.cod, (int)apps.size(), carl::Variable::NO_VARIABLE, 1, {}, {d.fun}, funs[d.fun].d.name + "("};
					for (std::size_t k2 = 0; k2 < d.args.size(); ++k2) {
						auto& a = terms[d.args[k2]];
						x.complexity += a.complexity;
						x.vars.insert(a.vars.begin(), a.vars.end());
						x.funs.insert(a.funs.begin(), a.funs.end());
						x.text += (k2 ? ", " : "") + a.text;
					}
					x.text += ")";
					apps.push_back(d);
					terms.push_back(x);
					it = app_no.emplace(d, (int)terms.size() - 1).first;
					reach("new-application");
				} else { SIM_CHECK(terms[it->second].t == carl::UTerm(i), "identity", "application " << terms[it->second].text << " was obtained as another handle"); reach("application-again"); }
				check_term(it->second);
			} else if (!terms.empty()) {
				Quiet q;
				std::size_t a = r.below(terms.size()), b = r.below(terms.size());
				for (std::size_t i = 0; i < terms.size() && terms[b].sort != terms[a].sort; ++i) b = i;
				if (terms[b].sort != terms[a].sort) return;
				equality(terms[a], terms[b], r.chance(0.5), a == b);
			}
			Quiet q;
			check_sort((int)r.below(sorts.size()));
			if (!funs.empty()) check_fun((int)r.below(funs.size()));
			if (!terms.empty()) check_term((int)r.below(terms.size()));
			for (auto& p : interpreted) SIM_CHECK(carl::SortManager::getInstance().getInterpreted(p.first) == sorts[p.second].s, "content", "the interpreted sort of type " << p.first << " changed");
			state(mix(mix(sorts.size(), funs.size()), terms.size()));
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "exception", "bad_alloc without allocation failure");
			reach("declaration-interrupted");
		}
	}
	void equality(const T& a, const T& b, bool neg, bool same) {
		carl::UEquality e(a.t, b.t, neg), f(b.t, a.t, neg), n = e.negation();
		SIM_CHECK(e == f && !(e != f) && !(e < f) && !(f < e), "equality", a.text << " = " << b.text << " depends on the order of its sides");
		SIM_CHECK(std::hash<carl::UEquality>()(e) == std::hash<carl::UEquality>()(f), "equality", "equal equalities have different hashes");
		SIM_CHECK((e.lhs() == a.t && e.rhs() == b.t) || (e.lhs() == b.t && e.rhs() == a.t), "equality", "an equality lost a side");
		SIM_CHECK(e.negated() == neg && n.negated() == !neg && n != e && n.negation() == e, "equality", "negation of an equality is wrong");
		SIM_CHECK(carl::UEquality(e, true) == n && carl::UEquality(e, false) == e, "equality", "inverting copy of an equality is wrong");
		SIM_CHECK(e.complexity() == 1 + a.complexity + b.complexity, "equality", "complexity " << e.complexity());
		SIM_CHECK((a.t == b.t) == same && (a.t != b.t) == !same && !(a.t < b.t && b.t < a.t) && ((a.t < b.t || b.t < a.t) == !same), "equality", "comparison of " << a.text << " and " << b.text << " is wrong");
		std::set<carl::UVariable> uv;
		e.gatherUVariables(uv);
		std::set<carl::Variable> got, want = a.vars;
		for (auto& v : uv) got.insert(v.variable());
		want.insert(b.vars.begin(), b.vars.end());
		SIM_CHECK(got == want, "equality", "variables of an equality are wrong");
		std::set<carl::UninterpretedFunction> fs, wf;
		e.gatherUFs(fs);
		for (int x : a.funs) wf.insert(funs[x].f);
		for (int x : b.funs) wf.insert(funs[x].f);
		SIM_CHECK(fs == wf, "equality", "functions of an equality are wrong");
		reach("equality");
	}
	void finish() override {
		Quiet q;
		for (std::size_t i = 0; i < sorts.size(); ++i) check_sort((int)i);
		for (std::size_t i = 0; i < funs.size(); ++i) check_fun((int)i);
		for (std::size_t i = 0; i < terms.size(); ++i) check_term((int)i);
		auto& m = carl::SortManager::getInstance();
		for (auto& p : sort_no) if (!p.first.has_params && !p.first.has_idx) SIM_CHECK(m.getSort(p.first.name) == sorts[p.second].s, "identity", "sort " << p.first.name << " is not found any more");
		for (auto& p : declared) { SIM_CHECK(!m.declare(p.first, 3), "declare", p.first << " can be declared twice"); }
		for (auto& p : defined) { SIM_CHECK(!m.declare(p.first, 0), "declare", p.first << " can be declared after it was defined"); }
		std::ostringstream os, want;
		m.exportDefinitions(os);
		for (auto& p : declared) want << "(declare-sort " << p.first << " " << p.second << ")\n";
		SIM_CHECK(os.str() == want.str(), "declare", "exported declarations are\n" << os.str() << "expected\n" << want.str());
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

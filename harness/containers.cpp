// Containers: bit sets, heaps and trees that clients hand to each other, changed in any order while allocations fail.
// build-flags: -DNDEBUG
#include "common.h"
#include <iostream>
#include <carl/util/Bitset.h>
#include <carl/util/Heap.h>
#include <carl/util/carlTree.h>
#include <algorithm>
#include <mutex>
#include <set>

using namespace sim;
namespace sim { const char* const harness_name = "containers"; }

namespace {
using carl::Bitset;
template<bool Fast>
struct HeapConf {
	using Entry = std::int64_t;
	using CompareResult = int;
	static const bool fastIndex = Fast;
	static const bool supportDeduplicationWhileOrdering = false;
	CompareResult compare(Entry a, Entry b) const { return a < b ? -1 : a > b; }
	bool cmpLessThan(CompareResult c) const { return c < 0; }
	bool cmpEqual(CompareResult c) const { return c == 0; }
};
constexpr std::size_t BITS = 300;
struct Bits {
	std::vector<bool> b = std::vector<bool>(BITS, false);
	bool def = false;
	std::size_t count() const { return (std::size_t)std::count(b.begin(), b.end(), true); }
	std::string show() const { std::string s = def ? "default " : ""; for (std::size_t i = 0; i < BITS; ++i) if (b[i] != def) s += (b[i] ? "+" : "-") + std::to_string(i) + " "; return s; }
};
using Tree = carl::tree<std::string>;
using It = Tree::PreorderIterator<false>;
struct TNode { std::string v; std::size_t parent = 0, depth = 0; std::vector<std::size_t> kids; };
using TModel = std::map<std::size_t, TNode>;

struct H : Harness {
	struct BS { Bitset v; Bits x; };
	template<bool F> struct HP { std::shared_ptr<carl::Heap<HeapConf<F>>> v; std::multiset<std::int64_t> x; };
	struct TR { Tree v; TModel x; };
	std::vector<BS> bs;
	std::vector<HP<false>> slow;
	std::vector<HP<true>> fast;
	std::vector<TR> tr;
	/// A container is used by one client at a time.
	std::mutex mb, mh, mt;

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(1, r.chance(0.2) ? 60 : 20);
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.01, 0.05, 0.2});
			c.max_faults = (int)r.range(1, 10);
		}
	}
	void setup(Rng& r) override {
		bs.resize(3); slow.resize(2); fast.resize(2); tr.resize(2);
		for (auto& b : bs) if (r.chance(0.3)) { b.v = Bitset(true); Quiet q; b.x.def = true; b.x.b.assign(BITS, true); }
		for (auto& h : slow) h.v = std::make_shared<carl::Heap<HeapConf<false>>>(HeapConf<false>());
		for (auto& h : fast) h.v = std::make_shared<carl::Heap<HeapConf<true>>>(HeapConf<true>());
		for (auto& t : tr) { t.v.setRoot(std::string("the root of the tree, long enough to need memory")); Quiet q; t.x[0].v = "the root of the tree, long enough to need memory"; }
	}

	void check(const BS& s, const char* what) {
		for (std::size_t i = 0; i < BITS; ++i) SIM_CHECK(s.v.test(i) == s.x.b[i], "wrong-bits", "bit " << i << " after " << what << ": " << s.x.show());
		SIM_CHECK(s.v.test(100000) == s.x.def, "wrong-bits", "the bits beyond the stored ones after " << what << ": " << s.x.show());
		if (s.x.def) return;
		SIM_CHECK(s.v.count() == s.x.count() && s.v.any() == (s.x.count() > 0) && s.v.none() == (s.x.count() == 0), "wrong-bits", "count after " << what << ": " << s.x.show());
		std::size_t at = 0;
		for (std::size_t i : s.v) {
			while (at < BITS && !s.x.b[at]) ++at;
			SIM_CHECK(at < BITS && i == at, "wrong-bits", "iteration after " << what << " gives " << i << ": " << s.x.show());
			++at;
		}
		while (at < BITS && !s.x.b[at]) ++at;
		SIM_CHECK(at == BITS, "wrong-bits", "iteration after " << what << " ends early: " << s.x.show());
	}
	std::size_t position(Rng& r) { return r.below(r.chance(0.2) ? BITS : r.chance(0.5) ? 70 : 10); }
	void bits(int t, Rng& r) {
		std::lock_guard<std::mutex> l(mb);
		std::size_t a = r.below(bs.size()), b = r.below(bs.size()), k = r.below(14), n = position(r), m = position(r);
		if (n > m) std::swap(n, m);
		bool v = r.chance(0.6), value = false;
		if (k == 8 && (bs[a].x.def || bs[b].x.def)) k = 6;
		Bits want;
		{
			Quiet q;
			want = bs[a].x;
			const Bits& o = bs[b].x;
			SIM_LOG("t" << t << " bits " << k << " a" << a << " b" << b << " " << n << ".." << m << " " << v);
			switch (k) {
			case 0: case 1: want.b[n] = v; break;
			case 2: want.b[n] = false; break;
			case 3: for (std::size_t i = n; i <= m; ++i) want.b[i] = v; break;
			case 4: want.def = !o.def; for (std::size_t i = 0; i < BITS; ++i) want.b[i] = !o.b[i]; break;
			case 5: want = o; break;
			case 6: case 9: want.def = want.def && o.def; for (std::size_t i = 0; i < BITS; ++i) want.b[i] = want.b[i] && o.b[i]; break;
			case 7: case 10: want.def = want.def || o.def; for (std::size_t i = 0; i < BITS; ++i) want.b[i] = want.b[i] || o.b[i]; break;
			case 8: for (std::size_t i = 0; i < BITS; ++i) want.b[i] = want.b[i] && !o.b[i]; break;
			case 13: want = Bits(); want.def = v; want.b.assign(BITS, v); break;
			default: break;
			}
		}
		bool done = false;
		try {
			Faulty f;
			Bitset& x = bs[a].v;
			const Bitset& y = bs[b].v;
			switch (k) {
			case 0: if (v) x.set(n); else x.set(n, false); break;
			case 1: x.set(n, v); break;
			case 2: x.reset(n); break;
			case 3: x.set_interval(n, m, v); break;
			case 4: x = ~y; break;
			case 5: x = y; break;
			case 6: x &= y; break;
			case 7: x |= y; break;
			case 8: x -= y; break;
			case 9: x = x & y; break;
			case 10: x = x | y; break;
			case 11: value = x == y; break;
			case 12: value = x.is_subset_of(y); break;
			default: x = Bitset(v);
			}
			done = true;
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "unexpected-exception", "bad_alloc without a failed allocation");
			reach("bits-failed");
		}
		Quiet q;
		if (done) {
			if (k == 11) SIM_CHECK(value == (bs[a].x.b == bs[b].x.b && bs[a].x.def == bs[b].x.def), "wrong-bits", "comparison of " << bs[a].x.show() << " and " << bs[b].x.show());
			if (k == 12) {
				bool sub = !(bs[a].x.def && !bs[b].x.def);
				for (std::size_t i = 0; i < BITS; ++i) if (bs[a].x.b[i] && !bs[b].x.b[i]) sub = false;
				SIM_CHECK(value == sub, "wrong-bits", bs[a].x.show() << " a subset of " << bs[b].x.show());
			}
			bs[a].x = want;
			state(mix(k, want.count()));
		}
		check(bs[a], done ? "an operation" : "a failed operation");
		check(bs[b], "use as an operand");
		reach("bits");
	}

	template<bool F>
	void heap(int t, std::vector<HP<F>>& hs, Rng& r) {
		std::lock_guard<std::mutex> l(mh);
		auto& h = hs[r.below(hs.size())];
		std::size_t k = r.below(10);
		std::vector<std::int64_t> in;
		std::int64_t out = 0;
		{
			Quiet q;
			for (int n = k == 4 ? (int)r.range(1, 40) : 1; n > 0; --n) in.push_back((std::int64_t)r.range(-50, 50));
			if (k >= 5 && k <= 8 && h.x.empty()) k = 0;
			// the greatest entry is replaced by one that is not greater
			if (k == 8) in[0] = *h.x.rbegin() - (std::int64_t)r.below(60);
			SIM_LOG("t" << t << " heap " << k << " of " << h.x.size() << " entry " << in[0]);
		}
		std::size_t at = h.x.empty() ? 0 : r.below(h.x.size());
		bool done = false;
		try {
			Faulty f;
			switch (k) {
			case 5: case 6: out = h.v->pop(); break;
			case 7: {
				auto it = h.v->begin();
				for (std::size_t i = 0; i < at; ++i) it.next();
				out = it.get();
				h.v->popPosition(it);
				break;
			}
			case 8: h.v->decreaseTop(in[0]); break;
			case 9: h.v = std::make_shared<carl::Heap<HeapConf<F>>>(*h.v); break;
			case 4: for (auto& e : in) { h.v->push(e); Quiet q; h.x.insert(e); } break;
			default: h.v->push(in[0]);
			}
			done = true;
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "unexpected-exception", "bad_alloc without a failed allocation");
			reach("heap-failed");
		}
		Quiet q;
		if (done) switch (k) {
			case 5: case 6:
				SIM_CHECK(out == *h.x.rbegin(), "wrong-entry", out << " taken from a heap whose greatest entry is " << *h.x.rbegin());
				h.x.erase(std::prev(h.x.end()));
				break;
			case 7: {
				auto it = h.x.find(out);
				SIM_CHECK(it != h.x.end(), "wrong-entry", "the heap lists " << out << ", which it does not hold");
				h.x.erase(it);
				break;
			}
			case 8: h.x.erase(std::prev(h.x.end())); h.x.insert(in[0]); break;
			case 4: case 9: break;
			default: h.x.insert(in[0]);
		}
		SIM_CHECK(h.v->size() == h.x.size() && h.v->empty() == h.x.empty(), "wrong-size", h.v->size() << " entries instead of " << h.x.size());
		if (!h.x.empty()) SIM_CHECK(h.v->top() == *h.x.rbegin(), "wrong-entry", "the top is " << h.v->top() << " instead of " << *h.x.rbegin());
		std::multiset<std::int64_t> held;
		if (!h.x.empty()) for (auto it = h.v->begin(); it != h.v->end(); it.next()) held.insert(it.get());
		SIM_CHECK(held == h.x, "wrong-entry", "the heap does not hold the entries it was given, size " << h.x.size());
		if (h.x.size() > 16) reach("heap-grown");
		state(mix(k + 100, h.x.size()));
		reach("heap");
	}

	static void pre(const TModel& x, std::size_t n, std::vector<std::size_t>& out) { out.push_back(n); for (auto c : x.at(n).kids) pre(x, c, out); }
	static void post(const TModel& x, std::size_t n, std::vector<std::size_t>& out) { for (auto c : x.at(n).kids) post(x, c, out); out.push_back(n); }
	static std::size_t height(const TModel& x, std::size_t n) { std::size_t h = 0; for (auto c : x.at(n).kids) h = std::max(h, height(x, c) + 1); return h; }
	template<typename I>
	void walk(const TModel& x, I it, const I& end, const std::vector<std::size_t>& want, const char* what) {
		std::size_t n = 0;
		for (; it != end; ++it, ++n) {
			SIM_CHECK(n < want.size() && it.current == want[n], "wrong-order", what << " gives another node at position " << n << " of " << want.size());
			const I& c = it;
			SIM_CHECK(*c == x.at(want[n]).v, "wrong-data", what << " gives " << *c << " instead of " << x.at(want[n]).v);
		}
		SIM_CHECK(n == want.size(), "wrong-order", what << " ends after " << n << " of " << want.size());
	}
	void check(Rng& r, const TR& s) {
		std::vector<std::size_t> p, o, rev, leaves;
		pre(s.x, 0, p); post(s.x, 0, o);
		walk(s.x, s.v.begin_preorder(), s.v.end_preorder(), p, "preorder");
		rev = p; std::reverse(rev.begin(), rev.end());
		walk(s.x, s.v.rbegin_preorder(), s.v.rend_preorder(), rev, "reverse preorder");
		walk(s.x, s.v.begin_postorder(), s.v.end_postorder(), o, "postorder");
		rev = o; std::reverse(rev.begin(), rev.end());
		walk(s.x, s.v.rbegin_postorder(), s.v.rend_postorder(), rev, "reverse postorder");
		for (auto n : p) if (s.x.at(n).kids.empty()) leaves.push_back(n);
		walk(s.x, s.v.begin_leaf(), s.v.end_leaf(), leaves, "leaves");
		std::reverse(leaves.begin(), leaves.end());
		walk(s.x, s.v.rbegin_leaf(), s.v.rend_leaf(), leaves, "reverse leaves");
		std::size_t d = r.below(4);
		std::vector<std::size_t> level, path;
		for (auto n : p) if (s.x.at(n).depth == d) level.push_back(n);
		walk(s.x, s.v.begin_depth(d), s.v.end_depth(), level, "level");
		std::reverse(level.begin(), level.end());
		walk(s.x, s.v.rbegin_depth(d), s.v.rend_depth(), level, "reverse level");
		std::size_t at = p[r.below(p.size())];
		const TNode& node = s.x.at(at);
		It it(&s.v, at);
		walk(s.x, s.v.begin_children(it), s.v.end_children(it), node.kids, "children");
		rev = node.kids; std::reverse(rev.begin(), rev.end());
		walk(s.x, s.v.rbegin_children(it), s.v.rend_children(it), rev, "reverse children");
		for (std::size_t n = at;; n = s.x.at(n).parent) { path.push_back(n); if (n == 0) break; }
		walk(s.x, s.v.begin_path(it), s.v.end_path(), path, "path");
		SIM_CHECK(it.depth() == node.depth && s.v.is_leaf(it) == node.kids.empty() && it.isRoot() == (at == 0) && s.v.is_valid(it), "wrong-node", "depth or kind of a node");
		SIM_CHECK(s.v.max_depth() == height(s.x, 0) && s.v.max_depth(it) == height(s.x, at), "wrong-depth", "depth " << s.v.max_depth() << " of a tree of depth " << height(s.x, 0));
		if (at != 0) {
			auto& sib = s.x.at(node.parent).kids;
			SIM_CHECK(s.v.get_parent(it).current == node.parent && s.v.is_leftmost(it) == (sib.front() == at) && s.v.is_rightmost(it) == (sib.back() == at), "wrong-node", "relatives of a node");
			if (sib.front() != at) SIM_CHECK(s.v.left_sibling(it).current == *std::prev(std::find(sib.begin(), sib.end(), at)), "wrong-node", "left sibling of a node");
		}
		It skip(it);
		skip.skipChildren();
		std::vector<std::size_t> below;
		pre(s.x, at, below);
		std::size_t pos = (std::size_t)(std::find(p.begin(), p.end(), at) - p.begin()) + below.size();
		SIM_CHECK(pos < p.size() ? skip.current == p[pos] : skip == s.v.end_preorder(), "wrong-order", "skipping the children of a node");
	}
	void forest(int t, Rng& r) {
		std::lock_guard<std::mutex> l(mt);
		std::size_t a = r.below(tr.size()), b = r.below(tr.size()), k = r.below(13), at = 0;
		std::string data;
		bool leaf = false;
		std::size_t next = 0;
		std::size_t id = 0;
		{
			Quiet q;
			std::vector<std::size_t> p;
			pre(tr[a].x, 0, p);
			std::size_t i = r.below(p.size());
			at = p[i];
			if (at == 0 && k >= 4 && k <= 8) k = 0;
			data = "entry " + std::to_string(r.below(1000)) + (r.chance(0.7) ? " that is long enough to need memory of its own" : "");
			leaf = tr[a].x[at].kids.empty();
			next = i + 1 < p.size() ? p[i + 1] : carl::tree_detail::MAXINT;
			if (p.size() > 60) k = 10;
			SIM_LOG("t" << t << " tree " << a << " operation " << k << " at " << at << " of " << p.size() << " nodes");
		}
		bool done = false;
		try {
			Faulty f;
			Tree& x = tr[a].v;
			It it(&x, at);
			switch (k) {
			case 0: case 1: case 2: case 3: id = x.append(it, data).current; break;
			case 4: case 5: id = x.insert(it, data).current; break;
			case 6: case 7: case 8: id = x.erase(it).current; break;
			case 9: x.replace(it, data); break;
			case 10: x.eraseChildren(it); break;
			case 11: x.setRoot(data); break;
			default: if (r.chance(0.5)) x = tr[b].v; else { x.clear(); x.setRoot(std::string()); id = 1; }
			}
			done = true;
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "unexpected-exception", "bad_alloc without a failed allocation");
			reach("tree-failed");
		}
		if (!done && k == 12) {
			// assigning and emptying a tree are not promised to be undone
			Tree n;
			n.setRoot(std::string("new"));
			tr[a].v = std::move(n);
			Quiet q;
			tr[a].x.clear();
			tr[a].x[0].v = "new";
			return;
		}
		Quiet q;
		if (done) {
			TModel& m = tr[a].x;
			auto drop = [&](std::size_t n) { std::vector<std::size_t> all; pre(m, n, all); for (auto e : all) m.erase(e); };
			switch (k) {
			case 0: case 1: case 2: case 3:
				SIM_CHECK(!m.count(id), "wrong-node", "a new node takes the place of another");
				m[id] = TNode{data, at, m[at].depth + 1, {}};
				m[at].kids.push_back(id);
				break;
			case 4: case 5: {
				SIM_CHECK(!m.count(id), "wrong-node", "a new node takes the place of another");
				std::size_t p = m[at].parent;
				m[id] = TNode{data, p, m[at].depth, {}};
				auto& kids = m[p].kids;
				kids.insert(std::find(kids.begin(), kids.end(), at), id);
				reach("tree-insert");
				break;
			}
			case 6: case 7: case 8: {
				if (leaf) SIM_CHECK(id == next, "wrong-node", "erasing a leaf leads to another than the next node");
				auto& kids = m[m[at].parent].kids;
				kids.erase(std::find(kids.begin(), kids.end(), at));
				drop(at);
				reach("tree-erase");
				break;
			}
			case 9: m[at].v = data; break;
			case 10: { auto kids = m[at].kids; for (auto c : kids) drop(c); m[at].kids.clear(); break; }
			case 11: m[0].v = data; break;
			default: if (id == 1) { m.clear(); m[0].v = ""; } else { TModel n = tr[b].x; m = n; }
			}
			state(mix(k + 200, m.size()));
		}
		check(r, tr[a]);
		reach("tree");
	}
	void op(int t, int, Rng& r) override {
		switch (r.below(5)) {
		case 0: case 1: bits(t, r); break;
		case 2: if (r.chance(0.5)) heap(t, slow, r); else heap(t, fast, r); break;
		default: forest(t, r);
		}
	}
};
}
namespace sim { Harness* make_harness() { return new H; } }

// Bit-vector values: clients compute with values they share, of every width, while allocations fail.
// build-flags: -DNDEBUG
#include "common.h"
#include <carl/numbers/numbers.h>
#include <carl/formula/bitvector/BVValue.h>
#include <mutex>
#include <unordered_set>

using namespace sim;
namespace sim { const char* const harness_name = "bvvalue"; }

namespace {
using carl::BVValue;
using Z = mpz_class;

Z two(std::size_t n) { Z r = 1; r <<= n; return r; }
Z mod(const Z& a, const Z& m) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
Z sgned(const Z& a, std::size_t w) { return a >= two(w - 1) ? Z(a - two(w)) : a; }
std::string digits(const Z& v, std::size_t w) { std::string s(w, '0'); for (std::size_t i = 0; i < w; ++i) if (mpz_tstbit(v.get_mpz_t(), i)) s[w - 1 - i] = '1'; return s; }

struct H : Harness {
	struct Val { std::shared_ptr<const BVValue> v; std::size_t w = 1; Z x; };
	std::vector<Val> shared;
	std::mutex mx;
	BVValue res[MAXT];

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(1, r.chance(0.2) ? 60 : 20);
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.01, 0.05});
			c.max_faults = (int)r.range(1, 10);
		}
	}
	void setup(Rng&) override {
		shared.resize(4);
		for (auto& s : shared) s.v = std::make_shared<const BVValue>(1, (carl::uint)0);
	}
	std::size_t width(Rng& r) { return r.chance(0.15) ? (std::size_t)r.range(1, 2) : r.chance(0.2) ? pick_from(r, {(std::size_t)31, (std::size_t)32, (std::size_t)33, (std::size_t)63, (std::size_t)64, (std::size_t)65, (std::size_t)128, (std::size_t)129}) : (std::size_t)r.range(1, r.chance(0.3) ? 140 : 12); }
	Z number(Rng& r, std::size_t w) {
		Z m = two(w), v = 0;
		switch (r.below(8)) {
		case 0: return 0;
		case 1: return mod(Z(1), m);
		case 2: return m - 1;
		case 3: return two(w - 1);
		case 4: return two(w - 1) - 1;
		case 5: return mod(Z((long)r.below(w + 3)), m);
		default: for (std::size_t i = 0; i < w; i += 32) { v <<= 32; v += (unsigned long)r.below(1ull << 32); } return mod(v, m);
		}
	}
	static std::string read(const BVValue& v) { std::string s; boost::to_string(v.base(), s); return s; }
	void op(int t, int, Rng& r) override {
		std::size_t w, k = r.below(32), n = 0, m = 0, how = r.below(4), wb = 0;
		Z a, b, na;
		std::shared_ptr<const BVValue> pa, pb;
		bool use = r.chance(0.5);
		if (use) {
			std::lock_guard<std::mutex> l(mx);
			auto& s = shared[r.below(shared.size())];
			pa = s.v;
			Quiet q;
			a = s.x; w = s.w;
		}
		{
			Quiet q;
			if (!use) { w = width(r); a = number(r, w); }
			wb = k == 15 || k == 27 || k == 28 ? width(r) : w;
			b = number(r, wb);
			if (wb == w && r.chance(0.15)) b = a;
			if (b == 0 && k >= 3 && k <= 7) b = 1;
			n = r.below(r.chance(0.2) ? 3 * w + 1 : w); m = r.below(w);
			if (k == 14 && n >= w) n %= w;
			if (k == 14 && n < m) std::swap(n, m);
			// a number outside the range denotes its residue
			na = a;
			if (how == 2) na = a - two(w) * (long)r.range(0, 3);
			if (how == 3) na = a + two(w) * (long)r.range(0, 3);
			SIM_LOG("t" << t << " operation " << k << " width " << w << " a=" << a << " b=" << b << " n=" << n << " m=" << m << " from " << na);
		}
		std::string da, db;
		{ Quiet q; da = digits(a, w); db = digits(b, wb); }
		bool done = false, truth = false, truth2 = false;
		std::string text;
		carl::uint small = (carl::uint)mpz_class(a & Z("18446744073709551615")).get_ui();
		try {
			Faulty f;
			if (!pa) pa = how == 0 ? std::make_shared<const BVValue>(da) : how == 1 && w <= 64 ? std::make_shared<const BVValue>(w, small) : std::make_shared<const BVValue>(w, na);
			pb = std::make_shared<const BVValue>(db);
			const BVValue &x = *pa, &y = *pb;
			switch (k) {
			case 0: res[t] = x + y; break;
			case 1: res[t] = x - y; break;
			case 2: res[t] = x * y; break;
			case 3: res[t] = x / y; break;
			case 4: res[t] = x % y; break;
			case 5: res[t] = x.divideSigned(y); break;
			case 6: res[t] = x.remSigned(y); break;
			case 7: res[t] = x.modSigned(y); break;
			case 8: res[t] = -x; break;
			case 9: res[t] = ~x; break;
			case 10: res[t] = x & y; break;
			case 11: res[t] = x | y; break;
			case 12: res[t] = x ^ y; break;
			case 13: case 29: res[t] = x << y; break;
			case 14: res[t] = x.extract(n, m); break;
			case 15: res[t] = x.concat(y); break;
			case 16: case 30: res[t] = x >> y; break;
			case 17: case 31: res[t] = x.rightShiftArithmetic(y); break;
			case 18: res[t] = x.rotateLeft(n); break;
			case 19: res[t] = x.rotateRight(n); break;
			case 20: res[t] = x.repeat(n % 4 + 1); break;
			case 21: res[t] = x.extendUnsignedBy(n); break;
			case 22: res[t] = x.extendSignedBy(n); break;
			case 23: res[t] = x; truth = x == y; break;
			case 24: res[t] = x; truth = x < y; truth2 = y < x; break;
			case 25: res[t] = x; truth = x.isZero(); truth2 = x[m]; break;
			case 26: res[t] = x; res[t][m] = !x[m]; break;
			case 27: res[t] = y; res[t] = x; break;
			default: res[t] = x; text = x.toString(); break;
			}
			done = true;
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "unexpected-exception", "bad_alloc without a failed allocation");
			reach("allocation-failed");
		}
		if (pa) { Quiet q; SIM_CHECK(read(*pa) == da, "wrong-value", "the operand " << na << " of width " << w << " is " << read(*pa) << " instead of " << da); }
		if (done) {
			Quiet q;
			Z e = a, M = two(w);
			std::size_t ew = w;
			Z sa = sgned(a, w), sb = sgned(b, wb);
			auto rot = [&](std::size_t s) { s %= w; return mod(Z((a << s) | (a >> (w - s))), M); };
			switch (k) {
			case 0: e = mod(a + b, M); break;
			case 1: e = mod(a - b, M); break;
			case 2: e = mod(a * b, M); break;
			case 3: e = a / b; break;
			case 4: e = a % b; break;
			case 5: e = mod(sa / sb, M); break;
			case 6: e = mod(sa % sb, M); break;
			case 7: mpz_fdiv_r(e.get_mpz_t(), sa.get_mpz_t(), sb.get_mpz_t()); e = mod(e, M); break;
			case 8: e = mod(-a, M); break;
			case 9: e = M - 1 - a; break;
			case 10: e = a & b; break;
			case 11: e = a | b; break;
			case 12: e = a ^ b; break;
			case 13: case 29: e = b >= (long)w ? Z(0) : mod(a << b.get_ui(), M); break;
			case 14: ew = n - m + 1; e = mod(a >> m, two(ew)); break;
			case 15: ew = w + wb; e = (a << wb) + b; break;
			case 16: case 30: e = b >= (long)w ? Z(0) : Z(a >> b.get_ui()); break;
			case 17: case 31: { Z s = b >= (long)w ? (sa < 0 ? Z(-1) : Z(0)) : Z(0); if (b < (long)w) mpz_fdiv_q_2exp(s.get_mpz_t(), sa.get_mpz_t(), b.get_ui()); e = mod(s, M); break; }
			case 18: e = rot(n); break;
			case 19: e = rot(w - n % w); break;
			case 20: ew = w * (n % 4 + 1); e = 0; for (std::size_t i = 0; i <= n % 4; ++i) e = (e << w) + a; break;
			case 21: ew = w + n; break;
			case 22: ew = w + n; e = mod(sa, two(ew)); break;
			case 23: SIM_CHECK(truth == (a == b), "wrong-comparison", a << " equals " << b << " of width " << w); break;
			case 24: SIM_CHECK(truth == (a < b) && truth2 == (b < a), "wrong-comparison", a << " less than " << b << " of width " << w); break;
			case 25: SIM_CHECK(truth == (a == 0) && truth2 == (mpz_tstbit(a.get_mpz_t(), m) != 0), "wrong-comparison", "bit " << m << " of " << a); break;
			case 26: mpz_combit(e.get_mpz_t(), m); break;
			case 28: SIM_CHECK(faults_in_op(F_ALLOC) || text == "#b" + da, "wrong-text", text << " instead of " << da); break;
			default: break;
			}
			SIM_CHECK(res[t].width() == ew && read(res[t]) == digits(e, ew), "wrong-value", "operation " << k << " on " << da << " and " << db << " with " << n << ", " << m << " gives " << read(res[t]) << " instead of " << digits(e, ew));
			SIM_CHECK(read(*pb) == db, "wrong-value", "the second operand is " << read(*pb) << " instead of " << db);
			observe(mix(k, ew));
			state(mix(mix(k, w), (std::uint64_t)mpz_class(a & Z(4095)).get_ui()));
			reach("computed");
		}
		if (done && r.chance(0.5)) {
			auto n = std::make_shared<const BVValue>(*pa);
			std::lock_guard<std::mutex> l(mx);
			auto& s = shared[r.below(shared.size())];
			s.v = n;
			Quiet q;
			s.x = a; s.w = w;
		}
	}
};
}
namespace sim { Harness* make_harness() { return new H; } }

// Prime enumeration and cached factorisations over shared tables.
#include "common.h"
#include <cassert>
#include <carl/numbers/numbers.h>
#include <carl/numbers/FactorizationFactory.h>
#include <carl/numbers/PrimeFactory.h>

using namespace sim;
namespace sim { const char* const harness_name = "primes"; }

namespace {
using carl::uint;

struct H : Harness {
	std::vector<uint> sieve;
	struct Client {
		std::unique_ptr<carl::PrimeFactory<uint>> pu;
		std::unique_ptr<carl::PrimeFactory<mpz_class>> pz;
		std::unique_ptr<carl::PrimeFactory<uint>> iu;
		std::size_t nu = 0, nz = 0, zlast = 0;
		std::unique_ptr<carl::FactorizationFactory<uint>> ff;
		const uint* ref = nullptr;
		uint refval = 0;
	};
	Client cl[MAXT];
	std::unique_ptr<carl::FactorizationFactory<uint>> shared;
	std::mutex shared_mutex;
	std::size_t burst = 10;
	uint maxn = 100;

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = r.chance(0.2) ? 1 : (int)r.range(2, 4);
		burst = (std::size_t)r.range(1, 30);
		maxn = (uint)pick_from(r, {40, 400, 3000});
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(3, 20);
		if (faults) {
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.01, 0.05});
			c.rate[F_STALL] = 0.02;
		}
		for (uint n = 2; sieve.size() < 3000; ++n) {
			bool p = true;
			for (uint d : sieve) { if (d * d > n) break; if (n % d == 0) { p = false; break; } }
			if (p) sieve.push_back(n);
		}
	}
	void setup(Rng&) override {
		for (auto& c : cl) {
			c.pu.reset(new carl::PrimeFactory<uint>());
			c.pz.reset(new carl::PrimeFactory<mpz_class>());
			c.iu.reset(new carl::PrimeFactory<uint>());
			c.ff.reset(new carl::FactorizationFactory<uint>());
		}
		shared.reset(new carl::FactorizationFactory<uint>());
	}
	void check_fact(uint n, const std::vector<uint>& f) {
		Quiet q;
		std::ostringstream os;
		for (uint x : f) os << x << " ";
		SIM_LOG("t" << self() << " factorisation(" << n << ") = " << os.str());
		if (n == 0) { SIM_CHECK(f.empty(), "factorisation", "0 factors into " << os.str()); return; }
		if (n == 1) { SIM_CHECK(f == std::vector<uint>{1}, "factorisation", "1 factors into " << os.str()); return; }
		uint prod = 1, last = 0;
		for (uint x : f) {
			prod *= x;
			SIM_CHECK(std::binary_search(sieve.begin(), sieve.end(), x), "factorisation", n << " factors into " << os.str() << ", " << x << " is no prime");
			SIM_CHECK(x >= last, "factorisation", n << " factors into " << os.str() << ", not ordered");
			last = x;
		}
		SIM_CHECK(prod == n, "factorisation", n << " factors into " << os.str());
		observe(mix(n, f.size()));
	}
	void op(int t, int, Rng& r) override {
		Client& c = cl[t];
		int k = (int)r.below(8);
		std::size_t n = 1 + r.below(burst);
		try {
			if (k <= 2) {
				for (std::size_t i = 0; i < n; ++i) {
					uint p;
					{
						Faulty f;
						const uint& ref = c.pu->nextPrime();
						p = ref;
						c.ref = &ref;
						c.refval = p;
					}
					SIM_CHECK(p == sieve[c.nu], "prime-sequence", "prime number " << c.nu << " is " << p << ", expected " << sieve[c.nu]);
					++c.nu;
					if (c.nu > 25) reach("table-extended");
				}
				observe(c.nu);
			} else if (k == 3) {
				for (std::size_t i = 0; i < n; ++i) {
					unsigned long p;
					{
						Faulty f;
						p = c.pz->nextPrime().get_ui();
					}
					SIM_CHECK(p == sieve[c.nz], "prime-sequence", "prime number " << c.nz << " is " << p << ", expected " << sieve[c.nz]);
					++c.nz;
				}
			} else if (k == 4) {
				std::size_t id = r.below(100);
				uint p;
				{
					Faulty f;
					p = (*c.iu)[id];
				}
				SIM_CHECK(p == sieve[id], "prime-sequence", "prime number " << id << " is " << p << ", expected " << sieve[id]);
				std::size_t sz = c.iu->size();
				SIM_CHECK(sz > id, "prime-sequence", "table of size " << sz << " after reading index " << id);
			} else if (k == 5 && c.ref) {
				// a prime obtained earlier is still that prime
				uint p = *c.ref;
				SIM_CHECK(p == c.refval, "stale-reference", "a prime obtained earlier changed from " << c.refval << " to " << p);
			} else if (k == 6) {
				uint m = (uint)r.below(maxn + 1);
				std::vector<uint> f;
				{
					Faulty fa;
					f = (*c.ff)(m);
				}
				check_fact(m, f);
			} else if (k == 7) {
				uint m = (uint)r.below(maxn + 1);
				std::lock_guard<std::mutex> l(shared_mutex);
				std::vector<uint> f;
				{
					Faulty fa;
					f = (*shared)(m);
				}
				check_fact(m, f);
				reach("shared-factoriser");
			}
		} catch (const std::bad_alloc&) {
			SIM_CHECK(faults_in_op(F_ALLOC) > 0, "exception", "bad_alloc without allocation failure");
			reach("alloc-failure-survived");
			SIM_LOG("t" << t << " op " << k << " bad_alloc");
		}
		Quiet q;
		state(mix(mix(cl[1].nu, cl[2].nu), mix(cl[3].nu, cl[4].nz)));
	}
	void finish() override {
		carl::PrimeFactory<uint> p;
		for (std::size_t i = 0; i < 60; ++i) {
			uint x = p.nextPrime();
			SIM_CHECK(x == sieve[i], "prime-sequence", "finally prime number " << i << " is " << x << ", expected " << sieve[i]);
		}
		for (auto& c : cl) for (uint n = 0; n < 30; ++n) check_fact(n, (*c.ff)(n));
		for (uint n = 0; n < 30; ++n) check_fact(n, (*shared)(n));
	}
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

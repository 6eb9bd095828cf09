// Numbers: clients convert, round, divide, take roots of, print and read integers, rationals and floating-point numbers that
// they share, while the ambient rounding mode changes under them and allocations fail.
#include "common.h"
#include <carl/numbers/numbers.h>
#include <cfenv>
#include <cmath>
#include <cstring>
#include <limits>
#include <mutex>

using namespace sim;
namespace sim { const char* const harness_name = "numbers"; }

namespace {
using Z = mpz_class;
using Q = mpq_class;
using FQ = carl::FLOAT_T<Q>;

// Reference arithmetic on numerators and denominators.
Z fdiv(const Z& a, const Z& b) { Z r; mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
Z tdiv(const Z& a, const Z& b) { Z r; mpz_tdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
Q make(Z n, Z d) {
	if (d < 0) { n = -n; d = -d; }
	Z g;
	mpz_gcd(g.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t());
	Q q;
	mpz_divexact(q.get_num_mpz_t(), n.get_mpz_t(), g.get_mpz_t());
	mpz_divexact(q.get_den_mpz_t(), d.get_mpz_t(), g.get_mpz_t());
	return q;
}
bool canonical(const Q& q) {
	Z g;
	mpz_gcd(g.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
	return mpz_sgn(q.get_den_mpz_t()) > 0 && g == 1;
}
bool same(const Q& a, const Q& b) { return canonical(a) && a.get_num() == b.get_num() && a.get_den() == b.get_den(); }
/// The exact value of a finite double, from its bits.
Q exact(double d) {
	std::uint64_t b;
	std::memcpy(&b, &d, 8);
	long e = (long)(b >> 52 & 2047);
	std::uint64_t m = b & ((1ull << 52) - 1);
	if (e) m |= 1ull << 52; else e = 1;
	Z n, two = 1;
	mpz_set_ui(n.get_mpz_t(), m);
	if (b >> 63) n = -n;
	long s = e - 1075;
	two <<= (unsigned long)std::labs(s);
	return s >= 0 ? make(n * two, 1) : make(n, two);
}
double from_bits(std::uint64_t b) { double d; std::memcpy(&d, &b, 8); return d; }
std::string pow10(unsigned n) { return "1" + std::string(n, '0'); }

struct H : Harness {
	std::vector<Q> board;
	std::mutex mx;

	void configure(Rng& r, Config& c, bool faults) override {
		c.ntasks = (int)r.range(1, 4);
		for (int t = 1; t <= c.ntasks; ++t) c.nops[t] = (int)r.range(2, r.chance(0.1) ? 40 : 12);
		if (faults) {
			c.rate[F_FPENV] = pick_from(r, {0.0, 0.1, 0.5});
			c.rate[F_ALLOC] = pick_from(r, {0.0, 0.0, 0.002, 0.02});
			c.max_faults = (int)r.range(1, 10);
		}
	}
	void setup(Rng&) override {
		board.assign(4, Q(1));
		Q q;
		carl::try_parse<Q>("1/2", q);
		carl::floor(q);
		carl::constant_one<Q>::get();
		carl::constant_one<Z>::get();
		carl::constant_zero<Q>::get();
		carl::constant_zero<Z>::get();
	}
	Z integer(Rng& r) {
		Z v(r.range(-12, 12));
		if (r.chance(0.4)) v = Z(r.range(-1000000000, 1000000000));
		if (r.chance(0.2)) { Z w = 1; w <<= (unsigned long)r.range(1, r.chance(0.1) ? 1100 : 130); v = (r.chance(0.5) ? w : Z(-w)) + r.range(-2, 2); }
		if (r.chance(0.1)) { Z w = v; for (int i = (int)r.range(1, 3); i > 0; --i) v *= w; }
		return v;
	}
	Q rational(Rng& r) {
		if (r.chance(0.3)) { std::lock_guard<std::mutex> l(mx); return board[r.below(board.size())]; }
		Quiet q;
		if (r.chance(0.2)) return exact(number(r));
		Z n = integer(r), d = r.chance(0.3) ? Z(1) : integer(r);
		if (d == 0) d = 2;
		if (r.chance(0.15)) { n *= n; d *= d; }
		return make(n, d);
	}
	/// A finite double of any size.
	double number(Rng& r) {
		std::uint64_t b = r.next();
		int k = (int)r.below(8);
		if (k < 3) b = (b & 0x800fffffffffffffull) | (std::uint64_t)r.range(1000, 1046) << 52;
		else if (k == 3) b &= 0x800fffffffffffffull;
		else if (k == 4) b = (b & 0x8000000000000000ull) | (0x7fefffffffffffffull - r.below(3));
		else if (k == 5) b = (b & 0xffff000000000000ull);
		if ((b >> 52 & 2047) == 2047) b ^= 1ull << 60;
		return from_bits(b);
	}
	std::string text(const Q& q) { return q.get_num().get_str() + "/" + q.get_den().get_str(); }
	void keep(const Q& v, Rng& r) {
		std::size_t i = r.below(4);
		std::lock_guard<std::mutex> l(mx);
		Quiet q;
		state(mix(v.get_num().get_ui(), v.get_den().get_ui()));
		if (mpz_sizeinbase(v.get_num_mpz_t(), 2) < 3000 && mpz_sizeinbase(v.get_den_mpz_t(), 2) < 3000) board[i] = v;
	}
	template<typename F>
	bool guarded(F&& f) {
		int mode = std::fegetround();
		bool ok = true;
		try { Faulty x; f(); } catch (const std::bad_alloc&) { ok = false; reach("failed operation"); }
		int after = std::fegetround();
		Quiet q;
		SIM_CHECK(after == mode, "rounding-mode", "the operation changed the rounding mode");
		return ok;
	}
	void integral(Rng& r) {
		Q v = rational(r);
		Z f, c, n, num, den, z;
		bool is = false, zero = false, one = false, pos = false, neg = false, zis = false;
		std::size_t bits = 0;
		if (!guarded([&] {
			f = carl::floor(v); c = carl::ceil(v); n = carl::round(v); num = carl::getNum(v); den = carl::getDenom(v);
			is = carl::isInteger(v); bits = carl::bitsize(v) - carl::bitsize(num) - carl::bitsize(den); zero = carl::isZero(v); one = carl::isOne(v); pos = carl::isPositive(v); neg = carl::isNegative(v);
			z = carl::getNum(f); zis = carl::isInteger(f) && carl::floor(f) == f && carl::ceil(f) == f && carl::round(f) == f;
		})) return;
		Quiet q;
		Z fl = fdiv(v.get_num(), v.get_den()), twice = fdiv(v.get_num() * 2 + v.get_den(), v.get_den() * 2);
		bool whole = v.get_den() == 1;
		SIM_CHECK(f == fl && c == (whole ? fl : Z(fl + 1)), "wrong-result", "floor and ceiling of " + text(v) + ": " + f.get_str() + ", " + c.get_str());
		SIM_CHECK(abs(v - Q(n)) * 2 <= 1, "wrong-result", "nearest integer of " + text(v) + ": " + n.get_str() + " instead of " + twice.get_str());
		SIM_CHECK(num == v.get_num() && den == v.get_den() && is == whole && z == f && zis && bits == 0, "wrong-result", "numerator, denominator or integrality of " + text(v));
		SIM_CHECK(zero == (sgn(v) == 0) && pos == (sgn(v) > 0) && neg == (sgn(v) < 0) && one == (v.get_num() == v.get_den()), "wrong-result", "sign of " + text(v));
		observe(f.get_ui());
	}
	void division(Rng& r) {
		Z a, b;
		{ Quiet q; a = integer(r); b = integer(r); if (b == 0) b = 3; if (r.chance(0.2)) a = b * integer(r); }
		Z qu, m, rem, d, fq, fr, g, l, ga, da, x;
		bool divides;
		{ Quiet q; divides = a % b == 0; }
		if (!guarded([&] {
			qu = carl::quotient(a, b); m = carl::mod(a, b); rem = carl::remainder(a, b);
			carl::divide(a, b, fq, fr);
			g = carl::gcd(a, b); l = carl::lcm(a, b); ga = a; carl::gcd_assign(ga, b); x = carl::abs(a);
			if (divides) { d = carl::div(a, b); da = a; carl::div_assign(da, b); }
		})) return;
		Quiet q;
		Z tq = tdiv(a, b), want;
		std::string s = a.get_str() + " and " + b.get_str();
		SIM_CHECK(qu == tq && m == a - tq * b && rem == m, "wrong-result", "quotient or remainder of " + s + ": " + qu.get_str() + ", " + m.get_str());
		SIM_CHECK(fq * b + fr == a && abs(fr) < abs(b), "wrong-result", "division of " + s + ": " + fq.get_str() + ", " + fr.get_str());
		mpz_gcd(want.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
		SIM_CHECK(g == want && ga == want && l * g == abs(a * b) && x == (a < 0 ? Z(-a) : a), "wrong-result", "gcd, lcm or absolute value of " + s);
		if (divides) SIM_CHECK(d * b == a && da * b == a, "wrong-result", "exact quotient of " + s);
		observe(mix(qu.get_ui(), m.get_ui()));
	}
	void arithmetic(Rng& r) {
		Q a = rational(r), b = rational(r);
		std::size_t e = r.below(7);
		{ Quiet q; if (mpz_sizeinbase(a.get_num_mpz_t(), 2) + mpz_sizeinbase(a.get_den_mpz_t(), 2) > 400) e = r.below(2); }
		bool div;
		{ Quiet q; div = sgn(b) != 0; }
		Q g, l, p, x, d, d2, rec, mul, ga, pa;
		Z zp;
		if (!guarded([&] {
			if (div) { g = carl::gcd(a, b); l = carl::lcm(a, b); ga = a; carl::gcd_assign(ga, b); }
			p = carl::pow(a, e); x = carl::abs(a); mul = carl::operator*(a, b); pa = a; carl::pow_assign(pa, e); zp = carl::pow(a.get_num(), e);
			if (div) { d = carl::quotient(a, b); d2 = carl::div(a, b); Q t = a; carl::div_assign(t, b); rec = carl::reciprocal(b); if (!(t == d2)) d2 = t; }
		})) return;
		Quiet q;
		std::string s = text(a) + " and " + text(b);
		Z n = 1, k = 1;
		for (std::size_t i = 0; i < e; ++i) { n *= a.get_num(); k *= a.get_den(); }
		Q want = make(n, k);
		SIM_CHECK(same(p, want) && same(pa, want) && zp == n, "wrong-result", "power " + std::to_string(e) + " of " + text(a) + ": " + text(p) + ", " + text(pa) + ", " + zp.get_str());
		SIM_CHECK(same(x, make(abs(a.get_num()), a.get_den())) && same(mul, make(a.get_num() * b.get_num(), a.get_den() * b.get_den())), "wrong-result", "absolute value or product of " + s);
		if (div) {
			Q quot = make(a.get_num() * b.get_den(), a.get_den() * b.get_num());
			SIM_CHECK(same(d, quot) && same(d2, quot) && same(rec, make(b.get_den(), b.get_num())), "wrong-result", "quotient of " + s + ": " + text(d) + ", " + text(d2) + ", " + text(rec));
			// the gcd divides both with integer quotients that are coprime, the lcm is a common multiple that fits it
			if (sgn(a) != 0) {
				Q u = make(a.get_num() * g.get_den(), a.get_den() * g.get_num()), v = make(b.get_num() * g.get_den(), b.get_den() * g.get_num());
				Z c;
				mpz_gcd(c.get_mpz_t(), u.get_num_mpz_t(), v.get_num_mpz_t());
				SIM_CHECK(canonical(g) && same(ga, g) && u.get_den() == 1 && v.get_den() == 1 && c == 1, "wrong-result", "greatest common divisor of " + s + ": " + text(g));
				Q gl = make(g.get_num() * l.get_num(), g.get_den() * l.get_den()), ab = make(a.get_num() * b.get_num(), a.get_den() * b.get_den());
				SIM_CHECK(canonical(l) && abs(gl.get_num()) == abs(ab.get_num()) && gl.get_den() == ab.get_den(), "wrong-result", "least common multiple of " + s + ": " + text(l));
			}
		}
		observe(mix(e, n.get_ui()));
	}
	void roots(Rng& r) {
		Q a = rational(r);
		std::size_t n = (std::size_t)r.range(1, 6);
		{
			Quiet q;
			if (sgn(a) == 0) a = 4;
			if (r.chance(0.3)) { Z u = abs(a.get_num()), v = a.get_den(), p = u, w = v; for (std::size_t i = 1; i < n && i < 4; ++i) { p *= u; w *= v; } a = make(p, w); }
		}
		bool square = false, neg;
		{ Quiet q; neg = sgn(a) < 0; }
		Q b, m;
		std::pair<Q, Q> s, f, k;
		if (!guarded([&] {
			square = carl::sqrt_exact(a, b);
			if (!neg) { s = carl::sqrt_safe(a); f = carl::sqrt_fast(a); k = carl::root_safe(a, n); m = carl::sqrt(a); }
		})) return;
		Quiet q;
		bool sq = !neg && mpz_perfect_square_p(a.get_num_mpz_t()) && mpz_perfect_square_p(a.get_den_mpz_t());
		SIM_CHECK(square == sq && (!sq || (canonical(b) && sgn(b) >= 0 && b.get_num() * b.get_num() == a.get_num() && b.get_den() * b.get_den() == a.get_den())), "wrong-result", "exact square root of " + text(a));
		if (neg) return;
		auto power = [](const Q& x, std::size_t e) { Z u = 1, v = 1; for (std::size_t i = 0; i < e; ++i) { u *= x.get_num(); v *= x.get_den(); } return make(u, v); };
		auto encloses = [&](const std::pair<Q, Q>& i, std::size_t e) { return canonical(i.first) && canonical(i.second) && sgn(i.first) >= 0 && power(i.first, e) <= a && a <= power(i.second, e); };
		SIM_CHECK(encloses(s, 2) && encloses(f, 2) && encloses(k, n), "wrong-result", "root " + std::to_string(n) + " or square root of " + text(a) + ": [" + text(s.first) + ", " + text(s.second) + "], [" + text(f.first) + ", " + text(f.second) + "], [" + text(k.first) + ", " + text(k.second) + "]");
		if (sq) SIM_CHECK(s.first == s.second && f.first == f.second && power(m, 2) == a, "wrong-result", "square root of the square " + text(a));
		SIM_CHECK(canonical(m) && s.first <= m && m <= s.second, "wrong-result", "square root of " + text(a) + " outside of its bounds");
		reach(sq ? "square" : "irrational");
		observe(m.get_num().get_ui());
	}
	void rounding(Rng& r) {
		Q v = rational(r);
		double lo = 0, hi = 0, lo2 = 0, hi2 = 0, d = 0, dz = 0;
		Z z;
		{ Quiet q; z = fdiv(v.get_num(), v.get_den()); }
		if (!guarded([&] { lo = carl::roundDown(v); hi = carl::roundUp(v); lo2 = carl::roundDown(v, true); hi2 = carl::roundUp(v, true); d = carl::toDouble(v); dz = carl::toDouble(z); })) return;
		Quiet q;
		const double inf = std::numeric_limits<double>::infinity();
		auto below = [](double x, const Q& y) { return x == -std::numeric_limits<double>::infinity() || (std::isfinite(x) && exact(x) <= y); };
		auto above = [](double x, const Q& y) { return x == std::numeric_limits<double>::infinity() || (std::isfinite(x) && exact(x) >= y); };
		SIM_CHECK(below(lo, v) && above(hi, v) && below(lo2, v) && above(hi2, v), "wrong-rounding", text(v) + " is rounded to the wrong side");
		auto step = [](double x, int n, double to) { while (n--) x = std::nextafter(x, to); return x; };
		// not further away than the two neighbours
		if (std::isfinite(lo)) SIM_CHECK(above(step(lo, 2, inf), v), "wrong-rounding", text(v) + " is rounded down too far");
		if (std::isfinite(hi)) SIM_CHECK(below(step(hi, 2, -inf), v), "wrong-rounding", text(v) + " is rounded up too far");
		if (std::isfinite(d)) SIM_CHECK(below(step(d, 1, -inf), v) && above(step(d, 1, inf), v), "wrong-result", "floating-point value of " + text(v));
		if (std::isfinite(dz)) SIM_CHECK(below(step(dz, 1, -inf), Q(z)) && above(step(dz, 1, inf), Q(z)), "wrong-result", "floating-point value of " + z.get_str());
		if (std::isfinite(d) && exact(d) == v) { SIM_CHECK(lo == d && hi == d && lo2 < d && hi2 > d, "wrong-rounding", text(v) + " is a floating-point number, but rounded"); reach("representable"); }
		else reach("rounded");
		observe(std::hash<double>()(d));
	}
	void conversion(Rng& r) {
		double d = number(r);
		float f = (float)(double)r.range(-1000000, 1000000) / 4096.0f;
		long n = r.chance(0.5) ? (long)r.next() : r.range(-20, 20);
		unsigned long u = r.chance(0.5) ? (unsigned long)r.next() : r.below(20);
		int i = (int)r.next();
		Q qd, qf, qi, qn, qu, c1, c2;
		double back = 0, back2 = 0;
		Z zn, zu;
		Q fn, fu;
		long tn = 0, tn2 = 0;
		unsigned long tu = 0, tu2 = 0;
		Z zz;
		std::uint64_t h1 = 0, h2 = 0;
		bool wrapped_ok = true;
		if (!guarded([&] {
			qd = carl::rationalize<Q>(d); qf = carl::rationalize<Q>(f); qi = carl::rationalize<Q>(i); qn = carl::rationalize<Q>(carl::sint(n)); qu = carl::rationalize<Q>(carl::uint(u));
			c1 = carl::convert<double, Q>(d); back = carl::convert<Q, double>(qd); c2 = carl::convert<carl::FLOAT_T<double>, Q>(carl::FLOAT_T<double>(d)); back2 = carl::toDouble(qd);
			if (!(carl::convert<double, FQ>(d).value() == qd) || carl::convert<FQ, double>(FQ(qd)) != d || carl::convert<Q, carl::FLOAT_T<double>>(qd).value() != d || !(carl::convert<FQ, Q>(FQ(qd)) == qd) || !(carl::convert<Q, FQ>(qd).value() == qd) || carl::convert<carl::FLOAT_T<double>, double>(carl::FLOAT_T<double>(d)) != d || carl::convert<double, carl::FLOAT_T<double>>(d).value() != d) wrapped_ok = false;
			zn = carl::fromInt<Z>(carl::sint(n)); zu = carl::fromInt<Z>(carl::uint(u)); fn = carl::fromInt<Q>(carl::sint(n)); fu = carl::fromInt<Q>(carl::uint(u));
			tn = carl::toInt<carl::sint>(zn); tu = carl::toInt<carl::uint>(zu); tn2 = carl::toInt<carl::sint>(fn); tu2 = carl::toInt<carl::uint>(fu); zz = carl::toInt<Z>(fn);
			h1 = std::hash<Q>()(qd); h2 = std::hash<Q>()(c1);
		})) return;
		Quiet q;
		Q want = exact(d), wf = exact((double)f);
		Z wn, wu;
		mpz_set_si(wn.get_mpz_t(), n);
		mpz_set_ui(wu.get_mpz_t(), u);
		SIM_CHECK(same(qd, want) && same(c1, want) && same(c2, want) && same(qf, wf), "wrong-result", "a floating-point number became " + text(qd) + " instead of " + text(want));
		SIM_CHECK(wrapped_ok, "wrong-result", "a wrapped number changed the value " + text(want));
		SIM_CHECK(back == d && back2 == d, "wrong-result", "floating-point number " + text(want) + " changed by way of a rational");
		SIM_CHECK(same(qi, Q(i)) && same(qn, Q(wn)) && same(qu, Q(wu)) && zn == wn && zu == wu && same(fn, Q(wn)) && same(fu, Q(wu)), "wrong-result", "integer " + std::to_string(n) + " or " + std::to_string(u) + " changed by conversion");
		SIM_CHECK(tn == n && tn2 == n && tu == u && tu2 == u && zz == wn, "wrong-result", "integer " + std::to_string(n) + " or " + std::to_string(u) + " changed by way of an unbounded integer");
		SIM_CHECK(h1 == h2, "wrong-result", "equal numbers with different hashes");
		observe(h1);
	}
	/// Decimal text of a non-negative number with few digits, and its value.
	std::string decimal(Rng& r, Q& v) {
		std::string a, b;
		for (int i = (int)r.range(0, r.chance(0.1) ? 25 : 5); i > 0; --i) a += (char)('0' + r.below(10));
		bool dot = r.chance(0.5);
		if (dot) for (int i = (int)r.range(0, 5); i > 0; --i) b += (char)('0' + r.below(10));
		if (a.empty() && b.empty()) a = "7";
		Z n(a + b, 10), d(pow10((unsigned)b.size()), 10);
		std::string s = a + (dot ? "." + b : "");
		if (r.chance(0.25)) {
			int e = (int)r.range(-12, 12);
			s += (r.chance(0.5) ? "e" : "E") + std::string(e >= 0 && r.chance(0.5) ? "+" : "") + std::to_string(e);
			if (e >= 0) n *= Z(pow10((unsigned)e), 10); else d *= Z(pow10((unsigned)-e), 10);
		}
		if (r.chance(0.3)) { s = "-" + s; n = -n; }
		else if (r.chance(0.2)) s = "+" + s;
		v = make(n, d);
		return s;
	}
	void reading(Rng& r) {
		std::string s;
		Q want;
		bool bad = r.chance(0.25);
		{
			Quiet q;
			s = decimal(r, want);
			if (r.chance(0.4)) {
				Q d;
				std::string t = decimal(r, d);
				if (sgn(d) != 0) {
					want = make(want.get_num() * d.get_den(), want.get_den() * d.get_num());
					s += (r.chance(0.2) ? " / " : "/") + t;
				}
			}
			if (bad) {
				static const char* const flaws[] = {"", "x", "1..2", "1/", "/2", "--1", "1/2/3", "0x10", "1e", "nan", "inf", "1/0", "3 4", "1,5", ".", "-", "1/x", "1e1e1", "2*3", "0/0", "5/0.0"};
				s = flaws[r.below(sizeof flaws / sizeof *flaws)];
			}
		}
		Q got;
		Z z;
		bool ok = false, okz = false;
		if (!guarded([&] { ok = carl::try_parse<Q>(s, got); okz = carl::try_parse<Z>(s, z); })) return;
		Q again = got;
		Z zagain = z;
		if (ok && !guarded([&] { again = carl::parse<Q>(s); if (okz) zagain = carl::parse<Z>(s); if (!(carl::rationalize<Q>(s) == again)) again += 1; })) return;
		bool whole;
		{
			Quiet q;
			SIM_CHECK(again == got && zagain == z, "wrong-result", "text '" + s + "' is read differently");
			SIM_CHECK(ok == !bad, "wrong-result", "text '" + s + (ok ? "' was accepted" : "' was not accepted"));
			if (bad) SIM_CHECK(!okz, "wrong-result", "text '" + s + "' was accepted as an integer");
			if (!bad) SIM_CHECK(same(got, want), "wrong-result", "text '" + s + "' was read as " + text(got));
			whole = !bad && s.find_first_of("/eE.") == std::string::npos;
			if (whole) SIM_CHECK(okz && z == want.get_num(), "wrong-result", "text '" + s + "' was not read as an integer");
			else if (!bad && okz) SIM_CHECK(Q(z) == want, "wrong-result", "text '" + s + "' was read as the integer " + z.get_str());
			reach(bad ? "rejected text" : "text");
			SIM_LOG("read '" + s + "'");
		}
		if (!bad) keep(want, r);
	}
	void writing(Rng& r) {
		Q v = rational(r);
		std::string a, b, c, d;
		Z z;
		{ Quiet q; z = v.get_num(); }
		if (!guarded([&] { a = carl::toString(v, true); b = carl::toString(v, false); c = carl::toString(z, true); d = carl::toString(z, false); })) return;
		Quiet q;
		if (faults_in_op(F_ALLOC)) return; // a string stream swallows failed allocations
		std::string n = Z(abs(v.get_num())).get_str(), k = v.get_den().get_str();
		bool neg = sgn(v) < 0, whole = v.get_den() == 1;
		std::string wa = (neg ? "(-" : "") + n + (whole ? "" : "/" + k) + (neg ? ")" : "");
		std::string wb = (neg ? "(- " : "") + (whole ? n : "(/ " + n + " " + k + ")") + (neg ? ")" : "");
		SIM_CHECK(a == wa && b == wb, "wrong-result", "text of " + text(v) + ": " + a + " and " + b);
		SIM_CHECK(c == (neg ? "(-" + n + ")" : n) && d == (neg ? "(- " + n + ")" : n), "wrong-result", "text of " + z.get_str() + ": " + c + " and " + d);
		observe(a.size());
	}
	void native(Rng& r) {
		long a = r.chance(0.5) ? r.range(-50, 50) : (long)(r.next() >> 1), b = r.range(1, 20) * (r.chance(0.5) ? 1 : -1);
		std::uint32_t u32 = (std::uint32_t)r.next() >> r.below(32);
		std::uint64_t u64 = r.next() >> r.below(64);
		double d = number(r);
		long qu = 0, m = 0, q2 = 0, r2 = 0;
		std::uint32_t h32 = 0;
		std::uint64_t h64 = 0;
		bool is = false;
		double fl = 0, ce = 0, ab = 0, di = 0;
		bool zero = false, pos = false, neg = false, odd = false;
		long ti = 0, dv = 0, re = 0;
		unsigned long mu = 0;
		double small = (double)a / 3;
		guarded([&] {
			zero = carl::isZero(d); pos = carl::isPositive(d); neg = carl::isNegative(d); odd = carl::isNaN(d) || carl::isInf(d) || !carl::isNumber(d); ab = carl::abs(d);
			ti = carl::toInt<carl::sint>(small); di = carl::toDouble(carl::sint(u32)); dv = carl::div(carl::sint(b * 7), carl::sint(b)); re = carl::remainder(carl::sint(a), carl::sint(b)); mu = carl::mod(carl::uint(u64), carl::uint(17));
			qu = carl::quotient(carl::sint(a), carl::sint(b)); m = carl::mod(carl::sint(a), carl::sint(b)); carl::sint x, y; carl::divide(carl::sint(a), carl::sint(b), x, y); q2 = x; r2 = y;
			h32 = carl::highestPower(u32); h64 = carl::highestPower(u64);
			is = carl::isInteger(d); fl = carl::floor(d); ce = carl::ceil(d);
		});
		Quiet q;
		SIM_CHECK(qu == a / b && m == a % b && q2 == qu && r2 == m, "wrong-result", "division of " + std::to_string(a) + " by " + std::to_string(b));
		SIM_CHECK((u32 == 0 ? h32 == 0 : h32 == 1u << (31 - __builtin_clz(u32))) && (u64 == 0 ? h64 == 0 : h64 == 1ull << (63 - __builtin_clzll(u64))), "wrong-result", "highest power of two of " + std::to_string(u32) + " or " + std::to_string(u64));
		Q e = exact(d);
		Z f = fdiv(e.get_num(), e.get_den());
		bool whole = e.get_den() == 1;
		SIM_CHECK(zero == (e == 0) && pos == (e > 0) && neg == (e < 0) && !odd && exact(ab) == Q(abs(e)), "wrong-result", "sign or absolute value of the floating-point number " + text(e));
		Q se = exact(small);
		SIM_CHECK(Z(ti) == tdiv(se.get_num(), se.get_den()) && exact(di) == Q((unsigned long)u32) && dv == 7 && re == a % b && mu == u64 % 17, "wrong-result", "native conversion or division for " + std::to_string(a) + " and " + std::to_string(b));
		SIM_CHECK(is == whole && exact(fl) == Q(f) && exact(ce) == Q(whole ? f : Z(f + 1)), "wrong-result", "floor, ceiling or integrality of the floating-point number " + text(e));
		observe(mix((std::uint64_t)qu, h64));
	}
	void wrapped(Rng& r) {
		Q a = rational(r), b = rational(r);
		bool div;
		{ Quiet q; div = sgn(b) != 0; }
		Q s, d, m, o, ab, fl, ce, inc, neg;
		bool lt = false, le = false, eq = false, gt = false, ge = false, ne = false;
		if (!guarded([&] {
			FQ x(a), y(b), t(Q(0));
			s = (x + y).value(); d = (x - y).value(); m = (x * y).value(); neg = (-x).value();
			if (div) o = (x / y).value();
			lt = x < y; le = x <= y; eq = x == y; gt = x > y; ge = x >= y; ne = x != y;
			x.abs(t); ab = t.value();
			t = x; t += y; if (t.value() != s) s = t.value();
			t = x; t -= y; if (t.value() != d) d = t.value();
			t = x; t *= y; if (t.value() != m) m = t.value();
		})) return;
		Quiet q;
		std::string w = text(a) + " and " + text(b);
		const Z &an = a.get_num(), &ad = a.get_den(), &bn = b.get_num(), &bd = b.get_den();
		SIM_CHECK(same(s, make(an * bd + bn * ad, ad * bd)) && same(d, make(an * bd - bn * ad, ad * bd)) && same(m, make(an * bn, ad * bd)) && same(neg, make(-an, ad)), "wrong-result", "sum, difference or product of exact floats " + w);
		if (div) SIM_CHECK(same(o, make(an * bd, ad * bn)), "wrong-result", "quotient of exact floats " + w);
		int c = cmp(Z(an * bd), Z(bn * ad));
		SIM_CHECK(lt == (c < 0) && le == (c <= 0) && eq == (c == 0) && gt == (c > 0) && ge == (c >= 0) && ne == (c != 0), "wrong-result", "comparison of exact floats " + w);
		SIM_CHECK(same(ab, make(abs(an), ad)), "wrong-result", "absolute value of the exact float " + text(a));
		observe(m.get_num().get_ui());
	}
	void op(int, int, Rng& r) override {
		std::uint64_t f; { Faulty x; f = fault(F_FPENV); }
		if (f) { static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; std::fesetround(modes[f % 4]); reach("other-mode"); }
		switch (r.below(11)) {
			case 0: integral(r); break;
			case 1: division(r); break;
			case 2: arithmetic(r); break;
			case 3: roots(r); break;
			case 4: case 5: rounding(r); break;
			case 6: conversion(r); break;
			case 7: reading(r); break;
			case 8: writing(r); break;
			case 9: native(r); break;
			default: wrapped(r); break;
		}
		if (r.chance(0.2)) { Q v = rational(r); keep(v, r); }
	}
	void finish() override { board.clear(); }
};
} // namespace
namespace sim { Harness* make_harness() { return new H; } }

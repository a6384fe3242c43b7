// Native refuter: searches for a concrete failing input on the real code (compiled with AddressSanitizer).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <tuple>
#include <algorithm>
#include <functional>
extern "C" {
#include <sys/types.h>
#include <stdbool.h>
}
typedef std::vector<uint8_t> Bytes;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next() {
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t operator()(uint64_t n) { return n ? next() % n : 0; }          // [0,n)
	int range(int a, int b) { return a + (int) (next() % (uint64_t) (b - a + 1)); }  // [a,b]
	bool p(int pct) { return (int) (next() % 100) < pct; }
	template <class V> const typename V::value_type &pick(const V &v) { return v[next() % v.size()]; }
	uint8_t byte() { return (uint8_t) next(); }
};

// ---- failure reporting ------------------------------------------------------------------------
void fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
std::string hex(const uint8_t *p, size_t n);
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
std::string show(const std::string &s);
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));       // describes the current case
extern bool g_verbose;

// ---- exact-size heap copies, so that AddressSanitizer sees every access outside ------------------
struct Buf {
	uint8_t *p;
	size_t n;
	explicit Buf(size_t k) : p((uint8_t *) malloc(k ? k : 1)), n(k) { if (!k) { free(p); p = (uint8_t *) malloc(0); } }
	explicit Buf(const Bytes &b) : Buf(b.size()) { if (n) memcpy(p, b.data(), n); }
	Buf(const Buf &) = delete;
	~Buf() { free(p); }
	Bytes bytes() const { return Bytes(p, p + n); }
};
struct CStr {
	char *p;
	explicit CStr(const std::string &s) : p((char *) malloc(strlen(s.c_str()) + 1)) { strcpy(p, s.c_str()); }
	CStr(const CStr &) = delete;
	~CStr() { free(p); }
};

long live_allocs();                 // number of live heap allocations (malloc hooks)
struct LeakCheck {                  // the code between construction and done() must not change the count
	long n0;
	LeakCheck() : n0(live_allocs()) {}
	void done(const char *what) { long d = live_allocs() - n0; if (d) fail("%s: %ld allocation(s) leaked or freed twice", what, d); }
};

// ---- registry --------------------------------------------------------------------------------------
typedef void (*CaseFn)(uint64_t idx, Rng &r);
struct Test {
	const char *prop, *name;
	CaseFn fn;
	uint64_t nexh;      // cases 0..nexh-1 are enumerated first (idx given); afterwards idx >= nexh is random
	int weight;
};
std::vector<Test> &tests();
struct Reg { Reg(const char *p, const char *n, CaseFn f, uint64_t e, int w) { tests().push_back(Test{p, n, f, e, w}); } };
#define TEST(prop, name, nexh, weight) \
	static void t_##prop##_##name(uint64_t idx, Rng &r); \
	static Reg reg_##prop##_##name(#prop, #name, t_##prop##_##name, nexh, weight); \
	static void t_##prop##_##name(uint64_t idx, Rng &r)
extern uint64_t g_nontrivial;
inline void nontrivial() { g_nontrivial++; }

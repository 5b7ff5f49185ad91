// MODS:
// JOB: seek n=2 shards=8 depth=6
// JOB: batch n=2 batch=1 shards=8 depth=6
// THOROUGH: seek3 n=3 steps=3 shards=16 depth=8
// THOROUGH: batch3 n=3 steps=3 batch=1 shards=16 depth=8
// REACH: found none exact step end
// BOUND: the reverse search itself, instantiated over a complete 8-bit position type: up to 2 (3) objects anywhere below the highest position, every target, minimum steps of 1 and 7 (and 200), fetches returning everything from the probe position or only the first one or two objects
#include "sym.h"
#include <stdint.h>
#include <limits>
#include <ostream>
#include <set>
#include <vector>
struct P8 {
	uint8_t v;
	P8() : v(0) {}
	P8(int x) : v((uint8_t)x) {}
	friend bool operator<(P8 a, P8 b) { return a.v < b.v; }
	friend bool operator>(P8 a, P8 b) { return a.v > b.v; }
	friend bool operator<=(P8 a, P8 b) { return a.v <= b.v; }
	friend bool operator>=(P8 a, P8 b) { return a.v >= b.v; }
	friend bool operator==(P8 a, P8 b) { return a.v == b.v; }
	friend bool operator!=(P8 a, P8 b) { return a.v != b.v; }
	friend P8 operator+(P8 a, P8 b) { return P8(uint8_t(a.v + b.v)); }
	friend P8 operator-(P8 a, P8 b) { return P8(uint8_t(a.v - b.v)); }
	friend P8 operator/(P8 a, P8 b) { return P8(uint8_t(a.v / b.v)); }
	P8 &operator+=(P8 b) { v += b.v; return *this; }
	P8 &operator-=(P8 b) { v -= b.v; return *this; }
	P8 &operator++() { ++v; return *this; }
	P8 &operator--() { --v; return *this; }
};
static std::ostream &operator<<(std::ostream &os, P8 p) { return os << (unsigned)p.v; }
namespace std {
	template <> struct numeric_limits<P8> {
		static const bool is_specialized = true;
		static const int digits = 8;
		static P8 min() { return P8(0); }
		static P8 max() { return P8(255); }
	};
}
#include "crucible/seeker.h"
using namespace crucible;
int main() {
	int n = sym_pick("n", sym_param("n", 2) + 1);
	uint8_t p[4], target = sym_bits("target", 8);
	// the highest position cannot be told apart from "nothing found"
	for (int i = 0; i < n; i++) { p[i] = sym_bits("pos", 8); sym_assume(p[i] != 255); if (i) sym_assume(p[i - 1] < p[i]); }
	int batch = sym_param("batch", 0) ? 1 + sym_pick("fetch", 2) : 100;
	static const uint8_t steps[] = { 1, 7, 200 };
	int s = sym_pick("step", sym_param("steps", 2));
	if (s) sym_reach("step");
	int fetches = 0;
	P8 t; t.v = target;
	P8 got = seek_backward(t, [&](P8 const lower, P8 const upper) {
		fetches++;
		sym_assert(lower.v <= target, "the search probes above its target");
		sym_assert(upper.v == target, "the search asks for another upper bound than its target");
		std::vector<P8> rv;
		for (int i = 0; i < n && (int)rv.size() < batch; i++) if (sym_concrete(p[i] >= lower.v)) { P8 q; q.v = p[i]; rv.push_back(q); }
		return rv;
	}, P8(steps[s]));
	uint8_t want = 0; bool found = false;
	for (int i = 0; i < n; i++) { bool le = p[i] <= target; want = le ? p[i] : want; found |= le; }
	sym_assert(got.v == want, "the reverse search returns another object than the last one at or before its target");
	if (sym_concrete(found)) sym_reach("found"); else sym_reach("none");
	if (sym_concrete(found & (want == target))) { sym_assert(fetches == 1, "an exact match is not found by the first fetch"); sym_reach("exact"); }
	if (sym_concrete(target == 255)) sym_reach("end");
	return 0;
}

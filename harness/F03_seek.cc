// MODS: lib/seeker.cc lib/error.cc lib/string.cc
// JOB: small n=3 bits=4 shards=4 depth=5
// JOB: one n=1 bits=64 nt=1 shards=2 depth=5
// JOB: top n=2 bits=3 top=1
// JOB: two n=2 bits=12 narrow=1 nt=2
// THOROUGH: one7 n=1 bits=64 nt=7 shards=8 depth=8
// THOROUGH: two20 n=2 bits=20 narrow=1 nt=3 shards=8 depth=8
// THOROUGH: small5 n=4 bits=5 shards=8 depth=8
// THOROUGH: symtarget n=1 bits=16 narrow=1 symtarget=1 shards=8 depth=8
// THOROUGH: anystep n=3 bits=5 anystep=1 symtarget=1 shards=8 depth=6
// REACH: exact found none end
// ASSUME: no item is at 2^64-1, the position the interface uses for the end of the search space
// BOUND: 64-bit positions. Every sorted set of up to 3 (4) positions and every target below 2^4 (2^5) with steps 1, 3, 32 and 2^63 (thorough: every step below 2^5); every pair of positions among the 8 highest; every single 64-bit position for the highest target (thorough: seven spread-out targets) with step 1; every pair of positions below 2^12 (2^20) for two (three) targets; with a fetch that returns everything up to the target, one item at a time, or items past it
#include "sym.h"
#include "crucible/seeker.h"
#include <vector>
using namespace crucible;
int main() {
	int n = sym_pick("n", sym_param("n", 3) + 1), bits = sym_param("bits", 5);
	bool narrow = sym_param("narrow", 0), top = sym_param("top", 0);
	uint64_t base = top ? ~0ull << bits : 0;
	std::vector<uint64_t> v;
	auto get = [&](const char *nm) { uint64_t x = sym_bits(nm, bits); return base | x; };
	for (int i = 0; i < n; i++) { v.push_back(get("pos")); if (i) sym_assume(v[i - 1] < v[i]); sym_assume(v[i] != ~0ull); }
	static const uint64_t TG[] = { ~0ull, 0xfedcba9876543210ull, 12345678901234567ull, ~0ull - 1, 1ull << 63, (1ull << 63) + 1, (1ull << 40) - 1 };
	uint64_t target = sym_param("symtarget", 0) ? get("target") : bits <= 8 ? base | sym_pick("target", 1 << bits) : TG[sym_pick("target", sym_param("nt", 7))] & (bits == 64 ? ~0ull : (1ull << bits) - 1);
	static const uint64_t ST[] = { 1, 3, 32, 1ull << 63 };
	uint64_t step = narrow || bits > 32 ? 1 : sym_param("anystep", 0) ? sym_bits("step", bits) : ST[sym_pick("step", 4)];
	sym_assume(step != 0);
	int batch = sym_pick("batch", 2), beyond = narrow || bits > 32 ? 0 : sym_pick("beyond", 2);
	size_t loops = 0;
	uint64_t r = seek_backward(target, [&](uint64_t lo, uint64_t hi) {
		loops++;
		std::vector<uint64_t> rv;
		for (auto x : v) {
			if (sym_concrete(x < lo)) continue;
			bool past = sym_concrete(x > hi);
			if (past && !beyond) break;
			rv.push_back(x);
			if (batch || past) break;
		}
		return rv;
	}, step);
	bool any = false;
	uint64_t want = 0;
	for (auto x : v) if (sym_concrete(x <= target)) { want = x; any = true; }
	sym_assert(r == want, any ? "backward seek did not return the nearest item at or before the position" : "backward seek found an item that does not exist");
	if (any && loops == 1) sym_reach("exact");
	if (any && loops > 1) sym_reach("found");
	if (!any) sym_reach("none");
	if (sym_concrete(target == ~0ull)) sym_reach("end");
}

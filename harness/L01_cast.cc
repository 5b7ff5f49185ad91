// REACH: kept refused
// BOUND: every value of each of the 8x8 combinations of {,u}int{8,16,32,64}_t plus long long / size_t / off_t; no other bound
#include "sym.h"
#include "crucible/limits.h"
#include <stdexcept>
#include <sys/types.h>
using namespace crucible;
template <class To, class From> void one(const char *name) {
	From v = (From)sym_bits("v", sizeof(From) * 8);
	bool threw = false;
	To r = 0;
	try { r = ranged_cast<To>(v); } catch (const std::exception &) { threw = true; }
	__int128 w = v;
	bool fits = w >= (__int128)std::numeric_limits<To>::min() && w <= (__int128)std::numeric_limits<To>::max();
	sym_assert(!(threw && fits), "a representable value was refused");
	sym_assert(!(!threw && !fits), "an unrepresentable value was accepted");
	if (!threw) { sym_assert((__int128)r == w, "value changed by conversion"); sym_reach("kept"); }
	else sym_reach("refused");
	sym_observe("r", (uint64_t)r);
	sym_observe("threw", threw);
}
template <class To> void from(int f) {
	switch (f) {
	case 0: one<To, int8_t>(""); break;   case 1: one<To, uint8_t>(""); break;
	case 2: one<To, int16_t>(""); break;  case 3: one<To, uint16_t>(""); break;
	case 4: one<To, int32_t>(""); break;  case 5: one<To, uint32_t>(""); break;
	case 6: one<To, int64_t>(""); break;  case 7: one<To, uint64_t>(""); break;
	case 8: one<To, long long>(""); break; case 9: one<To, unsigned long long>(""); break;
	}
}
int main() {
	int t = sym_pick("to", 10), f = sym_pick("from", 10);
	switch (t) {
	case 0: from<int8_t>(f); break;   case 1: from<uint8_t>(f); break;
	case 2: from<int16_t>(f); break;  case 3: from<uint16_t>(f); break;
	case 4: from<int32_t>(f); break;  case 5: from<uint32_t>(f); break;
	case 6: from<int64_t>(f); break;  case 7: from<uint64_t>(f); break;
	case 8: from<long long>(f); break; case 9: from<unsigned long long>(f); break;
	}
	return 0;
}

// MODS: lib/crc64.cc
// REACH: short long
// BOUND: all byte strings of length 0..3 at every alignment 0..7 (fully symbolic); strings of length 8, 9, 16, 23 (thorough: also 4, 7, 12, 15, 17, 24, 25, 26) at every alignment with one symbolic byte at every position and fixed other bytes
// JOB: short mode=0
// JOB: long quick=1 mode=1 lens=4 shards=8 depth=3
// THOROUGH: long12 mode=1 lens=12 shards=16 depth=3
#include "sym.h"
#include "crucible/crc64.h"
static uint64_t ref(const uint8_t *p, size_t n) {
	// reflected CRC-64, polynomial x^64 + x^4 + x^3 + x + 1, initial value and final xor 0
	uint64_t c = 0;
	for (size_t i = 0; i < n; i++) {
		c ^= p[i];
		for (int j = 0; j < 8; j++) c = (c >> 1) ^ (-(c & 1) & 0xd800000000000000ull);
	}
	return c;
}
int main() {
	alignas(64) uint8_t buf[64];
	for (unsigned i = 0; i < sizeof buf; i++) buf[i] = (uint8_t)(i * 57 + 13 + (i * i) % 11);
	int al = sym_pick("align", 8);
	uint8_t *p = buf + 8 + al;
	size_t n;
	if (sym_param("mode", 0) == 0) {
		n = sym_pick("len", 4);
		sym_mem(p, n, "byte");
		sym_reach("short");
	} else {
		static const int lens[] = { 8, 9, 16, 23, 7, 24, 15, 25, 4, 17, 12, 26 };
		n = lens[sym_pick("len", sym_param("lens", 4))];
		size_t at = sym_pick("at", n + 1 - sym_param("w", 1));
		sym_mem(p + at, sym_param("w", 1), "byte");
		sym_reach("long");
	}
	uint64_t want = ref(p, n), got = crucible::Digest::CRC::crc64(p, n);
	sym_observe("crc", got);
	sym_assert(got == want, "the checksum differs from its definition");
	return 0;
}

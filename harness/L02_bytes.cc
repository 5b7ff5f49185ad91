// MODS: lib/bytevector.cc lib/error.cc
// REACH: slice_ok slice_refused at_ok at_refused erased erased_all get_ok get_refused
// BOUND: buffers of 0..5 bytes with symbolic contents; slice offset and length, and index, over all 64-bit values; chains of up to 2 (thorough: 3) operations (slice / erase front / erase back / copy / assign)
// JOB: two quick=1 n=5 steps=2 shards=4 depth=6
// THOROUGH: three n=5 steps=3 shards=8 depth=8
#include "sym.h"
#include "crucible/bytevector.h"
#include <stdexcept>
#include <cstring>
using namespace crucible;
struct Ref { size_t off, len; bool null; };
static uint8_t g_bytes[8];
static void same(const ByteVector &b, const Ref &r) {
	sym_assert(b.size() == r.len, "buffer has the wrong size");
	sym_assert(b.empty() == (r.len == 0), "empty() disagrees with size()");
	for (size_t i = 0; i < r.len; i++) {
		sym_assert(b.data()[i] == g_bytes[r.off + i], "buffer holds the wrong bytes");
		sym_assert(b[i] == g_bytes[r.off + i], "operator[] gives the wrong byte");
	}
	if (r.len) sym_assert((size_t)(b.end() - b.begin()) == r.len, "begin/end do not span the buffer");
}
int main() {
	size_t n = sym_pick("n", sym_param("n", 5) + 1);
	sym_mem(g_bytes, 8, "byte");
	Ref r{0, n, false};
	ByteVector cur(n);
	for (size_t i = 0; i < n; i++) cur.data()[i] = g_bytes[i];
	same(cur, r);
	int steps = sym_pick("steps", sym_param("steps", 2) + 1);
	for (int s = 0; s < steps; s++) {
		switch (sym_pick("op", 5)) {
		case 0: {
			uint64_t off = sym_bits("off", 64), len = sym_bits("len", 64);
			bool fits = off <= r.len && len <= r.len - off;
			bool threw = false;
			ByteVector sl;
			try { sl = cur.at(off, len); } catch (const std::exception &) { threw = true; }
			if (!threw) {
				sym_assert(fits, "a slice outside the buffer was handed out");
				off = sym_concrete(off); len = sym_concrete(len);
				r.off += off; r.len = len;
				cur = sl;
				sym_reach("slice_ok");
			} else {
				sym_assert(!fits || r.null, "a slice inside the buffer was refused");
				sym_reach("slice_refused");
			}
			break;
		}
		case 1: {
			if (r.null) break;
			size_t k = sym_pick("front", r.len + 1);
			cur.erase(cur.begin(), cur.begin() + k);
			if (k == r.len && k) { r.null = true; sym_reach("erased_all"); } else sym_reach("erased");
			r.off += k; r.len -= k;
			break;
		}
		case 2: {
			if (r.null) break;
			size_t k = sym_pick("back", r.len + 1);
			cur.erase(cur.end() - k, cur.end());
			if (k == r.len && k) r.null = true;
			r.len -= k;
			break;
		}
		case 3: { ByteVector c(cur); if (r.len) sym_assert(c.data() == cur.data(), "a copy does not share contents"); cur = c; break; }
		case 4: {
			// erase in the middle is refused
			if (r.len < 3) break;
			bool threw = false;
			try { cur.erase(cur.begin() + 1, cur.begin() + 2); } catch (const std::exception &) { threw = true; }
			sym_assert(threw, "removal from the middle was not refused");
			break;
		}
		}
		same(cur, r);
	}
	uint64_t idx = sym_bits("idx", 64);
	bool threw = false;
	try {
		uint8_t &x = cur.at(idx);
		sym_assert(idx < r.len, "access outside the buffer was allowed");
		idx = sym_concrete(idx);
		sym_assert(x == g_bytes[r.off + idx], "at() gives the wrong byte");
		sym_reach("at_ok");
	} catch (const std::exception &) { threw = true; }
	if (threw) { sym_assert(!(idx < r.len), "access inside the buffer was refused"); sym_reach("at_refused"); }
	threw = false;
	try {
		uint32_t *p = cur.get<uint32_t>();
		sym_assert(r.len >= 4, "typed access to a shorter buffer was allowed");
		sym_assert(!memcmp(p, g_bytes + r.off, 4), "typed access gives the wrong bytes");
		sym_reach("get_ok");
	} catch (const std::exception &) { threw = true; }
	if (threw) { sym_assert(r.len < 4, "typed access inside the buffer was refused"); sym_reach("get_refused"); }
	// construction from a range with a minimum size
	size_t mn = sym_pick("min", 7);
	ByteVector d(g_bytes, g_bytes + n, mn);
	sym_assert(d.size() == (mn > n ? mn : n), "constructed buffer has the wrong size");
	if (n) sym_assert(!memcmp(d.data(), g_bytes, n), "constructed buffer holds the wrong bytes");
	sym_observe("len", r.len);
	return 0;
}

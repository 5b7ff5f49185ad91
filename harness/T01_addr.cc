// MODS: src/bees-types.cc src/bees-hash.cc src/bees-context.cc src/bees.cc src/bees-thread.cc src/bees-roots.cc lib/fd.cc lib/error.cc lib/bytevector.cc lib/string.cc lib/task.cc lib/time.cc lib/fs.cc lib/path.cc lib/uname.cc lib/extentwalker.cc lib/btrfs-tree.cc
// JOB: encode op=0
// JOB: compare op=1
// JOB: toxic op=2
// REACH: magic plain compressed eof refused compare toxic
// BOUND: every 64-bit flag word, physical position, file offset and extent length below 2^31 (positions below 2^62); comparisons over every pair and triple of 64-bit addresses
// ASSUME: the block lies inside the extent
#include "sym.h"
#include "bees.h"
using namespace crucible;
static const uint64_t M = 4095;
int main() {
	int op = sym_param("op", 0);
	if (op == 0) {
		Extent e;
		e.m_begin = sym_bits("begin", 62); e.m_end = sym_bits("end", 62);
		e.m_physical = sym_bits("physical", 62); e.m_flags = sym_bits("flags", 64); e.m_offset = sym_bits("offset", 62);
		uint64_t off = sym_bits("pos", 62);
		uint64_t len = e.m_end - e.m_begin;
		sym_assume(e.m_begin <= (off_t)off && (off_t)off < e.m_end && len < (1ull << 31));
		sym_assume((uint64_t)e.m_offset < (1ull << 31));
		uint64_t f = e.m_flags, phys = e.m_physical;
		const uint64_t enc = FIEMAP_EXTENT_ENCODED;
		int magic = -1;
		const uint64_t unus = FIEMAP_EXTENT_NOT_ALIGNED | FIEMAP_EXTENT_DATA_INLINE, dela = FIEMAP_EXTENT_UNKNOWN | FIEMAP_EXTENT_DELALLOC;
		const uint64_t known = enc | dela | unus | FIEMAP_EXTENT_LAST | FIEMAP_EXTENT_SHARED;
		if (f & Extent::HOLE) magic = BeesAddress::HOLE;
		else if (f & 0xffffffffull & ~known) magic = BeesAddress::UNUSABLE;
		else if (f & unus) magic = BeesAddress::UNUSABLE;
		else if (f & dela) magic = BeesAddress::DELALLOC;
		bool aligned = !((phys | (uint64_t)e.m_begin | off) & M);
		bool threw = false;
		BeesAddress a;
		try { a = BeesAddress(e, off); } catch (const std::exception &) { threw = true; }
		uint64_t in = off - e.m_begin + e.m_offset;
		bool fits = !(f & enc) || (!(e.m_offset & M) && in < 128 * 1024);
		if (threw) {
			sym_assert(!(aligned && (magic >= 0 || (phys != 0 && fits))), "the address of a valid block was refused");
			sym_reach("refused");
			return 0;
		}
		sym_assert(aligned, "an unaligned block was given an address");
		if (magic >= 0) {
			sym_assert(a.is_magic() && (uint64_t)a == (uint64_t)magic, "a block without stored data was given a data address");
			sym_assert(a.get_physical_or_zero() == 0, "a special value has a physical position");
			sym_assert(!a.is_compressed() && !a.is_toxic() && !a.is_unaligned_eof() && !a.has_compressed_offset(), "a special value carries data flags");
			sym_reach("magic");
			return 0;
		}
		sym_assert(phys != 0 && fits, "a block with no usable position was given an address");
		sym_assert(!a.is_magic(), "a stored block was given a special value");
		sym_assert(!a.is_toxic(), "a new address is marked toxic");
		if (f & enc) {
			sym_assert(a.is_compressed() && a.has_compressed_offset(), "a compressed block is not marked compressed");
			sym_assert(a.get_physical_or_zero() == phys, "the physical position of a compressed block is wrong");
			sym_assert(a.get_compressed_offset() == in, "the place inside the compressed extent is wrong");
			sym_reach("compressed");
		} else {
			sym_assert(!a.is_compressed() && !a.has_compressed_offset(), "an uncompressed block is marked compressed");
			sym_assert(a.get_physical_or_zero() == phys + (off - e.m_begin), "the physical position of a block is wrong");
			sym_reach("plain");
		}
		bool eof = (f & FIEMAP_EXTENT_LAST) && (e.m_end & M) && (off | M) >= (uint64_t)e.m_end;
		sym_assert(a.is_unaligned_eof() == eof, "the end-of-file mark is wrong");
		if (eof) sym_reach("eof");
		return 0;
	}
	if (op == 1) {
		BeesAddress a(sym_bits("a", 64)), b(sym_bits("b", 64)), c(sym_bits("c", 64));
		bool ab = a < b, ba = b < a, e = a == b;
		sym_assert((int)ab + (int)ba + (int)e == 1, "ordering and equality of addresses disagree");
		sym_assert((a == b) == (b == a) && (a != b) == !e, "address equality is not symmetric");
		sym_assert(a == a && !(a < a), "an address differs from itself");
		// special values and data never compare equal
		if (a.is_magic() && (uint64_t)b >= 0x1000) sym_assert(!e, "a special value equals the address of data");
		// same physical block kind: equality is identity
		if (a.has_compressed_offset() == b.has_compressed_offset()) sym_assert(e == ((uint64_t)a == (uint64_t)b), "different addresses are equal");
		if (e) {
			sym_assert(a.get_physical_or_zero() == b.get_physical_or_zero(), "equal addresses name different places");
			sym_assert(a.is_compressed() == b.is_compressed() && a.is_toxic() == b.is_toxic() && a.is_unaligned_eof() == b.is_unaligned_eof(), "equal addresses have different marks");
		}
		if (a.has_compressed_offset() == b.has_compressed_offset() && b.has_compressed_offset() == c.has_compressed_offset()) {
			if (a < b && b < c) sym_assert(a < c, "the ordering of addresses is not transitive");
		}
		sym_reach("compare");
		return 0;
	}
	BeesAddress a(sym_bits("a", 64));
	BeesAddress t = a;
	bool threw = false;
	try { t.set_toxic(); } catch (const std::exception &) { threw = true; }
	sym_assert(threw == a.is_magic(), "marking toxic is refused exactly for special values");
	if (threw) { sym_assert((uint64_t)t == (uint64_t)a, "a refused marking changed the address"); return 0; }
	sym_assert(t.is_toxic() && !t.is_magic(), "the toxic mark is not set");
	sym_assert(t.get_physical_or_zero() == a.get_physical_or_zero() && t.is_compressed() == a.is_compressed() && t.has_compressed_offset() == a.has_compressed_offset() && t.is_unaligned_eof() == a.is_unaligned_eof(), "the toxic mark changed something else");
	if (a.has_compressed_offset()) sym_assert(t.get_compressed_offset() == a.get_compressed_offset(), "the toxic mark changed the place inside the extent");
	if (!a.is_toxic()) sym_assert(!(t == a), "a marked address equals the unmarked one");
	sym_reach("toxic");
}

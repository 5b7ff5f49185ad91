// MODS: src/bees-types.cc src/bees-hash.cc src/bees-context.cc src/bees.cc src/bees-thread.cc src/bees-roots.cc lib/fd.cc lib/error.cc lib/bytevector.cc lib/string.cc lib/task.cc lib/time.cc lib/fs.cc lib/path.cc lib/uname.cc lib/extentwalker.cc lib/btrfs-tree.cc
// JOB: overlap op=0
// JOB: resize op=1
// JOB: order op=2
// JOB: pair op=3
// JOB: fds op=4
// REACH: overlap disjoint shrunk refused grown order pair pairbad fds
// BOUND: every pair (ordering: triple) of ranges with positions, deltas and file size below 2^61 and 64-bit file and subvolume numbers; two descriptors of symbolic identity
// ASSUME: a range being grown lies inside its file (a concurrently truncated file ends in an exception later)
#include "sym.h"
#include "bees.h"
#include <errno.h>
#include <string.h>
#include <sys/stat.h>
using namespace crucible;
static uint64_t g_ino[2], g_root[2], g_size;
extern "C" {
int fstat64(int fd, struct stat64 *st) { memset(st, 0, sizeof *st); st->st_ino = g_ino[(fd - 5) & 1]; st->st_size = g_size; return 0; }
int close(int) { return 0; }
}
namespace crucible { uint64_t btrfs_get_root_id(int fd) { return g_root[(fd - 5) & 1]; } }
static BeesFileRange rng(const char *n, bool nonempty) {
	BeesFileId f(sym_bits("root", 64), sym_bits("ino", 64));
	sym_assume(f.root() && f.ino());
	off_t b = sym_bits("b", 61), e = sym_bits("e", 61);
	sym_assume(nonempty ? b < e : b <= e);
	return BeesFileRange(f, b, e);
}
static bool share(off_t b1, off_t e1, off_t b2, off_t e2) { return b1 < e2 && b2 < e1; }
static bool same(const BeesFileRange &a, const BeesFileRange &b) { return a.m_fid.root() == b.m_fid.root() && a.m_fid.ino() == b.m_fid.ino(); }
int main() {
	int op = sym_param("op", 0);
	if (op == 0) {
		auto a = rng("a", true), b = rng("b", true);
		bool want = same(a, b) && share(a.m_begin, a.m_end, b.m_begin, b.m_end);
		sym_assert(a.overlaps(b) == want, "overlap of two ranges decided wrongly");
		sym_assert(b.overlaps(a) == want, "overlap of two ranges depends on their order");
		sym_assert(a.is_same_file(b) == same(a, b), "same-file test is wrong");
		sym_assert(a.size() == a.m_end - a.m_begin && !a.empty(), "range size is wrong");
		sym_reach(want ? "overlap" : "disjoint");
	} else if (op == 1) {
		auto a = rng("a", false);
		g_size = sym_bits("filesize", 61);
		sym_assume((off_t)g_size >= a.m_end);
		a.m_fd = Fd(5);
		BeesFileRange o = a;
		int64_t d = sym_bits("delta", 64);
		sym_assume(d < (1ll << 61));
		int k = sym_pick("what", 4);
		bool threw = false;
		off_t rv = -1;
		try {
			switch (k) {
			case 0: rv = a.shrink_begin(d); break;
			case 1: rv = a.shrink_end(d); break;
			case 2: rv = a.grow_begin(d); break;
			case 3: rv = a.grow_end(d); break;
			}
		} catch (const std::exception &) { threw = true; }
		off_t len = o.m_end - o.m_begin;
		if (threw) {
			sym_assert(a.m_begin == o.m_begin && a.m_end == o.m_end, "a refused change altered the range");
			if (k < 2) sym_assert(d <= 0 || d >= len, "a possible shrink was refused");
			else sym_assert(d <= 0, "growing was refused");
			sym_reach("refused");
			return 0;
		}
		sym_assert(d > 0, "a change by nothing or less was accepted");
		sym_assert(a.m_begin >= 0 && a.m_begin <= a.m_end, "a range became inverted or negative");
		switch (k) {
		case 0: sym_assert(a.m_begin == o.m_begin + d && a.m_end == o.m_end && rv == a.m_begin, "shrinking the front changed the range wrongly"); sym_reach("shrunk"); break;
		case 1: sym_assert(a.m_end == o.m_end - d && a.m_begin == o.m_begin && rv == a.m_end, "shrinking the back changed the range wrongly"); sym_reach("shrunk"); break;
		case 2: sym_assert(a.m_begin == (d > o.m_begin ? 0 : o.m_begin - d) && a.m_end == o.m_end && rv == a.m_begin, "growing the front changed the range wrongly"); sym_reach("grown"); break;
		case 3: sym_assert(a.m_end == (o.m_end + d > (off_t)g_size ? (off_t)g_size : o.m_end + d) && a.m_begin == o.m_begin && rv == a.m_end, "growing the back changed the range wrongly"); sym_reach("grown"); break;
		}
	} else if (op == 2) {
		auto a = rng("a", false), b = rng("b", false), c = rng("c", false);
		bool ab = a < b, ba = b < a, e = a == b;
		sym_assert((int)ab + (int)ba + (int)e == 1, "ordering and equality of ranges disagree");
		sym_assert(e == (same(a, b) && a.m_begin == b.m_begin && a.m_end == b.m_end), "range equality is wrong");
		sym_assert((a != b) == !e && (b == a) == e, "range inequality is wrong");
		if (ab && b < c) sym_assert(a < c, "the ordering of ranges is not transitive");
		sym_assert(!(a < a) && a == a, "a range differs from itself");
		BeesFileId x = a.m_fid, y = b.m_fid;
		sym_assert((int)(x < y) + (int)(y < x) + (int)(x == y) == 1 && (x != y) == !(x == y), "ordering and equality of file identities disagree");
		sym_reach("order");
	} else if (op == 3) {
		auto a = rng("a", true), b = rng("b", true);
		bool threw = false;
		bool bad = same(a, b) && share(a.m_begin, a.m_end, b.m_begin, b.m_end) || a.m_end - a.m_begin != b.m_end - b.m_begin;
		try {
			BeesRangePair p(a, b);
			sym_assert(p.first.m_begin == a.m_begin && p.first.m_end == a.m_end && p.second.m_begin == b.m_begin && p.second.m_end == b.m_end, "a range pair holds other ranges");
			int64_t d = sym_bits("delta", 61);
			bool t2 = false, front = sym_pick("front", 2);
			off_t len = a.m_end - a.m_begin;
			try { if (front) p.shrink_begin(d); else p.shrink_end(d); } catch (const std::exception &) { t2 = true; }
			if (t2) sym_assert(d <= 0 || d >= len, "a possible shrink of a pair was refused");
			else {
				sym_assert(p.first.size() == p.second.size() && p.first.size() == len - d, "shrinking a pair changed its sizes wrongly");
				off_t s = front ? d : 0;
				sym_assert(p.first.m_begin == a.m_begin + s && p.second.m_begin == b.m_begin + s, "shrinking a pair moved it");
			}
		} catch (const std::exception &) { threw = true; }
		sym_assert(threw == bad, "a pair of overlapping or unequal ranges is accepted, or a good one refused");
		sym_reach(bad ? "pairbad" : "pair");
	} else {
		// ranges identified by open descriptors, one by its numbers
		g_ino[0] = sym_bits("ino0", 64); g_ino[1] = sym_bits("ino1", 64); g_root[0] = sym_bits("root0", 64); g_root[1] = sym_bits("root1", 64);
		sym_assume(g_ino[0] && g_ino[1] && g_root[0] && g_root[1]);
		off_t b1 = sym_bits("b1", 61), e1 = sym_bits("e1", 61), b2 = sym_bits("b2", 61), e2 = sym_bits("e2", 61);
		sym_assume(b1 < e1 && b2 < e2);
		int k1 = 0, k2 = sym_pick("other", 2);
		BeesFileRange a(Fd(5), b1, e1), b(Fd(5 + k2), b2, e2);
		if (sym_pick("byid", 2)) b = BeesFileRange(BeesFileId(g_root[k2], g_ino[k2]), b2, e2);
		bool s = g_ino[k1] == g_ino[k2] && g_root[k1] == g_root[k2];
		sym_assert(a.overlaps(b) == (s && share(b1, e1, b2, e2)) && b.overlaps(a) == (s && share(b1, e1, b2, e2)), "overlap of two open ranges decided wrongly");
		bool e = s && b1 == b2 && e1 == e2;
		sym_assert((a == b) == e && (b == a) == e && (a != b) == !e, "equality of open ranges is wrong");
		sym_assert((int)(a < b) + (int)(b < a) == (e ? 0 : 1), "ordering of open ranges disagrees with equality");
		sym_assert(a.fid().ino() == g_ino[0] && a.fid().root() == g_root[0], "file identity of an open range is wrong");
		BeesFileRange cl = a.copy_closed();
		sym_assert(!cl.fd() && cl == a && cl.begin() == b1 && cl.end() == e1, "a closed copy of a range differs from it");
		sym_reach("fds");
	}
}

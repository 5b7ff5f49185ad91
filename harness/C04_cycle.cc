// MODS: src/bees.cc lib/fs.cc
// JOB: cycle steps=3 shards=8 depth=6
// THOROUGH: cycle4 steps=4 shards=16 depth=8
// REACH: restarted uptodate kept peeked popped readonly rokept searchfailed emptyrange exhausted deferred magic
// BOUND: every crawl position (64-bit transaction range in order, object id, offset), every newest transaction number, growing arbitrarily between steps; 3 (4) steps, each a look at or a take of the next file, a restart or a resume; a subvolume with at most one matching file at any inode with any generation, read-only or not, with a failing search; one subvolume crawler and one extent tier
// ASSUME: the recorded range is in order (its end is not before its beginning) and the newest transaction number does not decrease
#include "fake_tree.h"
#include <vector>
#include "bees-roots.cc"
extern "C" pid_t gettid() throw() { return 7; }
extern "C" int close(int) { return 0; }
static bool g_ro, g_fail;
extern "C" int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	if (req == BTRFS_IOC_FS_INFO) {
		auto p = (btrfs_ioctl_fs_info_args_v3 *)arg;
		memset(p, 0, sizeof *p);
		p->sectorsize = p->nodesize = p->clone_alignment = 4096; p->csum_size = 4;
		return 0;
	}
	sym_assert(req == BTRFS_IOC_TREE_SEARCH_V2, "unexpected ioctl");
	if (g_fail) { errno = EIO; return -1; }
	return tree_search(arg);
}
bool BeesContext::is_root_ro(uint64_t) { return g_ro; }
static btrfs_file_extent_item g_x;
static bool same(const BeesCrawlState &a, const BeesCrawlState &b) {
	return (a.m_root == b.m_root) & (a.m_objectid == b.m_objectid) & (a.m_offset == b.m_offset) & (a.m_min_transid == b.m_min_transid) & (a.m_max_transid == b.m_max_transid);
}
int main() {
	auto ctx = std::make_shared<BeesContext>();
	ctx->m_root_fd = Fd(5);
	ctx->m_home_fd = Fd(3);
	auto roots = ctx->roots();
	bool magic = sym_pick("magic", 2);
	BeesCrawlState st;
	st.m_root = magic ? 250 : 5;
	st.m_min_transid = sym_bits("min", 64);
	st.m_max_transid = sym_bits("max", 64);
	st.m_objectid = sym_bits("objectid", 64);
	st.m_offset = sym_bits("offset", 64);
	sym_assume(st.m_min_transid <= st.m_max_transid);
	uint64_t transid = sym_bits("transid", 64);
	sym_assume(transid > 0);
	sym_assume(transid < UINT64_MAX);
	roots->m_transid_re.m_last_count = transid;
	bool have = !magic && sym_pick("item", 2);
	if (have) {
		uint64_t ino = sym_range("ino", 257, 1 << 20), leaf = sym_bits("leaf", 64);
		g_x.generation = leaf; g_x.type = BTRFS_FILE_EXTENT_REG; g_x.disk_bytenr = 4096; g_x.num_bytes = g_x.ram_bytes = g_x.disk_num_bytes = 4096;
		T[NT++] = TItem { 5, ino, BTRFS_EXTENT_DATA_KEY, 0, leaf, (uint8_t *)&g_x, sizeof g_x };
	}
	g_ro = !magic && sym_pick("ro", 2);
	BeesCrawl c(ctx, st);
	bool peeked = false;
	for (int i = 0; i < (int)sym_param("steps", 3); i++) {
		auto b = c.get_state_end();
		bool wasdeferred = c.deferred(), wasfinished = c.finished();
		int op = sym_pick("op", magic ? 3 : 5);
		g_fail = false;
		// the newest known transaction
		if (op == 0) {
			uint64_t t = sym_bits("newer", 64);
			sym_assume(t >= transid); sym_assume(t < UINT64_MAX);
			roots->m_transid_re.m_last_count = transid = t;
			continue;
		}
		if (op == 1) {
			c.deferred(false);
			sym_assert(same(c.get_state_end(), b), "resuming a scan changes its range or position");
			sym_assert(!c.deferred(), "a resumed scan is still deferred");
			continue;
		}
		if (op == 2) {
			bool more = c.restart_crawl();
			auto a = c.get_state_end();
			if (sym_concrete(b.m_max_transid >= transid)) {
				sym_assert(!more && c.finished() && c.deferred(), "a scan that is up to date begins another cycle");
				sym_assert(same(a, b), "a finished scan changes its range or position");
				sym_reach("uptodate");
				if (peeked) break;
				continue;
			}
			sym_assert(more && !c.finished() && !c.deferred(), "a new cycle does not begin though there are newer transactions");
			sym_assert(a.m_root == b.m_root, "a new cycle is for another subvolume");
			sym_assert(a.m_min_transid == b.m_max_transid, "the new range does not begin where the previous one ended");
			sym_assert(a.m_max_transid == transid, "the new range does not end at the newest transaction");
			sym_assert((a.m_objectid == 0) & (a.m_offset == 0), "a new cycle does not begin at the first object");
			sym_reach(magic ? "magic" : "restarted");
			if (peeked) break;
			continue;
		}
		g_fail = sym_pick("fail", 2);
		int s0 = g_searches;
		auto r = op == 3 ? c.peek_front() : c.pop_front();
		auto a = c.get_state_end();
		sym_assert(a.m_root == b.m_root, "the state is for another subvolume");
		sym_assert(a.m_min_transid <= a.m_max_transid, "a transaction range runs backwards");
		if (!!r) {
			sym_assert(have, "a file is found that does not exist");
			sym_assert(r.fid().root() == 5 && sym_concrete(r.fid().ino() == T[0].obj), "another file is found");
			sym_reach(op == 3 ? "peeked" : "popped");
		}
		if (peeked) {
			sym_assert(!!r, "a file that was looked at is gone");
			sym_assert((a.m_min_transid == b.m_min_transid) & (a.m_max_transid == b.m_max_transid), "taking a file that was looked at changes the range");
			peeked = op == 3;
			if (op == 4) sym_assert(a.m_objectid == T[0].obj + 1, "taking a file does not move the position past it");
			continue;
		}
		peeked = op == 3 && !!r;
		if (wasdeferred) {
			sym_assert(!r, "a deferred scan returns a file");
			sym_assert(same(a, b), "a deferred scan changes its state");
			sym_reach("deferred");
			continue;
		}
		// how many cycles began, with which range
		bool empty = sym_concrete(b.m_max_transid <= b.m_min_transid) || wasfinished;
		bool moved = sym_concrete((a.m_min_transid != b.m_min_transid) | (a.m_max_transid != b.m_max_transid));
		bool match = have && sym_concrete((T[0].obj >= b.m_objectid) & (T[0].transid >= b.m_min_transid));
		if (!moved) {
			if (!r) sym_assert(c.deferred(), "a scan that found nothing is neither finished nor deferred");
			if (r) {
				sym_assert(!empty && match, "a file outside the range or before the position is found");
				sym_assert(a.m_objectid == (op == 4 ? T[0].obj + 1 : b.m_objectid), op == 4 ? "taking a file does not move the position past it" : "looking at a file moves the position");
			} else {
				sym_assert(same(a, b), "a scan that found nothing changes its position");
				if (c.finished()) sym_assert(b.m_max_transid >= transid, "a scan finishes though there are newer transactions");
				else { sym_assert(g_fail || g_ro, "a scan is deferred for no reason"); sym_reach("rokept"); }
				if (!empty && match && !g_fail && !g_ro) sym_fail("a scan finishes though there is a file in its range");
			}
			sym_reach("kept");
		} else if (g_ro && !empty && !c.finished() && sym_concrete(a.m_min_transid == b.m_min_transid)) {
			sym_assert(!r && c.deferred(), "a read-only subvolume is scanned");
			sym_assert((a.m_objectid == 0) & (b.m_objectid == 0), "the range of a scan that has started is changed");
			sym_assert(a.m_max_transid >= b.m_max_transid, "a transaction range moves backwards");
			sym_assert(a.m_max_transid == (transid > b.m_max_transid ? transid : b.m_max_transid), "the range of a read-only subvolume ends at another transaction");
			sym_reach("readonly");
		} else {
			sym_assert(a.m_min_transid == b.m_max_transid, "the new range does not begin where the previous one ended");
			sym_assert(a.m_max_transid == transid, "the new range does not end at the newest transaction");
			sym_assert(empty || !match, "a new cycle begins though there is a file left in the old range");
			sym_assert(empty || (!g_fail && !g_ro), "a new cycle begins after the search failed");
			if (r) {
				sym_assert(T[0].transid >= a.m_min_transid, "a file outside the range is found");
				sym_assert(a.m_objectid == (op == 4 ? T[0].obj + 1 : 0), op == 4 ? "taking a file does not move the position past it" : "a new cycle does not begin at the first object");
			} else sym_assert((a.m_objectid == 0) & (a.m_offset == 0), "a new cycle does not begin at the first object");
			sym_reach(empty ? "emptyrange" : "exhausted");
		}
		if (g_fail && !r && g_searches == s0) sym_reach("searchfailed");
	}
	return 0;
}

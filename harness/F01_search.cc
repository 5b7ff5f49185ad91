// MODS: lib/fs.cc lib/bytevector.cc lib/error.cc lib/string.cc lib/fd.cc lib/path.cc
// JOB: honest op=0
// JOB: malformed op=1
// JOB: errors op=2
// REACH: all some none retried toobig parsed refused enoent failed
// BOUND: up to 3 items of sizes 0..65000 (picked around the retry sizes, one symbolic size below 32) with symbolic keys and contents and every count requested; arbitrary replies with up to 3 items and symbolic 32-bit lengths; every ioctl errno
#include "fake_tree.h"
using namespace crucible;
static int g_mode;
static uint32_t m_n;
static struct btrfs_ioctl_search_header m_h[3];
static size_t m_size;
static uint8_t *m_base;
extern "C" int close(int) { return 0; }
extern "C" int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	sym_assert(fd == 5 && req == BTRFS_IOC_TREE_SEARCH_V2, "wrong ioctl");
	if (g_mode == 0) return tree_search(arg);
	crucible_search_args *a = (crucible_search_args *)arg;
	if (g_mode == 2) { errno = g_search_errno(); return -1; }
	// malformed reply
	size_t pos = 0;
	m_size = a->buf_size; m_base = a->buf;
	for (uint32_t i = 0; i < m_n; i++) {
		if (pos + sizeof m_h[0] > a->buf_size) break;
		memcpy(a->buf + pos, &m_h[i], sizeof m_h[0]);
		pos += sizeof m_h[0];
		size_t l = m_h[i].len;
		if (l > a->buf_size - pos) break;
		pos += sym_concrete(l);
	}
	a->key.nr_items = m_n;
	return 0;
}
static int pick_errno() { int e = sym_bits("errno", 8); sym_assume(e != 0 && e != EOVERFLOW); return e; }
int main() {
	g_mode = sym_param("op", 0);
	if (g_mode == 0) {
		static const size_t SZ[] = {1, 992, 993, 4000, 4064, 4065, 16000, 16353, 40000, 65000};
		NT = sym_pick("n", 4);
		uint64_t tree = sym_bits("tree", 64);
		for (int i = 0; i < NT; i++) {
			int c = sym_pick("size", i == 0 ? 11 : 4);
			T[i].len = i == 0 ? (c < 10 ? SZ[c] : (size_t)0) : c == 0 ? 0 : c == 1 ? 7 : c == 2 ? 960 : 16000;
			if (c == 10) T[i].len = sym_concrete(sym_range("len", 2, 31));
			uint8_t *d = (uint8_t *)calloc(1, T[i].len + 1);
			if (T[i].len) { sym_mem(d, T[i].len < 4 ? T[i].len : 4, "data"); d[T[i].len - 1] = sym_bits("last", 8); }
			T[i].data = d;
			T[i].tree = tree; T[i].obj = sym_bits("obj", 64); T[i].type = sym_bits("type", 8); T[i].off = sym_bits("off", 64); T[i].transid = sym_bits("transid", 64);
			if (i) sym_assume(key_lt(T[i - 1].obj, T[i - 1].type, T[i - 1].off, T[i].obj, T[i].type, T[i].off));
		}
		BtrfsIoctlSearchKey sk;
		sk.tree_id = tree;
		sk.nr_items = sym_pick("want", 3) + 1;
		if (sk.nr_items == 3) sk.nr_items = 1000;
		uint32_t want = sk.nr_items < (uint32_t)NT ? sk.nr_items : NT;
		bool rv = sk.do_ioctl_nothrow(5);
		sym_assert(rv, "a search whose items fit in the largest buffer failed");
		// the reply is the first items, in order, with nothing missing unless the largest buffer is full
		sym_assert(sk.m_result.size() <= want, "a search returned more items than there are");
		sym_assert(sk.nr_items == sk.m_result.size(), "the item count does not match the items");
		sym_assert(!NT || !sk.m_result.empty(), "items exist but the search returned none");
		size_t tot = 0;
		for (uint32_t i = 0; i < want; i++) tot += sizeof(btrfs_ioctl_search_header) + T[i].len;
		if (tot <= 16384) sym_assert(sk.m_result.size() == want, "a search lost items although the reply fits");
		int i = 0;
		for (auto &r : sk.m_result) {
			sym_assert(r.objectid == T[i].obj && r.type == T[i].type && r.offset == T[i].off && r.transid == T[i].transid, "an item's header changed");
			sym_assert(r.m_data.size() == T[i].len, "an item's length changed");
			sym_assert(!T[i].len || !memcmp(r.m_data.data(), T[i].data, T[i].len), "an item's bytes changed");
			i++;
		}
		sym_assert(sk.tree_id == tree && sk.min_objectid == 0 && sk.max_objectid == UINT64_MAX && sk.min_transid == 0 && sk.max_transid == UINT64_MAX, "the search key changed");
		sym_reach(!want ? "none" : sk.m_result.size() == want ? "all" : "some");
		if (g_searches > 1) sym_reach("retried");
		if (NT && T[0].len > 16352) sym_reach("toobig");
	} else if (g_mode == 1) {
		m_n = sym_pick("n", 4);
		for (uint32_t i = 0; i < m_n; i++) {
			m_h[i].objectid = sym_bits("obj", 64); m_h[i].type = 1; m_h[i].offset = i; m_h[i].transid = 1;
			int c = sym_pick("lenclass", 4);
			m_h[i].len = c == 0 ? (uint32_t)sym_range("len", 1, 6) : c == 1 ? 0 : c == 2 ? 900 : (uint32_t)sym_range("biglen", 1025, 0xffffffff);
			if (i) sym_assume(m_h[i].objectid > m_h[i - 1].objectid);
		}
		BtrfsIoctlSearchKey sk;
		sk.nr_items = m_n;
		bool threw = false;
		// what must be refused: an item that does not end inside the reply buffer
		size_t pos = 0;
		bool bad = false;
		try { sk.do_ioctl_nothrow(5); } catch (const std::exception &) { threw = true; }
		for (uint32_t i = 0; i < m_n && !bad; i++) {
			if (pos + sizeof m_h[0] > m_size) { bad = true; break; }
			pos += sizeof m_h[0];
			if (m_h[i].len > m_size - pos) bad = true; else pos += m_h[i].len;
		}
		sym_assert(threw == bad, "a malformed reply was accepted or a well-formed one refused");
		if (!threw) {
			sym_assert(sk.m_result.size() == m_n, "items of the reply are missing");
			uint32_t i = 0;
			for (auto &r : sk.m_result) {
				sym_assert(r.objectid == m_h[i].objectid && r.len == m_h[i].len && r.m_data.size() == m_h[i].len, "an item of the reply changed");
				if (r.m_data.size()) { volatile uint8_t x = r.m_data[r.m_data.size() - 1]; (void)x; }
				i++;
			}
		}
		sym_reach(bad ? "refused" : "parsed");
	} else {
		BtrfsIoctlSearchKey sk;
		static int e; e = pick_errno();
		g_search_errno = []() { return e; };
		bool rv = sk.do_ioctl_nothrow(5);
		sym_assert(rv == (e == ENOENT), "the outcome of a failed search is wrong");
		sym_assert(sk.m_result.empty(), "a failed search returned items");
		if (!rv) sym_assert(errno == e, "the error of a failed search is lost");
		bool threw = false;
		try { sk.do_ioctl(5); } catch (const std::exception &) { threw = true; }
		sym_assert(threw == !rv, "a failed search is not reported as an error");
		sym_reach(rv ? "enoent" : "failed");
	}
}

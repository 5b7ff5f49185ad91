// MODS: src/bees.cc lib/fs.cc
// JOB: refs op=0 n=2
// JOB: paths op=1 room=16
// JOB: limit op=2
// THOROUGH: refs4 op=0 n=4 shards=4 depth=6
// THOROUGH: paths2 op=1 room=24
// REACH: ok failed v1 many uneven toosmall path nopath outside unterminated few toomany allrefs toxic
// BOUND: two calls in a row on one reply object with buffers for up to 2 (4) references (any remainder), any element count, any contents and any combination of supported and failing ioctl versions; a path reply of 16 (24) bytes with any element count, offsets and contents; 0, 1, 9998, 9999 and 10000 references to a resolved address with any system time used
#include "sym.h"
#include "bees.h"
#include "crucible/btrfs.h"
#include <errno.h>
#include <stdarg.h>
#include <string.h>
#include <sys/resource.h>
using namespace crucible;
static int g_v2, g_v1, g_v2calls, g_v1calls, g_decided;   // g_v2: 0 fails, 1 works
static uint64_t g_logical, g_flags, g_size, g_elem;
static btrfs_data_container *g_c;
static int op;
static uint64_t *g_val; static int g_nval;
static uint64_t g_usec;
static uint64_t g_total;   // references that exist (op 2)
static bool g_sane;
extern "C" {
pid_t gettid() throw() { return 7; }
int close(int) { return 0; }
int getrusage(__rusage_who_t, struct rusage *u) throw() {
	static int n = 0;
	memset(u, 0, sizeof *u);
	if (n++) { u->ru_stime.tv_sec = g_usec / 1000000; u->ru_stime.tv_usec = g_usec % 1000000; }
	return 0;
}
int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	sym_assert(fd == 5, "ioctl on something that is not the filesystem root");
	if (req == BTRFS_IOC_INO_PATHS) {
		auto p = (btrfs_ioctl_ino_path_args *)arg;
		sym_assert(p->inum == g_logical && p->size == g_size, "paths of another inode or a buffer of another size are asked for");
		if (sym_pick("fails", 2)) { errno = ENOENT; return -1; }
		g_c = (btrfs_data_container *)p->fspath;
	} else {
		sym_assert(req == BTRFS_IOC_LOGICAL_INO_V2 || req == BTRFS_IOC_LOGICAL_INO, "unexpected ioctl");
		auto p = (btrfs_ioctl_logical_ino_args *)arg;
		bool v2 = req == BTRFS_IOC_LOGICAL_INO_V2;
		(v2 ? g_v2calls : g_v1calls)++;
		sym_assert(p->logical == g_logical && p->size == g_size, "references of another address or a buffer of another size are asked for");
		sym_assert(p->reserved[3] == g_flags && !p->reserved[0] && !p->reserved[1] && !p->reserved[2], "the request's flags are wrong");
		sym_assert(v2 || !g_flags, "flags are passed to a call that ignores them");
		if (!(v2 ? g_v2 : g_v1)) { errno = ENOTTY; return -1; }
		g_c = (btrfs_data_container *)p->inodes;
	}
	if (op == 2) {
		uint64_t room = (g_size - sizeof *g_c) / 24, n = g_total < room ? g_total : room;
		g_c->elem_cnt = n * 3; g_c->elem_missed = (g_total - n) * 3;
		for (uint64_t i = 0; i < n; i++) { g_c->val[i * 3] = 1000 + i; g_c->val[i * 3 + 1] = i << 12; g_c->val[i * 3 + 2] = 5; }
		return 0;
	}
	g_c->elem_cnt = g_elem = sym_bits("elem_cnt", 32);
	g_nval = (g_size - sizeof *g_c) / 8;
	for (int i = 0; i < g_nval; i++) g_c->val[i] = g_val[i] = sym_bits("val", 64);
	return 0;
}
}
static void refs(int nmax) {
	uint64_t vals[32]; g_val = vals;
	size_t mk = sym_pick("made_for", nmax + 1) * 24 + 16;
	BtrfsIoctlLogicalInoArgs a(sym_bits("logical", 64), mk);
	g_logical = a.m_logical; g_size = mk; g_flags = 0;
	bool known = false;
	for (int round = 0; round < 2; round++) {
		if (sym_pick("set", 2)) {
			g_logical = sym_bits("logical", 64); a.set_logical(g_logical);
			g_flags = sym_pick("flags", 2); a.set_flags(g_flags);
			g_size = sym_pick("size", nmax + 1) * 24 + (sym_pick("odd", 2) ? 8 : 16); a.set_size(g_size);
		}
		g_v2 = sym_pick("v2", 2); g_v1 = sym_pick("v1", 2);
		g_v2calls = g_v1calls = 0; g_c = nullptr;
		bool ok = false, threw = false;
		try { ok = a.do_ioctl_nothrow(5); } catch (const std::exception &) { threw = true; }
		if (g_size < 16) { sym_assert(threw && !g_v1calls && !g_v2calls, "a buffer too small for any reply is used"); sym_reach("toosmall"); sym_assert(a.m_iors.size() == 0 || round, "references appear from nowhere"); return; }
		if (!g_c) { sym_assert(!threw && !ok, "a failed call is not reported as failed"); sym_assert(a.m_iors.size() == 0, "a failed call leaves references behind"); sym_reach("failed"); if (!known && !g_flags) sym_assert(g_v1calls == 1 && g_v2calls == 1, "not every version of the call was tried"); }
		else {
			if (g_v1calls) sym_reach("v1");
			bool fits = g_elem <= (uint64_t)g_nval;
			bool even = g_elem % 3 == 0;
			if (threw) { sym_assert(a.m_iors.size() == 0, "a refused reply leaves references behind"); sym_assert(!(fits & even), "a valid reply is refused"); if (sym_concrete(!even)) sym_reach("uneven"); else sym_reach("many"); }
			else {
				sym_assert(ok, "a successful call is reported as failed");
				sym_assert(fits, "references are taken from outside the reply");
				sym_assert(even, "a fraction of a reference is used");
				uint64_t n = sym_concrete(g_elem) / 3;
				sym_assert(a.m_iors.size() == n && (uint64_t)(a.m_iors.end() - a.m_iors.begin()) == n && a.m_iors.cend() - a.m_iors.cbegin() == (ptrdiff_t)n, "the number of references is wrong");
				int k = 0;
				for (auto &i : a.m_iors) {
					sym_assert(i.m_inum == vals[k], "a reference's inode is wrong");
					sym_assert(i.m_offset == vals[k + 1], "a reference's offset is wrong");
					sym_assert(i.m_root == vals[k + 2], "a reference's subvolume is wrong");
					k += 3;
				}
				sym_assert(a.m_iors.data() == a.m_iors.begin(), "the references are not where they are said to be");
				sym_reach("ok");
			}
			known = true;
		}
	}
}
static void paths(int room) {
	uint64_t vals[8]; g_val = vals;
	g_size = 16 + room; g_logical = sym_bits("inode", 64);
	BtrfsIoctlInoPathArgs a(g_logical, g_size);
	a.m_paths.push_back("stale");
	bool ok = false, threw = false;
	try { ok = a.do_ioctl_nothrow(5); } catch (const std::exception &) { threw = true; }
	if (!g_c) { sym_assert(!ok && !threw && a.m_paths.empty(), "a failed call is not reported as failed, or leaves paths behind"); sym_reach("nopath"); return; }
	const char *v = (const char *)vals;
	bool bad = false;
	int n = 0;
	if (sym_concrete(g_elem > (uint64_t)g_nval)) bad = true;
	else n = sym_concrete(g_elem);
	for (int i = 0; i < n && !bad; i++) {
		uint64_t o = vals[i];
		if (sym_concrete(o >= (uint64_t)room)) { bad = true; sym_reach("outside"); break; }
		int off = sym_concrete(o), len = 0;
		while (off + len < room && sym_concrete(v[off + len] != 0)) len++;
		if (off + len == room) { bad = true; sym_reach("unterminated"); break; }
		if (threw) continue;
		sym_assert((int)a.m_paths.size() > i, "a path is missing");
		sym_assert((int)a.m_paths[i].size() == len, "a path has the wrong length");
		for (int k = 0; k < len; k++) sym_assert(a.m_paths[i][k] == v[off + k], "a path's contents are wrong");
		if (len) sym_reach("path");
	}
	sym_assert(threw == bad, bad ? "a path is taken from outside the reply" : "a valid reply is refused");
	if (!bad) sym_assert(ok && (int)a.m_paths.size() == n, "the number of paths is wrong");
}
static void limit() {
	auto ctx = std::make_shared<BeesContext>();
	ctx->m_root_fd = Fd(5);
	g_v2 = 1;
	static const uint64_t N[] = { 0, 1, BEES_MAX_EXTENT_REF_COUNT - 1, BEES_MAX_EXTENT_REF_COUNT, BEES_MAX_EXTENT_REF_COUNT + 1 };
	g_total = N[sym_pick("count", 5)];
	static const uint64_t U[] = { 0, 1, 4999999, 5000000, 5000001, 50000000 };
	g_usec = U[sym_pick("usec", 6)];
	g_size = sizeof(BtrfsInodeOffsetRoot) * BEES_MAX_EXTENT_REF_COUNT + sizeof(btrfs_data_container);
	ctx->m_logical_ino_pool.generator([]() { return std::make_shared<BtrfsIoctlLogicalInoArgs>(0, g_size); });
	uint64_t block = sym_range("block", 1, 1ull << 40);
	g_logical = block << 12;
	g_flags = 0;
	auto rv = ctx->resolve_addr_uncached(BeesAddress(g_logical));
	if (g_total >= BEES_MAX_EXTENT_REF_COUNT) { sym_assert(rv.m_biors.empty(), "an incomplete list of references is used"); sym_reach("toomany"); }
	else {
		sym_assert(rv.m_biors.size() == g_total, "the number of references is wrong");
		if (g_total) sym_assert(rv.m_biors[g_total - 1].m_inum == 1000 + g_total - 1, "a reference's inode is wrong");
		sym_reach("few");
	}
	sym_assert(rv.m_is_toxic == (g_usec >= BEES_TOXIC_SYS_DURATION * 1000000), "an address that takes too long to resolve is not marked");
	if (rv.m_is_toxic) sym_reach("toxic");
	g_flags = BTRFS_LOGICAL_INO_ARGS_IGNORE_OFFSET;
	g_logical = 0x5000;
	auto all = ctx->logical_ino(0x5000, true);
	sym_assert(all->do_ioctl_nothrow(5), "a reply is refused");
	sym_assert(all->m_iors.size() == (g_total < BEES_MAX_EXTENT_REF_COUNT ? g_total : BEES_MAX_EXTENT_REF_COUNT), "the number of references is wrong");
	sym_reach("allrefs");
}
int main() {
	op = sym_param("op", 0);
	if (op == 0) refs(sym_param("n", 3));
	else if (op == 1) paths(sym_param("room", 24));
	else limit();
}

// NATIVE: sched
// MODS: src/bees.cc lib/fs.cc
// JOB: map mode=0
// JOB: one n=1 symlen=1
// JOB: scan n=2 shards=4 depth=6
// JOB: tiers mode=2 n=1 shards=4 depth=4
// THOROUGH: tiers2 mode=2 n=2 shards=16 depth=8
// THOROUGH: scan3 n=3 few=1 shards=8 depth=8
// THOROUGH: scan2all n=2 all=1 shards=8 depth=8
// REACH: unique counted mapped toosmall toobig oldgen newgen treeblock scanned cycle1 cycle2 resumed ordered
// BOUND: every 64-bit extent length for the tier table and the size accounting; a scan of each tier over one extent of any length not below the tier, and over 2 (3) extents with lengths just below, at and above the tier's bounds (all tiers' bounds), adjacent or apart, in one or two block groups, with every generation; two cycles of all tiers started together, in parallel or in order, over one (two) extents with lengths at every tier's bounds and every generation, from nothing or from one saved position
// ASSUME: one worker; extents do not overlap
#include "fake_tree.h"
#include <thread>
#include <vector>
#include "bees-roots.cc"
extern "C" pid_t gettid() throw() { return 7; }
extern "C" int close(int) { return 0; }
extern "C" int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	sym_assert(fd == 5, "ioctl on something that is not the filesystem root");
	if (req == BTRFS_IOC_FS_INFO) {
		auto p = (btrfs_ioctl_fs_info_args_v3 *)arg;
		memset(p, 0, sizeof *p);
		p->sectorsize = p->nodesize = p->clone_alignment = 4096; p->csum_size = 4;
		return 0;
	}
	sym_assert(req == BTRFS_IOC_TREE_SEARCH_V2, "unexpected ioctl");
	return tree_search(arg);
}
typedef BeesScanModeExtent M;
static int tier_map() {
	auto &bsme = *new std::shared_ptr<M>(std::make_shared<M>(nullptr, nullptr));
	for (auto &i : M::s_magic_crawl_map) bsme->m_extent_size.m_map.insert(std::make_pair(i.first, M::ExtentSizeCount {}));
	uint64_t size = sym_bits("size", 64), bigger = sym_bits("bigger", 64);
	sym_assume(bigger >= size);
	int n = 0, tier = -1, tier2 = -1, k = 0;
	for (auto &i : M::s_magic_crawl_map) {
		sym_assert(i.second.m_min_size <= i.second.m_max_size, "a tier is empty");
		sym_assert(!is_subvol_tree(i.first), "a tier uses the id of a real subvolume");
		if ((size >= i.second.m_min_size) & (size <= i.second.m_max_size)) { n++; tier = k; }
		if ((bigger >= i.second.m_min_size) & (bigger <= i.second.m_max_size)) tier2 = k;
		k++;
	}
	sym_assert(n == 1, n ? "an extent length belongs to two tiers" : "an extent length belongs to no tier");
	sym_assert(tier2 <= tier, "a larger extent belongs to a tier that is scanned later");
	sym_reach("unique");
	bsme->count_extent_size(size);
	k = 0;
	for (auto &i : bsme->m_extent_size.m_map) { sym_assert(i.second.m_bytes == (k == tier ? size : 0), "the size of an extent is accounted to the wrong tier"); k++; }
	sym_assert(bsme->m_extent_size.m_total == size, "the total size is wrong");
	sym_reach("counted");
	return 0;
}
struct Ext { uint64_t start, len, gen; bool meta; int seen; };
static Ext X[4];
static int g_n, g_last = -1; static bool g_tiers;
static std::mutex g_m; static std::condition_variable g_cv; static bool g_done;
std::shared_ptr<BtrfsIoctlLogicalInoArgs> BeesContext::logical_ino(uint64_t bytenr, bool) {
	int k = -1;
	for (int i = 0; i < g_n && k < 0; i++) if (sym_concrete(X[i].start == bytenr)) k = i;
	sym_assert(k >= 0, "something that is not an extent is scanned");
	X[k].seen++;
	if (!g_tiers) sym_assert(k > g_last, "extents are scanned out of order or twice");
	g_last = k;
	throw std::runtime_error("recorded");
}
static std::vector<uint8_t> g_x[4], g_c[4];
static void chunk(int i, uint64_t start, uint64_t len, uint64_t type) {
	g_c[i].resize(sizeof(btrfs_chunk));
	auto c = (btrfs_chunk *)g_c[i].data();
	c->length = len; c->type = type;
	T[NT++] = TItem { BTRFS_CHUNK_TREE_OBJECTID, BTRFS_FIRST_CHUNK_TREE_OBJECTID, BTRFS_CHUNK_ITEM_KEY, start, 3, g_c[i].data(), g_c[i].size() };
}
static int tiers() {
	TaskMaster::set_thread_count(1);
	sym_sched(0);
	g_tiers = true;
	auto ctx = std::make_shared<BeesContext>();
	ctx->m_root_fd = Fd(5);
	ctx->m_home_fd = Fd(3);
	auto &roots = *new std::shared_ptr<BeesRoots>(ctx->roots());
	static const uint64_t G = 1ull << 30;
	chunk(0, G, G, BTRFS_BLOCK_GROUP_DATA);
	g_n = sym_param("n", 1);
	static const uint64_t LEN[] = { 4096, 131072, 135168, 524288, 528384, 2097152, 2101248, 8388608, 8392704, 33554432, 33558528 };
	uint64_t pos = G;
	for (int i = 0; i < g_n; i++) {
		X[i].start = pos; X[i].len = LEN[sym_pick("len", 11)]; X[i].gen = sym_range("gen", 1, 30);
		pos += X[i].len;
		g_x[i].resize(sizeof(btrfs_extent_item));
		auto x = (btrfs_extent_item *)g_x[i].data();
		x->refs = 1; x->generation = X[i].gen; x->flags = BTRFS_EXTENT_FLAG_DATA;
		T[NT++] = TItem { BTRFS_EXTENT_TREE_OBJECTID, X[i].start, BTRFS_EXTENT_ITEM_KEY, X[i].len, 30, g_x[i].data(), g_x[i].size() };
	}
	bool resume = sym_pick("resume", 2);
	bees_ordered_scan = sym_pick("ordered", 2);
	if (bees_ordered_scan) sym_reach("ordered");
	if (resume) {
		BeesCrawlState st;
		auto mc = M::s_magic_crawl_map.begin();
		for (int i = sym_pick("saved", 2) * 5; i > 0; i--) ++mc;
		st.m_root = mc->first; st.m_min_transid = 10; st.m_max_transid = 20;
		roots->insert_root(st);
		sym_reach("resumed");
	}
	auto &bsme = *new std::shared_ptr<M>(std::make_shared<M>(roots, ctx));
	auto &polls = *new int(0);
	Task &check = *new Task("check", [&]() {
		sym_assert(polls++ < 100, "the tiers do not finish");
		bool all = bsme->m_size_tiers.size() == M::s_magic_crawl_map.size();
		for (auto &i : bsme->m_size_tiers) all &= i.second->crawl()->finished();
		if (all) { std::unique_lock<std::mutex> l(g_m); g_done = true; g_cv.notify_all(); }
		else Task::current_task().idle();
	});
	for (int cycle = 0; cycle < 2; cycle++) {
		roots->m_transid_re.m_last_count = cycle ? 30 : 20;
		for (int i = 0; i < g_n; i++) X[i].seen = 0;
		g_done = false; polls = 0;
		// without data block groups there is no progress to report
		((btrfs_chunk *)g_c[0].data())->type = BTRFS_BLOCK_GROUP_METADATA;
		bsme->next_transid();
		((btrfs_chunk *)g_c[0].data())->type = BTRFS_BLOCK_GROUP_DATA;
		check.idle();
		{
			std::unique_lock<std::mutex> l(g_m);
			while (!g_done) g_cv.wait(l);
		}
		for (int i = 0; i < g_n; i++) {
			uint64_t lo = cycle ? 20 : resume ? 10 : 0, hi = cycle ? 30 : 20;
			bool want = sym_concrete((X[i].gen >= lo) & (X[i].gen <= hi));
			sym_assert(X[i].seen == want, want ? X[i].seen ? "an extent is scanned by two tiers" : "an extent is scanned by no tier" : "an extent is scanned that the cycle must leave out");
		}
		sym_reach(cycle ? "cycle2" : "cycle1");
	}
	for (auto &i : M::s_magic_crawl_map) {
		auto st = roots->m_root_crawl_map.at(i.first)->get_state_end();
		sym_assert(st.m_min_transid == 20 && st.m_max_transid == 30, "the tiers do not scan the same transactions");
	}
	sym_stop();
	return 0;
}
int main() {
	if (sym_param("mode", 1) == 2) return tiers();
	if (!sym_param("mode", 1)) return tier_map();
	TaskMaster::set_thread_count(1);
	sym_sched(0);
	auto ctx = std::make_shared<BeesContext>();
	ctx->m_root_fd = Fd(5);
	ctx->m_home_fd = Fd(3);
	auto roots = ctx->roots();
	static const uint64_t G = 1ull << 30;
	chunk(0, G, G, BTRFS_BLOCK_GROUP_DATA);
	chunk(1, 2 * G, G, BTRFS_BLOCK_GROUP_METADATA);
	chunk(2, 3 * G, G, BTRFS_BLOCK_GROUP_DATA);
	g_n = sym_param("n", 2);
	int tier_no = sym_pick("tier", 6);
	BeesCrawlState st;
	st.m_root = 255; st.m_min_transid = 10; st.m_max_transid = 20;
	roots->m_transid_re.m_last_count = 20;
	auto mc = M::s_magic_crawl_map.begin();
	for (int i = 0; i < tier_no; i++) ++mc;
	uint64_t lo = (mc->second.m_min_size + 4095) & ~4095ull, hi = mc->second.m_max_size;
	std::vector<uint64_t> lens;
	if (sym_param("few", 0)) { lens = { lo > 4096 ? lo - 4096 : 4096, lo ? lo : 4096 }; if (hi < G) lens.push_back(hi + 4096); }
	else if (sym_param("all", 0)) lens = { 4096, 131072, 135168, 524288, 528384, 2097152, 2101248, 8388608, 8392704, 33554432, 33558528 };
	else { lens = { 4096, lo ? lo : 8192 }; if (lo > 4096) lens.push_back(lo - 4096); if (hi < G) { lens.push_back(hi); lens.push_back(hi + 4096); } }
	uint64_t pos = G;
	for (int i = 0; i < g_n; i++) {
		static const uint64_t GAP[] = { 0, 4096, 1 << 20, 2 * G };
		int gap = i ? sym_pick("gap", i == 1 ? 4 : 2) : 0;
		if (gap == 3) pos = 3 * G; else pos += GAP[gap];
		X[i].start = pos;
		X[i].len = sym_param("symlen", 0) ? sym_range("len", 1, G >> 12) << 12 : lens[sym_pick("len", lens.size())];
		if (sym_param("symlen", 0)) sym_assume(X[i].len >= lo);
		X[i].gen = sym_range("gen", 1, 30);
		X[i].meta = i == 0 && sym_pick("meta", 2);
		pos += X[i].len;
		g_x[i].resize(sizeof(btrfs_extent_item));
		auto x = (btrfs_extent_item *)g_x[i].data();
		x->refs = 1; x->generation = X[i].gen; x->flags = X[i].meta ? BTRFS_EXTENT_FLAG_TREE_BLOCK : BTRFS_EXTENT_FLAG_DATA;
		T[NT++] = TItem { BTRFS_EXTENT_TREE_OBJECTID, X[i].start, BTRFS_EXTENT_ITEM_KEY, X[i].len, X[i].gen, g_x[i].data(), g_x[i].size() };
	}
	auto &bsme = *new std::shared_ptr<M>(std::make_shared<M>(roots, ctx));
	st.m_root = mc->first;
	auto &tier = *new std::shared_ptr<M::SizeTier>(std::make_shared<M::SizeTier>(bsme, mc->first, mc->second));
	auto &crawl = *new std::shared_ptr<BeesCrawl>(std::make_shared<BeesCrawl>(ctx, st));
	tier->set_crawl_and_task(crawl);
	Task &check = *new Task("check", [&]() {
		if (crawl->finished()) { std::unique_lock<std::mutex> l(g_m); g_done = true; g_cv.notify_all(); }
		else Task::current_task().idle();
	});
	tier->run_task();
	check.idle();
	{
		std::unique_lock<std::mutex> l(g_m);
		while (!g_done) g_cv.wait(l);
	}
	sym_reach("scanned");
	for (int i = 0; i < g_n; i++) {
		bool size_ok = sym_concrete((X[i].len >= mc->second.m_min_size) & (X[i].len <= mc->second.m_max_size));
		bool low = sym_concrete(X[i].gen < 10), high = sym_concrete(X[i].gen > 20);
		bool want = size_ok && !low && !high && !X[i].meta;
		sym_assert(X[i].seen == want, want ? "an extent of the tier's sizes is not scanned" : "an extent is scanned that the tier must leave out");
		if (want) sym_reach("mapped");
		if (X[i].meta) sym_reach("treeblock");
		if (low) sym_reach("oldgen");
		if (high) sym_reach("newgen");
		if (!size_ok) sym_reach(X[i].len < mc->second.m_min_size ? "toosmall" : "toobig");
	}
	sym_stop();
}

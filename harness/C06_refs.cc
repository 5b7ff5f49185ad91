// NATIVE: sched
// MODS: src/bees.cc lib/fs.cc
// JOB: order n=3
// JOB: faults n=2 faults=1
// JOB: overflow over=1
// THOROUGH: order4 n=4 shards=8 depth=6
// THOROUGH: faults3 n=3 faults=1 shards=8 depth=6
// REACH: sorted restarted gone nocow thrown toomany none
// BOUND: every list of up to 3 (4) references with any inode and offset and two subvolumes (one of them the top level), in every order; with up to 2 (3) references, every combination of references that vanished, failed scans, restarted scans and a no-checksum inode; 9997 to 9999 references
// ASSUME: one worker; the scan of a reference itself is replaced by a recorder
#include "fake_tree.h"
#include <thread>
#include <vector>
#include "bees-roots.cc"
extern "C" pid_t gettid() throw() { return 7; }
static const uint64_t BYTENR = 0x12345000;
struct Ref { uint64_t inum, off, root; bool gone; int seen, restarts; bool thrown; uint64_t len; };
static Ref R[4];
static uint64_t g_count, g_errno;
static int g_n, g_faults, g_calls, g_order[16];
static std::vector<uint8_t> g_data[4], g_inode[4];
static ProgressTracker<BeesCrawlState> *g_tracker;
static std::mutex g_m; static std::condition_variable g_cv; static bool g_done;
extern "C" int close(int) { return 0; }
extern "C" int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	sym_assert(fd == 5, "ioctl on something that is not the filesystem root");
	if (req == BTRFS_IOC_FS_INFO) {
		auto p = (btrfs_ioctl_fs_info_args_v3 *)arg;
		memset(p, 0, sizeof *p);
		p->sectorsize = p->nodesize = p->clone_alignment = 4096; p->csum_size = 4;
		return 0;
	}
	if (req == BTRFS_IOC_TREE_SEARCH_V2) return tree_search(arg);
	sym_assert(req == BTRFS_IOC_LOGICAL_INO_V2, "unexpected ioctl");
	auto p = (btrfs_ioctl_logical_ino_args *)arg;
	sym_assert(p->logical == BYTENR, "references of another extent are looked up");
	sym_assert(p->reserved[3] & BTRFS_LOGICAL_INO_ARGS_IGNORE_OFFSET, "references to other parts of the extent are left out");
	auto c = (btrfs_data_container *)p->inodes;
	uint64_t room = (p->size - offsetof(btrfs_data_container, val)) / 24, n = g_count < room ? g_count : room;
	c->elem_cnt = n * 3; c->elem_missed = (g_count - n) * 3;
	for (int i = 0; i < g_n; i++) { c->val[i * 3] = R[i].inum; c->val[i * 3 + 1] = R[i].off; c->val[i * 3 + 2] = R[i].root; }
	return 0;
}
bool BeesContext::scan_forward(const BeesFileRange &bfr) {
	sym_assert(Task::current_task().id() != 0, "a reference is scanned outside a task");
	int k = -1;
	for (int i = 0; i < g_n && k < 0; i++)
		if (!R[i].seen && sym_concrete((R[i].inum == bfr.fid().ino()) & (R[i].root == bfr.fid().root()) & (R[i].off == bfr.begin()))) k = i;
	sym_assert(k >= 0, "something that is not an unprocessed reference is scanned");
	sym_assert(!R[k].gone, "a reference that no longer exists is scanned");
	sym_assert(bfr.end() == bfr.begin() + R[k].len, "a reference is scanned with the wrong length");
	sym_assert(g_tracker->begin().m_objectid == 1, "the extent is recorded as done while a reference is still to be scanned");
	if (g_faults) {
		int w = sym_pick("outcome", 3);
		if (w == 1 && R[k].restarts < 1) { R[k].restarts++; sym_reach("restarted"); return true; }
		if (w == 2) { R[k].seen = true; R[k].thrown = true; g_order[g_calls++] = k; sym_reach("thrown"); throw std::runtime_error("scan failed"); }
	}
	R[k].seen = true;
	g_order[g_calls++] = k;
	return false;
}
static void t_insert(TItem x) {
	int i = NT++;
	for (; i > 0 && sym_concrete((x.tree < T[i - 1].tree) | ((x.tree == T[i - 1].tree) & key_lt(x.obj, x.type, x.off, T[i - 1].obj, T[i - 1].type, T[i - 1].off))); i--) T[i] = T[i - 1];
	T[i] = x;
}
int main() {
	TaskMaster::set_thread_count(1);
	sym_sched(0);
	auto ctx = std::make_shared<BeesContext>();
	ctx->m_root_fd = Fd(5);
	ctx->m_inode_locks.func([](uint64_t) { return std::make_shared<Exclusion>(); });
	uint64_t over = sym_param("over", 0);
	g_faults = sym_param("faults", 0);
	ctx->m_logical_ino_pool.generator([&]() { return std::make_shared<BtrfsIoctlLogicalInoArgs>(0, (over ? BEES_MAX_EXTENT_REF_COUNT : 8) * 24 + 16); });
	g_n = over ? 0 : sym_pick("n", sym_param("n", 3) + 1);
	g_count = g_n;
	bool nocow = false;
	if (over) {
		static const uint64_t C[] = { BEES_MAX_EXTENT_REF_COUNT, BEES_MAX_EXTENT_REF_COUNT + 1 };
		g_count = C[sym_pick("count", 2)];
	}
	for (int i = 0; i < g_n; i++) {
		R[i].inum = sym_range("inum", 256, ~0ull >> 1);
		R[i].off = sym_range("block", 0, 1ull << 44) << 12;
		R[i].root = sym_pick("root", 2) ? 257 : 5;
		R[i].len = 4096 * (i + 1);
		if (g_faults) R[i].gone = sym_pick("gone", 2);
		for (int j = 0; j < i; j++) sym_assume((R[i].inum != R[j].inum) | (R[i].off != R[j].off) | (R[i].root != R[j].root));
		g_data[i].resize(sizeof(btrfs_file_extent_item));
		auto fe = (btrfs_file_extent_item *)g_data[i].data();
		fe->type = BTRFS_FILE_EXTENT_REG; fe->disk_bytenr = BYTENR; fe->disk_num_bytes = fe->ram_bytes = fe->num_bytes = R[i].len;
		if (!R[i].gone) t_insert(TItem { R[i].root, R[i].inum, BTRFS_EXTENT_DATA_KEY, R[i].off, 7, g_data[i].data(), g_data[i].size() });
	}
	if (g_faults && g_n) {
		nocow = sym_pick("nocow", 2);
		g_inode[0].resize(sizeof(btrfs_inode_item));
		auto ii = (btrfs_inode_item *)g_inode[0].data();
		ii->flags = nocow ? BTRFS_INODE_NODATASUM : 0;
		t_insert(TItem { R[0].root, R[0].inum, BTRFS_INODE_ITEM_KEY, 0, 7, g_inode[0].data(), g_inode[0].size() });
	}
	auto &bsme = *new std::shared_ptr<BeesScanModeExtent>(std::make_shared<BeesScanModeExtent>(nullptr, ctx));
	auto &tier = *new std::shared_ptr<BeesScanModeExtent::SizeTier>(std::make_shared<BeesScanModeExtent::SizeTier>(bsme, 255, BeesScanModeExtent::MagicCrawl { 0, 131072 }));
	BeesCrawlState s0, s1;
	s0.m_objectid = 0; s1.m_objectid = 1;
	g_tracker = new ProgressTracker<BeesCrawlState>(s0);
	Task &next = *new Task("next", []() { std::unique_lock<std::mutex> l(g_m); g_done = true; g_cv.notify_all(); });
	{
		auto hold = g_tracker->hold(s1);
		tier->create_extent_map(BYTENR, hold, 4096, next);
	}
	bool any = false;
	for (int i = 0; i < g_n; i++) any |= !R[i].gone;
	if (over || nocow || !any) {
		for (int i = 0; i < 20; i++) sym_yield();
		sym_assert(!g_calls, "an extent that must be skipped was scanned");
		sym_reach(over ? "toomany" : nocow ? "nocow" : "none");
		sym_stop();
	}
	{
		std::unique_lock<std::mutex> l(g_m);
		while (!g_done) g_cv.wait(l);
	}
	int want = 0;
	for (int i = 0; i < g_n; i++) {
		want += !R[i].gone;
		if (R[i].gone) sym_reach("gone"); else sym_assert(R[i].seen, "a reference was never scanned");
	}
	sym_assert(g_calls == want, "a reference was scanned twice");
	for (int i = 1; i < g_calls; i++) {
		Ref &a = R[g_order[i - 1]], &b = R[g_order[i]];
		sym_assert((a.inum < b.inum) | ((a.inum == b.inum) & ((a.root < b.root) | ((a.root == b.root) & (a.off < b.off)))), "references are not scanned in ascending order of inode, subvolume and offset");
	}
	if (g_calls > 1) sym_reach("sorted");
	sym_stop();
}

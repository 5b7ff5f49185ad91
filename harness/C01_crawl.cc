// NATIVE: sched
// MODS: src/bees.cc lib/fs.cc
// JOB: subvol n=2 modes=4 shards=4 depth=6
// JOB: extent n=2 modes=1
// JOB: two n=2 modes=4 subvols=2 shards=16 depth=9
// JOB: saver n=2 modes=4 pre=1 few=1 shards=8 depth=6
// THOROUGH: subvol3 n=3 modes=4 shards=32 depth=12
// THOROUGH: extent3 n=3 modes=1 shards=8 depth=8
// THOROUGH: savere n=2 modes=1 pre=1 few=1 shards=8 depth=8
// THOROUGH: two3 n=3 modes=4 subvols=2 shards=32 depth=12
// THOROUGH: saver2 n=2 modes=4 pre=2 few=1 shards=8 depth=10
// REACH: samefile lockstep independent sequential recent extent restarted failed secondcycle running unscanned covered caughtup twosubvols readonly nowwritable late midway
// BOUND: the four subvolume scan modes over one subvolume of 2 (3) extents in one or several files, or two subvolumes of which one may be read-only, become writable, become read-only during the scan, or be created after the first cycle, and the extent mode over 2 (3) extents with one reference each; every generation from 1 to 30 against scan ranges 10 to 20 and 20 to 30, every later generation of the metadata page; every scan of a reference succeeding, restarting once or failing; two scan cycles; the saved position examined at every scan of a reference and between cycles, and by a second thread with 1 (2) preemptions
// ASSUME: one worker; the scan of a reference itself is replaced by a recorder
#include "fake_tree.h"
#include <thread>
#include <vector>
#include "bees-roots.cc"
extern "C" pid_t gettid() throw() { return 7; }
struct Ref { uint64_t root, ino, off, bytenr, gen, leaf; bool done, running; int restarts; };
static Ref R[4];
static int g_n;
static bool g_two, g_extent, g_few, g_ro, g_midway, g_stopped;
static std::vector<std::vector<uint8_t>> g_bytes;
static std::mutex g_m; static std::condition_variable g_cv; static bool g_done;
static std::shared_ptr<BeesRoots> *g_roots;
static std::vector<std::shared_ptr<BeesCrawl>> *g_crawls;
static const uint64_t G = 1ull << 30;
extern "C" int close(int) { return 0; }
extern "C" int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	sym_assert(fd == 5, "ioctl on something that is not the filesystem root");
	if (req == BTRFS_IOC_FS_INFO) {
		auto p = (btrfs_ioctl_fs_info_args_v3 *)arg;
		memset(p, 0, sizeof *p);
		p->sectorsize = p->nodesize = p->clone_alignment = 4096; p->csum_size = 4;
		return 0;
	}
	if (req == BTRFS_IOC_TREE_SEARCH_V2) return tree_search(arg);
	sym_assert(req == BTRFS_IOC_LOGICAL_INO_V2, "unexpected ioctl");
	auto p = (btrfs_ioctl_logical_ino_args *)arg;
	auto c = (btrfs_data_container *)p->inodes;
	c->elem_cnt = c->elem_missed = 0;
	for (int i = 0; i < g_n; i++) if (p->logical == R[i].bytenr) { c->elem_cnt = 3; c->val[0] = R[i].ino; c->val[1] = R[i].off; c->val[2] = 5; }
	return 0;
}
bool BeesContext::is_root_ro(uint64_t root) { return g_ro && root == 256; }
bool BeesContext::is_blacklisted(const BeesFileId &) const { return false; }
// would a program that loads the position recorded now still come across reference i, now or in a later cycle?
static void look() {
	std::vector<std::shared_ptr<BeesCrawl>> all;
	{
		std::unique_lock<std::mutex> l((*g_roots)->m_mutex);
		for (auto &i : (*g_roots)->m_root_crawl_map) all.push_back(i.second);
	}
	for (auto &c : all) {
		auto b = c->get_state_begin();
		sym_assert(b.m_min_transid <= b.m_max_transid, "the recorded transaction range is reversed");
		for (int i = 0; i < g_n; i++) {
			if (R[i].done || R[i].gen < 10) continue;
			if (!g_extent && R[i].root != b.m_root) continue;
			uint64_t key = g_extent ? R[i].bytenr : R[i].ino;
			if (R[i].gen >= b.m_max_transid) { sym_reach("covered"); continue; }
			sym_assert(R[i].gen >= b.m_min_transid, "the recorded transaction range leaves out data that is not scanned yet");
			if (R[i].running) sym_assert(b.m_objectid <= key, "the recorded position is past a file that is being scanned");
			else sym_assert(b.m_objectid <= key, "the recorded position is past a file that is not scanned yet");
			sym_reach(R[i].running ? "running" : "unscanned");
		}
	}
}
bool BeesContext::scan_forward(const BeesFileRange &bfr) {
	int k = -1;
	for (int i = 0; i < g_n; i++) if (bfr.fid().root() == R[i].root && bfr.fid().ino() == R[i].ino && bfr.begin() == R[i].off) k = i;
	sym_assert(k >= 0, "something that is not a reference is scanned");
	sym_assert(!(g_ro && R[k].root == 256 && !g_stopped), "a file of a read-only subvolume is scanned");
	R[k].running = true;
	look();
	int w = g_few ? 0 : g_two ? 2 * sym_pick("fails", 2) : sym_pick("outcome", 3);
	R[k].running = false;
	if (w == 1 && !R[k].restarts) { R[k].restarts++; sym_reach("restarted"); return true; }
	R[k].done = true;
	if (g_midway && R[k].root == 256) { g_ro = g_stopped = true; g_midway = false; sym_reach("midway"); }
	if (w == 2) { sym_reach("failed"); throw std::runtime_error("scan failed"); }
	return false;
}
static void item(uint64_t tree, uint64_t obj, uint32_t type, uint64_t off, uint64_t transid, size_t len) {
	g_bytes.push_back(std::vector<uint8_t>(len));
	T[NT++] = TItem { tree, obj, type, off, transid, g_bytes.back().data(), len };
}
int main() {
	TaskMaster::set_thread_count(1);
	sym_sched(sym_param("pre", 0));
	g_n = sym_param("n", 2);
	g_few = sym_param("few", 0);
	int mode = sym_param("modes", 4) == 1 ? 4 : sym_pick("mode", 4);
	g_extent = mode == 4;
	g_bytes.reserve(16);
	auto ctx = std::make_shared<BeesContext>();
	ctx->m_root_fd = Fd(5);
	ctx->m_home_fd = Fd(3);
	ctx->m_inode_locks.func([](uint64_t) { return std::make_shared<Exclusion>(); });
	ctx->m_logical_ino_pool.generator([]() { return std::make_shared<BtrfsIoctlLogicalInoArgs>(0, 8 * 24 + 16); });
	auto roots = ctx->roots();
	g_roots = &roots;
	bool two = g_two = sym_param("subvols", 1) == 2;
	int split = two ? sym_pick("split", g_n) : g_n;      // the references from this one on are in the second subvolume
	for (int i = 0; i < g_n; i++) {
		R[i].root = i < split ? 5 : 256;
		bool first = !i || i == split;
		bool same = !first && sym_pick("samefile", 2);
		R[i].ino = !first ? R[i - 1].ino + !same : 257; R[i].off = same ? R[i - 1].off + 4096 : 0; R[i].bytenr = G + i * 8192;
		R[i].gen = g_few || (two && i > 1) ? 15 : sym_range("gen", 1, 30);
		R[i].leaf = g_few || (two && i) ? R[i].gen : sym_range("leaf", 1, 30);
		sym_assume(R[i].leaf >= R[i].gen);
		if (same) sym_reach("samefile");
	}
	if (g_extent) {
		for (int i = 0; i < g_n; i++) {
			item(BTRFS_EXTENT_TREE_OBJECTID, R[i].bytenr, BTRFS_EXTENT_ITEM_KEY, 4096, R[i].leaf, sizeof(btrfs_extent_item));
			auto x = (btrfs_extent_item *)g_bytes.back().data();
			x->refs = 1; x->generation = R[i].gen; x->flags = BTRFS_EXTENT_FLAG_DATA;
		}
		item(BTRFS_CHUNK_TREE_OBJECTID, BTRFS_FIRST_CHUNK_TREE_OBJECTID, BTRFS_CHUNK_ITEM_KEY, G, 3, sizeof(btrfs_chunk));
		auto c = (btrfs_chunk *)g_bytes.back().data();
		c->length = G; c->type = BTRFS_BLOCK_GROUP_DATA;
	}
	for (int i = 0; i < g_n; i++) {
		if (!g_extent && !R[i].off) item(R[i].root, R[i].ino, BTRFS_INODE_ITEM_KEY, 0, R[i].leaf, sizeof(btrfs_inode_item));
		item(R[i].root, R[i].ino, BTRFS_EXTENT_DATA_KEY, R[i].off, R[i].leaf, sizeof(btrfs_file_extent_item));
		auto x = (btrfs_file_extent_item *)g_bytes.back().data();
		x->generation = R[i].gen; x->type = BTRFS_FILE_EXTENT_REG; x->disk_bytenr = R[i].bytenr; x->num_bytes = x->ram_bytes = x->disk_num_bytes = 4096;
	}
	int other = two ? sym_pick("other", 5) : 0;     // the second subvolume: 1 is read-only, 2 becomes writable, 3 is created later, 4 becomes read-only during the scan and writable two cycles later
	TItem *late = nullptr;
	if (two) {
		item(BTRFS_ROOT_TREE_OBJECTID, 256, BTRFS_ROOT_BACKREF_KEY, 5, 3, 32);
		late = &T[NT - 1];
		if (other == 3) {
			// a third one without anything to scan has come further
			late->tree = 9999; sym_reach("late");
			item(BTRFS_ROOT_TREE_OBJECTID, 257, BTRFS_ROOT_BACKREF_KEY, 5, 3, 32);
			BeesCrawlState s3;
			s3.m_root = 257; s3.m_min_transid = s3.m_max_transid = 20;
			roots->insert_root(s3);
		}
		g_midway = other == 4;
		g_ro = other == 1 || other == 2;
		sym_reach("twosubvols");
	}
	roots->m_transid_re.m_last_count = 20;
	BeesCrawlState st;
	st.m_root = g_extent ? BTRFS_FIRST_FREE_OBJECTID - 1 : 5; st.m_min_transid = 10; st.m_max_transid = 20;
	static const char *NAME[] = { "lockstep", "independent", "sequential", "recent", "extent" };
	sym_reach(NAME[mode]);
	g_crawls = new std::vector<std::shared_ptr<BeesCrawl>>;
	auto &crawl = *new std::shared_ptr<BeesCrawl>(roots->insert_root(st));
	g_crawls->push_back(crawl);
	auto &scanner = *new std::shared_ptr<BeesScanMode>;
	auto &tier = *new std::shared_ptr<BeesScanModeExtent::SizeTier>;
	switch (mode) {
		case 0: scanner = std::make_shared<BeesScanModeLockstep>(roots, ctx); break;
		case 1: scanner = std::make_shared<BeesScanModeIndependent>(roots, ctx); break;
		case 2: scanner = std::make_shared<BeesScanModeSequential>(roots, ctx); break;
		case 3: scanner = std::make_shared<BeesScanModeRecent>(roots, ctx); break;
		case 4: {
			auto bsme = std::make_shared<BeesScanModeExtent>(roots, ctx);
			scanner = bsme;
			auto mc = BeesScanModeExtent::s_magic_crawl_map.at(st.m_root);
			tier = std::make_shared<BeesScanModeExtent::SizeTier>(bsme, st.m_root, mc);
			tier->set_crawl_and_task(crawl);
		}
	}
	auto &polls = *new int(0);
	Task &check = *new Task("check", [&]() {
		bool all = true, there = false;
		{
			std::unique_lock<std::mutex> l(roots->m_mutex);
			for (auto &i : roots->m_root_crawl_map) { all &= i.second->finished() | (g_ro && i.first == 256); there |= i.first == 256; }
		}
		for (int i = 0; i < g_n; i++) all &= R[i].done | (R[i].root == 256 && (g_ro || !there)) | (R[i].gen < 10) | (R[i].gen > roots->transid_max());
		sym_assert(polls++ < 60, "the scan does not finish");
		if (all) { std::unique_lock<std::mutex> l(g_m); g_done = true; g_cv.notify_all(); }
		else Task::current_task().idle();
	});
	for (int cycle = 0; cycle < (other == 4 ? 3 : 2); cycle++) {
		look();
		g_done = false; polls = 0;
		if (cycle) {
			roots->m_transid_re.m_last_count = 30;
			crawl->deferred(false);
			if (other == 2 || (other == 4 && cycle == 2)) { g_ro = false; sym_reach("nowwritable"); }
			if (other == 3) late->tree = BTRFS_ROOT_TREE_OBJECTID;
			sym_reach("secondcycle");
		}
		if (g_extent) { look(); tier->run_task(); }
		else { scanner->next_transid(); look(); }
		check.idle();
		if (sym_param("pre", 0)) for (int i = 0; i < 3; i++) look();
		std::unique_lock<std::mutex> l(g_m);
		while (!g_done) g_cv.wait(l);
		l.unlock();
		look();
		auto b = crawl->get_state_begin(), e = crawl->get_state_end();
		if (!(b < e)) sym_reach("caughtup");
		sym_assert(e.m_max_transid == (cycle ? 30 : 20), "the finished scan covers another range");
		sym_assert(e.m_min_transid == (cycle ? 20 : 10), "the new scan does not begin where the previous one ended");
	}
	if (g_ro) sym_reach("readonly");
	if (two) sym_assert(roots->m_root_crawl_map.count(256) == 1, "a subvolume is not scanned");
	sym_stop();
}

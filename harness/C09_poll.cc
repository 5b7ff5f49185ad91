// NATIVE: sched
// MODS: src/bees.cc lib/fs.cc lib/task.cc
// JOB: poll pre=0 polls=5
// JOB: stop pre=2 polls=1
// THOROUGH: poll7 pre=0 polls=7
// THOROUGH: stop2 pre=2 polls=2 shards=8 depth=6
// REACH: scanned moved unmoved failed firstfailed stopped early late unreadable
// BOUND: 5 (7) polls, each of which finds the transaction unchanged, 1 or 1000 later, or fails; with a stop request at any point of 1 (2) polls, at most 2 preemptions
// ASSUME: a wait ends when nothing else can run (a poll interval passes), or earlier at the cost of one preemption
#include "fake_tree.h"
#include <thread>
#include <vector>
#include "bees-roots.cc"
extern "C" pid_t gettid() throw() { return 7; }
extern "C" int close(int) { return 0; }
static uint64_t g_tid = 1000, g_seen, g_announced;      // of the filesystem; as last read; of the last scan
static int g_polls, g_maxpolls, g_stopped_polls, g_changes, g_fds, g_resolves, g_loaded, g_scans;
static bool g_stopped, g_end, g_strict;
static std::mutex g_m; static std::condition_variable g_cv;
static btrfs_root_item g_ri;
extern "C" int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	sym_assert(fd == 5, "ioctl on something that is not the filesystem root");
	if (req == BTRFS_IOC_FS_INFO) {
		auto p = (btrfs_ioctl_fs_info_args_v3 *)arg;
		memset(p, 0, sizeof *p);
		p->sectorsize = p->nodesize = p->clone_alignment = 4096; p->csum_size = 4;
		return 0;
	}
	sym_assert(req == BTRFS_IOC_TREE_SEARCH_V2, "unexpected ioctl");
	return tree_search(arg);
}
extern "C" int sym_idle_expiries(void);
static void wake() { std::unique_lock<std::mutex> l(g_m); g_cv.notify_all(); }
// every poll is one search: the filesystem may have moved on, or the search may fail
static int poll() {
	sym_assert(!g_stopped_polls, "the thread goes on polling after the stop request");
	if (g_stopped) g_stopped_polls++;
	if (g_strict) sym_assert(g_announced == g_seen, "a new transaction was read and no scan was started before the next poll");
	if (g_polls++ >= g_maxpolls) { g_end = true; wake(); }
	else switch (sym_pick("poll", 4)) {
		case 0: sym_reach("unmoved"); break;
		case 1: g_tid++; sym_reach("moved"); break;
		case 2: g_tid += 1000; break;
		default: sym_reach(g_polls == 1 ? "firstfailed" : "failed"); return EIO;
	}
	T[0].transid = g_tid;
	if (g_seen != g_tid) g_changes++;
	g_seen = g_tid;
	return 0;
}
void BeesFdCache::clear() { g_fds++; sym_yield(); }
void BeesContext::resolve_cache_clear() { g_resolves++; sym_yield(); }
std::string BeesStringFile::read() {
	sym_assert(!g_loaded++, "the saved state is loaded twice");
	sym_assert(g_polls == 1, "the transaction is not read before the state is loaded");
	sym_assert(!g_scans, "a scan starts before the saved state is loaded");
	if (sym_pick("unreadable", 2)) { sym_reach("unreadable"); throw std::runtime_error("unreadable"); }
	return "";
}
struct Scan : public BeesScanMode {
	using BeesScanMode::BeesScanMode;
	void scan() override { }
	const char *ntoa() const override { return "TEST"; }
	void next_transid() override {
		sym_assert(g_loaded, "a scan starts before the saved state is loaded");
		uint64_t t = m_roots->transid_max();
		sym_assert(g_scans < g_changes, "a scan starts although the transaction is the same");
		sym_assert(std::min(g_fds, g_resolves) > g_scans, "a scan starts with the old cached descriptors");
		g_announced = t; g_scans++;
		sym_reach("scanned");
		wake();
	}
};
int main() {
	TaskMaster::set_thread_count(1);
	sym_sched(0);
	auto &ctx = *new std::shared_ptr<BeesContext>(std::make_shared<BeesContext>());
	ctx->m_root_fd = Fd(5);
	ctx->m_home_fd = Fd(3);
	auto &roots = *new std::shared_ptr<BeesRoots>(ctx->roots());
	T[NT++] = TItem { BTRFS_ROOT_TREE_OBJECTID, BTRFS_EXTENT_TREE_OBJECTID, BTRFS_ROOT_ITEM_KEY, 0, g_tid, (uint8_t *)&g_ri, sizeof g_ri };
	g_search_errno = poll;
	roots->m_scanner = std::make_shared<Scan>(roots, ctx);
	g_maxpolls = sym_param("polls", 4);
	int pre = sym_param("pre", 0);
	g_strict = !pre;
	sym_sched(pre);
	// without the write-back thread, whose waits would expire any number of times before the next poll
	if (pre) roots->start();
	else { g_loaded = 1; roots->m_crawl_thread.exec([&]() { roots->crawl_thread(); }); }
	if (!pre) {
		std::unique_lock<std::mutex> l(g_m);
		while (!g_end) g_cv.wait(l);
	}
	if (g_end) sym_reach("late"); else sym_reach("early");
	roots->stop_request();
	g_stopped = true;
	int idle = sym_idle_expiries();
	if (pre) roots->stop_wait(); else roots->m_crawl_thread.join();
	sym_assert(sym_idle_expiries() == idle, "a thread sleeps through the stop request");
	{
		std::unique_lock<std::mutex> l(g_m);
		// (a first reading before the thread's loop is not announced by itself)
		while (g_announced != g_seen && (!pre || g_polls > 1)) g_cv.wait(l);
	}
	sym_reach("stopped");
	sym_stop();
	return 0;
}

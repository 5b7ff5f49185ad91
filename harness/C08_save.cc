// NATIVE: sched
// MODS: src/bees-roots.cc
// STUB: keep std::ostream::operator<<(unsigned long)
// STUB: keep std::ostream::operator<<(long)
// STUB: keep std::ostream::operator<<(std::ios_base&*
// STUB: keep std::basic_ostream<char*::operator<<(unsigned long)
// STUB: keep std::basic_ostream<char*::operator<<(long)
// STUB: keep std::basic_ostream<char*::operator<<(std::ios_base&*
// STUB: keep *std::operator<<*std::char_traits<char>*char const*
// STUB: keep *std::operator<<*std::allocator<char>*string*
// STUB: keep *std::operator<<*<std::char_traits<char>>*, char)
// STUB: keep std::__cxx11::basic_ostringstream<char*>::str() const
// STUB: keep crucible::to_hex*
// JOB: save pre=3 fail=0 ops=3
// JOB: fail pre=2 fail=1 ops=3
// THOROUGH: save4 pre=4 fail=0 ops=4 shards=8 depth=8
// THOROUGH: fail4 pre=3 fail=2 ops=4 shards=8 depth=8
// REACH: saved failed concurrent quiet unchanged added removed moved lastfailed
// BOUND: 3 (4) changes of the crawl state (a position moves, a subvolume appears or disappears) by one thread while the write-back thread runs, every interleaving with at most 3 (4) preemptions, or at most 2 (3) with at most 1 (2) failing writes of the state file; then a stop request
// ASSUME: a write of the state file succeeds as a whole or fails with the old file in place (C03)
#include "sym.h"
#include "bees.h"
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <thread>
using namespace crucible;
extern "C" pid_t gettid() throw() { return 7; }
extern "C" int close(int) { return 0; }
extern "C" int ioctl(int fd, unsigned long req, ...) throw() {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	sym_assert(req == BTRFS_IOC_FS_INFO, "unexpected ioctl");
	auto p = (btrfs_ioctl_fs_info_args_v3 *)arg;
	memset(p, 0, sizeof *p);
	p->sectorsize = p->nodesize = p->clone_alignment = 4096; p->csum_size = 4;
	return 0;
}
static const int R = 4;
struct State { bool have[R]; uint64_t obj[R]; };
static State g_now, g_snap, g_file;         // in memory, at the last formatting, in the file
static bool g_written, g_in_write, g_last_failed;
static int g_fail, g_writes;
static BeesRoots *g_roots;
ostream &BeesRoots::state_to_stream(ostream &os) {
	for (int i = 0; i < R; i++) {
		auto f = m_root_crawl_map.find(300 + i);
		g_snap.have[i] = f != m_root_crawl_map.end();
		g_snap.obj[i] = g_snap.have[i] ? f->second->get_state_end().m_objectid : 0;
	}
	return os << "state";
}
void BeesStringFile::write(std::string s) {
	sym_assert(!g_in_write, "two writes at once");
	g_in_write = true;
	State mine = g_snap;
	g_writes++;
	sym_yield();
	g_last_failed = g_fail > 0 && sym_pick("write_fails", 2);
	if (!g_last_failed) { g_file = mine; g_written = true; }
	sym_yield();
	g_in_write = false;
	if (g_last_failed) { g_fail--; sym_reach("failed"); throw std::runtime_error("write failed"); }
}
static BeesCrawlState state(int i, uint64_t obj) {
	BeesCrawlState s;
	s.m_root = 300 + i; s.m_objectid = obj; s.m_offset = 0; s.m_min_transid = 1; s.m_max_transid = 2;
	return s;
}
int main() {
	auto &ctx = *new std::shared_ptr<BeesContext>(std::make_shared<BeesContext>());
	ctx->m_root_fd = Fd(5);
	ctx->m_home_fd = Fd(3);
	auto roots = ctx->roots();
	g_roots = roots.get();
	for (int i = 0; i < 2; i++) { roots->insert_root(state(i, 1000)); g_now.have[i] = true; g_now.obj[i] = 1000; }
	// the state was saved before
	bool clean = sym_pick("clean", 2);
	if (clean) { roots->m_crawl_clean = roots->m_crawl_dirty; g_file = g_now; }
	g_fail = sym_param("fail", 0);
	std::thread wb([&]() { roots->writeback_thread(); });
	sym_sched(sym_param("pre", 1));
	int ops = sym_param("ops", 2), changes = 0;
	bool was = clean;
	for (int i = 0; i < ops; i++) {
		int op = sym_pick("op", 4);
		if (g_in_write) sym_reach("concurrent"); else sym_reach("quiet");
		if (op == 0) {
			uint64_t o = 2000 + 100 * i + sym_bits("object", 4);
			auto it = roots->m_root_crawl_map.find(300);
			it->second->set_state(state(0, o));
			g_now.obj[0] = o; changes++; sym_reach("moved");
		} else if (op == 1 && !g_now.have[2 + (i & 1)]) {
			int k = 2 + (i & 1);
			uint64_t o = sym_bits("object", 3);
			roots->insert_root(state(k, o));
			g_now.have[k] = true; g_now.obj[k] = o; changes++; sym_reach("added");
		} else if (op == 2 && g_now.have[1]) {
			roots->crawl_state_erase(state(1, 1000));
			g_now.have[1] = false; g_now.obj[1] = 0; changes++; sym_reach("removed");
		}
		if (i + 1 < ops) sym_yield();
	}
	roots->stop_request();
	wb.join();
	sym_assert(!g_in_write, "the daemon stops during a write");
	bool same = true;
	for (int i = 0; i < R; i++) same = same & (g_now.have[i] == g_file.have[i]) & (g_now.obj[i] == g_file.obj[i]);
	if (g_last_failed) sym_reach("lastfailed");
	else { sym_assert(same, "a change of the crawl state did not reach the state file"); sym_reach("saved"); }
	if (was && !changes) { sym_assert(!g_writes, "an unchanged state is written again"); sym_reach("unchanged"); }
	if (g_fail < (int)sym_param("fail", 0) && g_last_failed) sym_assert(g_writes >= 2 || roots->m_crawl_clean != roots->m_crawl_dirty, "a failed write is not tried again");
	sym_observe("writes", g_writes);
	sym_stop();
}

// MODS: src/bees-hash.cc src/bees-context.cc src/bees.cc src/bees-thread.cc src/bees-types.cc src/bees-roots.cc lib/fd.cc lib/error.cc lib/bytevector.cc lib/string.cc lib/task.cc lib/time.cc lib/fs.cc lib/path.cc lib/uname.cc
// NATIVE: sched
// JOB: sched1 pre=1 fail=0 ops=2
// JOB: fail1 pre=1 fail=1 ops=2
// JOB: sched2 pre=2 fail=0 ops=2
// THOROUGH: sched3 pre=3 fail=0 ops=2 shards=8 depth=8
// THOROUGH: fail3 pre=2 fail=2 ops=3 shards=8 depth=8
// REACH: written failed concurrent quiet
// BOUND: one writer making 2 (thorough 3) symbolic changes in two table regions while the table's own write-back thread runs, at most 2 (thorough 3) preemptions at lock, condition and file-write points, at most 1 (thorough 2) failing region writes; then shutdown
// ASSUME: a region write either transfers everything or fails with EIO
#include "hash_env.h"
#include <thread>
static int g_fail, g_failed_last[2];
static bool g_in_write;
static bool on_pwrite(const uint8_t *p, size_t off, size_t n) {
	sym_assert(off % EXT == 0 && n == EXT, "a write does not cover exactly one region");
	sym_assert(!g_in_write, "two region writes at once");
	g_in_write = true;
	sym_yield();
	bool ok = true;
	if (g_fail > 0 && sym_pick("write_fails", 2)) { g_fail--; ok = false; sym_reach("failed"); }
	g_failed_last[off / EXT] = !ok;
	if (ok) memcpy(E.file + off, p, n);
	sym_yield();
	g_in_write = false;
	return ok;
}
int main() {
	auto t = open_table(2);
	E.on_pwrite = on_pwrite;
	t->find_cell(0); t->find_cell(32);
	g_fail = sym_param("fail", 0);
	int ops = sym_param("ops", 2);
	sym_assert(g_threads.size() == 2, "unexpected number of table threads");
	std::thread wb(g_threads[0]);
	sym_sched(sym_param("pre", 1));
	for (int i = 0; i < ops; i++) {
		size_t b = sym_pick("bucket", 2) * 32 + 5;
		uint64_t h = b | (0x10ull + (i << 4)) << 32, a = 0x10000 + sym_bits("addr", 16) * 0x1000;
		if (g_in_write) sym_reach("concurrent"); else sym_reach("quiet");
		t->push_front_hash_addr(h, a);
		if (i && sym_pick("erase", 2)) t->erase_hash_addr(h, a);
		if (i + 1 < ops) sym_yield();
	}
	t->stop_request();
	wb.join();
	for (size_t x = 0; x < 2; x++) {
		bool same = !memcmp(E.map + x * EXT, E.file + x * EXT, EXT);
		if (g_failed_last[x]) {
			sym_assert(same || t->m_extent_metadata.at(x).m_dirty, "a region whose write failed was forgotten");
		} else {
			sym_assert(same, "a change to the hash table did not reach the table file");
			sym_reach("written");
		}
	}
	sym_observe("pwrites", E.pwrites);
}

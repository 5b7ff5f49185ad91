// NATIVE: sched
// MODS: lib/error.cc lib/string.cc
// JOB: two n=2 pre=3 rounds=2
// JOB: three n=3 pre=1
// JOB: seq mode=1
// THOROUGH: three2 n=3 pre=3
// THOROUGH: two4 n=2 pre=5 rounds=3
// REACH: same full tryfail seq
// BOUND: 2..3 threads, 1..2 (thorough 3) lock/unlock rounds each, symbolic 64-bit keys (all equality patterns), size limit 1, 2 or none, every interleaving with at most 3 (5) preemptions; one thread's sequences of lock, try_lock, handle copies and unlock
#include "sym.h"
#include "crucible/lockset.h"
#include <thread>
#include <vector>
using namespace crucible;
extern "C" pid_t gettid() throw() { return 7; }
typedef LockSet<uint64_t> LS;
static uint64_t held[4]; static bool on[4]; static int nheld;
static size_t g_max;
static void take(int i, uint64_t k) {
	for (int j = 0; j < 4; j++) if (j != i && on[j]) sym_assert(held[j] != k, "two owners hold the same key");
	held[i] = k; on[i] = true; nheld++;
	sym_assert((size_t)nheld <= g_max, "more keys are held than the limit allows");
}
static void drop(int i) { on[i] = false; nheld--; }
static void seq() {
	LS s;
	g_max = 2; s.max_size(2);
	uint64_t a = sym_bits("a", 64), b = sym_bits("b", 64), c = sym_bits("c", 64);
	sym_assume((a != b) & (b != c) & (a != c));
	auto h = s.make_lock(a);
	sym_assert(s.size() == 1 && s.copy().count(a) == 1 && !s.empty(), "a held key is not in the set");
	auto h2 = h;
	auto g = s.make_lock(b, false);
	sym_assert(s.size() == 1, "a lock made unlocked took the key");
	sym_assert(g.try_lock() && g.try_lock(), "a free key was refused");
	sym_assert(!s.try_lock(a) && !s.try_lock(b), "a held key was granted again");
	sym_assert(!s.try_lock(c), "the limit was exceeded");
	h.unlock(); h2.unlock();
	sym_assert(s.size() == 1 && s.copy().count(b) == 1, "a release freed another key, or none");
	sym_assert(s.try_lock(c), "a free key was refused");
	bool thrown = false;
	try { s.unlock(a); } catch (const std::exception &) { thrown = true; }
	sym_assert(thrown && s.size() == 2, "releasing a key nobody holds was accepted");
	s.unlock(c);
	{ auto t = s.make_lock(a); }
	sym_assert(s.size() == 1 && s.copy().count(b) == 1, "a destroyed handle did not release its key");
	g.unlock();
	sym_assert(s.empty(), "a released key is still held");
	sym_reach("seq");
}
int main() {
	if (sym_param("mode", 0)) { seq(); return 0; }
	int n = sym_param("n", 2), rounds = sym_param("rounds", 1);
	LS s;
	int m = sym_pick("max", 3);
	g_max = m < 2 ? m + 1 : 1000;
	if (m < 2) s.max_size(m + 1);
	uint64_t key[3];
	for (int i = 0; i < n; i++) { key[i] = sym_bits("key", 64); if (i && sym_concrete(key[i] == key[0])) sym_reach("same"); }
	int how = sym_pick("how", 3);
	std::vector<std::thread> th;
	sym_sched(sym_param("pre", 2));
	for (int i = 0; i < n; i++) th.emplace_back([&, i]() {
		for (int r = 0; r < rounds; r++) {
			if (how == 0) {
				s.lock(key[i]); take(i, key[i]); sym_yield(); drop(i); s.unlock(key[i]);
			} else if (how == 1) {
				auto h = s.make_lock(key[i]); take(i, key[i]); sym_yield(); drop(i);
			} else {
				if (s.try_lock(key[i])) { take(i, key[i]); sym_yield(); drop(i); s.unlock(key[i]); } else sym_reach("tryfail");
			}
		}
	});
	for (auto &t : th) t.join();
	sym_assert(s.empty(), "a released key is still held");
	if (g_max == 1) sym_reach("full");
}

// NATIVE: sched
// MODS: lib/multilock.cc lib/error.cc lib/string.cc
// JOB: three n=3 pre=2
// JOB: off n=2 pre=2 off=1
// THOROUGH: three3 n=3 pre=4 rounds=2
// THOROUGH: four n=4 pre=3
// REACH: shared waited both off
// BOUND: 3 threads (thorough 4), each one operation (thorough two) of one of two groups chosen freely, every interleaving with at most 2 (3..4) preemptions at locking points; locking disabled; handles copied before release
#include "sym.h"
#include "crucible/multilock.h"
#include <thread>
#include <vector>
using namespace crucible;
static int in[2];
static bool g_waited;
static void enter(int g) {
	const std::string name = g ? "b" : "a";
	auto h = MultiLocker::get_lock(name);
	sym_assert(!!h, "no lock was returned");
	in[g]++;
	sym_assert(!(in[0] && in[1]), "operations of two groups run at the same time");
	if (in[g] == 2) sym_reach("shared");
	sym_yield();
	auto h2 = h;
	h.reset();
	sym_yield();
	sym_assert(!(in[0] && in[1]), "operations of two groups run at the same time");
	in[g]--;
	h2.reset();
}
int main() {
	int n = sym_param("n", 3), rounds = sym_param("rounds", 1);
	if (sym_param("off", 0)) {
		MultiLocker::enable_locking(false);
		auto a = MultiLocker::get_lock("a");
		sym_sched(sym_param("pre", 2));
		std::thread o([&]() { auto b = MultiLocker::get_lock("b"); sym_yield(); });
		o.join();   // a deadlock here would mean the disabled lock still excludes
		auto b = MultiLocker::get_lock("b");
		sym_reach("off");
		return 0;
	}
	std::vector<std::thread> th;
	int g[4];
	bool two = false;
	for (int i = 0; i < n; i++) { g[i] = sym_pick("group", 2); if (g[i] != g[0]) two = true; }
	if (two) sym_reach("both");
	sym_sched(sym_param("pre", 2));
	for (int i = 0; i < n; i++) th.emplace_back([&, i]() { for (int r = 0; r < rounds; r++) enter(r ? !g[i] : g[i]); });
	for (auto &t : th) t.join();   // every waiter was admitted: otherwise the scheduler reports a deadlock
	{ auto h = MultiLocker::get_lock("a"); }
	{ auto h = MultiLocker::get_lock("b"); }
	sym_reach("waited");
}

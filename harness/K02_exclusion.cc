// NATIVE: sched
// MODS: lib/task.cc lib/error.cc lib/string.cc lib/time.cc
// JOB: two n=2 pre=2
// JOB: three n=3 pre=1
// THOROUGH: two4 n=2 pre=4
// THOROUGH: three2 n=3 pre=2
// REACH: refused granted all explicit
// BOUND: 2 or 3 tasks on two workers competing for one exclusion, released explicitly or by scope exit, before or after the owner does other work, every interleaving with at most 2 (4) or 1 (2) preemptions. The owner's task is not kept by anyone else once it has finished (as in the scanner, whose tasks are dropped when done).
#include "task_env.h"
int main() {
	int n = sym_param("n", 2);
	TaskMaster::set_thread_count(2);
	int how = sym_pick("release", 3);
	Exclusion ex;
	int holders = 0, got[3] = {0}, refused[3] = {0}, tries[3] = {0};
	J j[3];
	std::vector<J *> all;
	sym_sched(sym_param("pre", 1));
	std::vector<Task> ts;
	for (int i = 0; i < n; i++) {
		ts.push_back(Task("x", [&, i]() {
			tries[i]++;
			sym_assert(tries[i] < 20, "a refused task is run again while the exclusion is still held, without end");
			auto l = ex.try_lock(Task::current_task());
			if (!l) { refused[i]++; sym_reach("refused"); return; }
			holders++;
			sym_assert(holders == 1, "an exclusion has two holders");
			sym_yield();
			auto copy = l;
			if (how == 1) { l.release(); sym_yield(); sym_reach("explicit"); }
			holders--;
			if (how == 1) copy.release();
			else if (how == 2) { l = ExclusionLock(); copy = ExclusionLock(); sym_yield(); }
			got[i]++;
			sym_reach("granted");
			std::unique_lock<std::mutex> g(g_m); g_cv.notify_all();
		}));
	}
	for (auto &t : ts) t.run();
	ts.clear();
	std::unique_lock<std::mutex> g(g_m);
	while (true) {
		bool ok = true;
		for (int i = 0; i < n; i++) if (!got[i]) ok = false;   // a lost wake-up leaves every thread blocked
		if (ok) break;
		g_cv.wait(g);
	}
	for (int i = 0; i < n; i++) sym_assert(tries[i] == got[i] + refused[i], "bookkeeping");
	sym_reach("all");
	sym_stop();
}

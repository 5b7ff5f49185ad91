// NATIVE: sched
// MODS: lib/task.cc lib/error.cc lib/string.cc lib/time.cc
// JOB: seq4 steps=4 pre=0
// JOB: two mode=1 pre=2
// THOROUGH: seq5 steps=5 pre=0
// THOROUGH: two4 mode=1 pre=4
// REACH: ran attached2 raced
// BOUND: every sequence of 4 (5) attach, copy and release operations over three barrier handles and two tasks; two threads attaching and releasing copies with every interleaving of at most 2 (4) preemptions; one worker
#include "task_env.h"
static int g_handles;
static void seq() {
	J &a = *new J, &b = *new J; J *j[2] = { &a, &b };
	a.make("a"); b.make("b");
	bool attached[2] = { false, false };
	Barrier *h[3] = { new Barrier, 0, 0 };
	g_handles = 1;
	a.extra = b.extra = []() { sym_assert(g_handles == 0, "a task attached to a barrier ran while the barrier is held"); };
	int n = sym_param("steps", 4);
	for (int s = 0; s < n && g_handles; s++) {
		int op = sym_pick("op", 3), k = sym_pick("handle", 3);
		if (!h[k]) { if (op != 1) continue; }
		if (op == 0) { int t = sym_pick("task", 2); if (attached[t]) sym_reach("attached2"); attached[t] = true; h[k]->insert_task(j[t]->t); sched_yield(); }
		else if (op == 1) { int q = -1; for (int i = 0; i < 3; i++) if (h[i] && i != k) q = i; if (q < 0 || h[k]) continue; h[k] = new Barrier(*h[q]); g_handles++; }
		else {
			g_handles--;
			if (!g_handles) for (int t = 0; t < 2; t++) if (attached[t]) j[t]->req();
			if (sym_pick("how", 2)) { h[k]->release(); delete h[k]; } else delete h[k];
			h[k] = 0;
			sched_yield();
		}
	}
	if (g_handles) {
		g_handles = 0;
		for (int t = 0; t < 2; t++) if (attached[t]) j[t]->req();
		for (auto &x : h) { delete x; x = 0; }
	}
	wait_all({&a, &b});
	for (int t = 0; t < 2; t++) sym_assert(j[t]->runs == (attached[t] ? 1 : 0), "an attached task did not run exactly once");
	sym_reach("ran");
}
static void two() {
	J &a = *new J, &b = *new J;
	a.make("a"); b.make("b");
	Barrier *x = new Barrier;
	Barrier *y = new Barrier(*x);
	g_handles = 2;
	a.extra = b.extra = []() { sym_assert(g_handles == 0, "a task attached to a barrier ran while the barrier is held"); };
	std::thread o([&]() { b.req(); y->insert_task(b.t); sym_yield(); g_handles--; y->release(); });
	a.req(); x->insert_task(a.t);
	sym_yield();
	g_handles--; delete x;
	o.join();
	wait_all({&a, &b});
	sym_assert(a.runs == 1 && b.runs == 1, "an attached task did not run exactly once");
	sym_reach("raced");
}
int main() {
	TaskMaster::set_thread_count(1);
	sym_sched(sym_param("pre", 1));
	if (sym_param("mode", 0)) two(); else seq();
	sym_stop();
}

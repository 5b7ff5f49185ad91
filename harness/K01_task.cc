// NATIVE: sched
// MODS: lib/task.cc lib/error.cc lib/string.cc lib/time.cc
// JOB: steps3 steps=3 pre=1
// JOB: steps2 steps=2 pre=2
// JOB: self mode=1 pre=2
// JOB: threads mode=2 pre=1
// JOB: requesters mode=3 pre=2
// JOB: chain mode=4 pre=1
// JOB: leave mode=4 pre=2 leave=1
// THOROUGH: chain2 mode=4 pre=2
// THOROUGH: steps4 steps=4 pre=1
// THOROUGH: steps33 steps=3 pre=2
// THOROUGH: self3 mode=1 pre=3
// THOROUGH: threads2 mode=2 pre=2
// THOROUGH: requesters3 mode=3 pre=3
// REACH: done merged again selfdone resized requesters chained left
// BOUND: two workers and two tasks; every sequence of 3 (thorough 4) requests by run, idle, append and insert with at most 1 preemption, of 2 (3) with at most 2; a task that requests itself or throws; two concurrent requesters; three tasks appended or inserted to each other, the workers leaving meanwhile; changing the number of workers and pausing while tasks are queued. No task is appended to a task that is itself waiting for it.
#include "task_env.h"
static void steps() {
	J &a = *new J, &b = *new J;
	a.make("a"); b.make("b");
	a.throws = sym_pick("throws", 2);
	int n = sym_param("steps", 3);
	for (int s = 0; s < n; s++) {
		switch (sym_pick("op", 6)) {
			case 0: a.req(); a.t.run(); break;
			case 1: a.req(); a.t.idle(); break;
			case 2: b.req(); b.t.run(); break;
			case 3: b.req(); b.t.idle(); break;
			case 4: b.req(); a.t.append(b.t); break;
			default: b.req(); a.t.insert(b.t); break;
		}
	}
	// the requests must survive the requester dropping its handles
	a.t = Task(); b.t = Task();
	wait_all({&a, &b});
	if (a.runs + b.runs < a.reqs + b.reqs) sym_reach("merged");
	if (a.runs + b.runs == n && n > 1) sym_reach("again");
	sym_reach("done");
}
static void self() {
	J &a = *new J, &b = *new J;
	static int k, how; how = sym_pick("how", 5);
	a.throws = sym_pick("throws", 2);
	a.make("a"); b.make("b");
	Task bt = b.t;
	a.extra = [&a, &b, bt]() {
		if (k++) return;
		Task me = Task::current_task();
		a.req();
		if (how == 0) me.run();
		else if (how == 1) me.idle();
		else if (how == 2) { me.run(); b.req(); me.append(bt); }
		else if (how == 3) { b.req(); me.insert(bt); me.idle(); }
		else { me.idle(); me.run(); }
	};
	a.req(); a.t.run();
	b.req(); b.t.idle();
	if (sym_pick("more", 2)) { a.req(); a.t.run(); }
	a.t = Task(); b.t = Task();
	wait_all({&a, &b});
	sym_reach("selfdone");
}
static void threads() {
	J &a = *new J, &b = *new J, &c = *new J;
	a.make("a"); b.make("b"); c.make("c");
	a.req(); a.t.run();
	b.req(); a.t.append(b.t);
	c.req(); c.t.idle();
	int how = sym_pick("how", 4);
	if (how == 0) TaskMaster::set_thread_count(1);
	else if (how == 1) { TaskMaster::set_thread_count(0); sym_yield(); TaskMaster::set_thread_count(1); }
	else if (how == 2) { TaskMaster::pause(true); c.req(); c.t.run(); TaskMaster::pause(false); }
	else TaskMaster::set_thread_count(3);
	a.req(); a.t.run();
	a.t = Task(); b.t = Task(); c.t = Task();
	wait_all({&a, &b, &c});
	sym_reach("resized");
}
static void requesters() {
	J &a = *new J, &b = *new J;
	a.make("a"); b.make("b");
	static int k1, k2; k1 = sym_pick("k1", 3), k2 = sym_pick("k2", 3);
	auto go = [&](int k) { if (k == 0) { a.req(); a.t.run(); } else if (k == 1) { a.req(); a.t.idle(); } else { b.req(); a.t.append(b.t); } };
	std::thread o([&]() { go(k1); });
	go(k2);
	o.join();
	a.t = Task(); b.t = Task();
	wait_all({&a, &b});
	sym_reach("requesters");
}
static void chain() {
	J &a = *new J, &b = *new J, &c = *new J;
	a.make("a"); b.make("b"); c.make("c");
	bool leave = sym_param("leave", 0);
	int flat = leave || sym_pick("flat", 2);
	c.req(); if (!leave && sym_pick("c", 2)) (flat ? a : b).t.insert(c.t); else (flat ? a : b).t.append(c.t);
	b.req(); if (!leave && sym_pick("b", 2)) a.t.insert(b.t); else a.t.append(b.t);
	int how = leave ? 1 + sym_pick("how", 2) : sym_pick("how", 4);
	if (how != 3) { a.req(); a.t.run(); }
	a.t = Task(); b.t = Task(); c.t = Task();
	if (how) { sym_yield(); sym_reach("left"); }
	if (how == 1) { TaskMaster::set_thread_count(0); sym_yield(); TaskMaster::set_thread_count(1); }
	if (how == 2) { TaskMaster::pause(true); sym_yield(); TaskMaster::pause(false); }
	wait_all({&a, &b, &c});
	sym_reach("chained");
}
int main() {
	TaskMaster::set_thread_count(2);
	sym_sched(sym_param("pre", 1));
	switch (sym_param("mode", 0)) { case 1: self(); break; case 2: threads(); break; case 3: requesters(); break; case 4: chain(); break; default: steps(); }
	sym_stop();
}

// tasks that check their own execution: never two at once, and every request covered by a run that starts after it
#pragma once
#include "sym.h"
#include "crucible/task.h"
#include <thread>
#include <vector>
#include <condition_variable>
using namespace crucible;
extern "C" pid_t gettid() throw() { return 7; }
static std::mutex g_m; static std::condition_variable g_cv;
struct J {
	int reqs = 0, covered = 0, runs = 0; bool running = false, throws = false;
	Task t;
	std::function<void()> extra;
	void make(const char *name) {
		t = Task(name, [this]() {
			sym_assert(!running, "a task is executed by two workers at the same time");
			running = true; runs++;
			int seen = reqs;
			sym_yield();
			if (extra) extra();
			running = false;
			{ std::unique_lock<std::mutex> l(g_m); if (seen > covered) covered = seen; g_cv.notify_all(); }
			if (throws) throw std::runtime_error("x");
		});
	}
	void req() { reqs++; }
};
// blocks until every request is covered; a lost request leaves every thread blocked, which the scheduler reports
static void wait_all(std::vector<J *> js) {
	std::unique_lock<std::mutex> l(g_m);
	while (true) {
		bool ok = true;
		for (auto j : js) if (j->covered < j->reqs) ok = false;
		if (ok) return;
		g_cv.wait(l);
	}
}

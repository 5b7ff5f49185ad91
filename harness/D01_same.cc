// MODS: lib/fs.cc lib/bytevector.cc lib/error.cc lib/string.cc lib/fd.cc lib/path.cc
// JOB: main n=3
// THOROUGH: deep n=6
// REACH: done differs failed stalled multi unknown badlen
// BOUND: every pair of offsets and every length with ends below 2^63, every request count up to 3 (6) with any partial progress, any error number, any 32-bit status
// ASSUME: the kernel never reports more bytes done than were requested
#include "sym.h"
#include "crucible/fs.h"
#include "crucible/btrfs.h"
#include <errno.h>
#include <stdarg.h>
#include <stdexcept>
#include <system_error>
using namespace crucible;
static const int SRC = 31, DST = 42;
static uint64_t g_src, g_dst, g_len, g_done;
static int g_max, g_calls;
static enum { OK, DIFF, ERRNO, STATUS, UNKNOWN, STALL } g_out = OK;
static int g_err;
extern "C" int close(int) { return 0; }
extern "C" int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); auto a = (btrfs_ioctl_same_args *)va_arg(ap, void *); va_end(ap);
	sym_assert(req == BTRFS_IOC_FILE_EXTENT_SAME, "something other than a dedupe request is issued");
	sym_assert(g_out == OK, "the request is repeated after it failed");
	sym_assert(g_done < g_len, "more is requested after the range is complete");
	sym_assert(fd == SRC && a->dest_count == 1 && a->info[0].fd == DST, "source or destination file is wrong");
	sym_assert(a->reserved1 == 0 && a->reserved2 == 0 && a->info[0].reserved == 0, "reserved fields are not zero");
	sym_assert(a->logical_offset == g_src + g_done, "the request does not continue where the previous one ended");
	sym_assert(a->info[0].logical_offset == g_dst + g_done, "the request does not continue where the previous one ended");
	sym_assert(a->length > 0, "the request leaves the range");
	sym_assert(a->length <= g_len - g_done, "the request leaves the range");
	if (++g_calls > g_max) sym_stop();
	if (sym_pick("fails", 2)) { g_out = ERRNO; g_err = sym_range("errno", 1, 133); errno = g_err; return -1; }
	int32_t st = sym_bits("status", 32);
	uint64_t did = sym_range("did", 0, ~0ull >> 1);
	sym_assume(did <= a->length);
	a->info[0].status = st;
	a->info[0].bytes_deduped = did;
	if (st == 0) { if (did == 0) g_out = STALL; else g_done += did; }
	else if (st == BTRFS_SAME_DATA_DIFFERS) g_out = DIFF;
	else if (st < 0 && st > -134) { g_out = STATUS; g_err = -st; }
	else g_out = UNKNOWN;
	return 0;
}
int main() {
	g_max = sym_param("n", 3);
	g_src = sym_bits("src", 63); g_dst = sym_bits("dst", 63);
	int64_t len = sym_bits("len", 64);
	if (sym_concrete(len > 0)) { sym_assume(g_src <= (1ull << 63) - len); sym_assume(g_dst <= (1ull << 63) - len); }
	g_len = len;
	bool rv = false, threw = false;
	int code = 0;
	try { rv = btrfs_extent_same(SRC, g_src, len, DST, g_dst); }
	catch (const std::system_error &e) { threw = true; code = e.code().value(); }
	catch (const std::exception &) { threw = true; }
	if (sym_concrete(len <= 0)) {
		sym_assert(threw && !g_calls, "a request for an empty range is accepted");
		sym_reach("badlen");
		return 0;
	}
	if (g_calls > 1) sym_reach("multi");
	if (!threw && rv) { sym_assert(g_out == OK && g_done == g_len, "success is reported before every byte was accepted"); sym_reach("done"); return 0; }
	if (!threw) { sym_assert(g_out == DIFF, "a refusal is reported that the kernel did not give"); sym_reach("differs"); return 0; }
	sym_assert(g_out != OK && g_out != DIFF, "an error is raised although the kernel reported none");
	if (g_out == ERRNO || g_out == STATUS) { sym_assert(code == g_err, "the error raised is not the one the kernel reported"); sym_reach("failed"); }
	if (g_out == STALL) sym_reach("stalled");
	if (g_out == UNKNOWN) sym_reach("unknown");
}

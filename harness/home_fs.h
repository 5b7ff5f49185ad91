// Fake home directory: one directory with the state file and its temporary name, with page cache versus stable storage.
#pragma once
#include "sym.h"
#include <errno.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/utsname.h>
#ifndef HOME_FS_MAX
#define HOME_FS_MAX 640
#endif
static const int HOME = 3;
struct Ino { char data[HOME_FS_MAX]; int len, stable; bool isnew; };
static Ino I_[6];
static int g_nino = 0;
static int g_name[2] = { -1, -1 };            // 0: real, 1: temporary
struct Ofd { int ino, pos; bool open, wr; };
static Ofd O_[12];
static int g_nofd = 0;
static const char *g_real = "beescrawl.dat", *g_tmp = "beescrawl.dat.tmp";
static int (*g_fault)(const char *what) = nullptr;      // nonzero: errno to fail with
static int (*g_short)(int n) = nullptr;                 // how many of n bytes are transferred
static void (*g_instant)() = nullptr;
static bool g_btrfs = false;
static const char *g_release = "6.8.0-31-generic";
static int fault(const char *w) { if (g_instant) g_instant(); int e = g_fault ? g_fault(w) : 0; if (e) errno = e; return e; }
static int done() { if (g_instant) g_instant(); return 0; }
static int name_of(const char *n) { if (!strcmp(n, g_real)) return 0; if (!strcmp(n, g_tmp)) return 1; sym_fail("a file of another name is touched"); return 1; }
static Ofd *ofd(int fd) { sym_assert(fd >= 10 && fd < 10 + g_nofd && O_[fd - 10].open, "a descriptor that is not open is used"); return &O_[fd - 10]; }
extern "C" {
pid_t gettid() throw() { return 7; }
#ifndef HOME_FS_IOCTL
int ioctl(int, unsigned long, ...) { errno = ENOTTY; return -1; }
#endif
int openat64(int dir, const char *name, int flags, ...) {
	sym_assert(dir == HOME, "a file outside the home directory is opened");
	int n = name_of(name);
	if (fault("open")) return -1;
	if (g_name[n] < 0) {
		if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
		Ino &i = I_[g_nino];
		i.len = i.stable = 0; i.isnew = true;
		g_name[n] = g_nino++;
	} else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
	if (flags & O_TRUNC) I_[g_name[n]].len = I_[g_name[n]].stable = 0;
	O_[g_nofd] = Ofd { g_name[n], 0, true, (flags & O_ACCMODE) != O_RDONLY };
	done();
	return 10 + g_nofd++;
}
int unlinkat(int dir, const char *name, int) {
	sym_assert(dir == HOME, "a file outside the home directory is removed");
	int n = name_of(name);
	if (fault("unlink")) return -1;
	if (g_name[n] < 0) { errno = ENOENT; return -1; }
	g_name[n] = -1;
	return done();
}
int renameat(int d1, const char *a, int d2, const char *b) {
	sym_assert(d1 == HOME && d2 == HOME, "a file outside the home directory is renamed");
	int x = name_of(a), y = name_of(b);
	if (fault("rename")) return -1;
	if (g_name[x] < 0) { errno = ENOENT; return -1; }
	g_name[y] = g_name[x]; g_name[x] = -1;
	return done();
}
ssize_t write(int fd, const void *buf, size_t n) {
	Ofd *o = ofd(fd);
	sym_assert(o->wr, "a file opened for reading is written");
	if (fault("write")) return -1;
	if (g_short) n = g_short(n);
	Ino &i = I_[o->ino];
	sym_assert(o->pos + n <= sizeof i.data, "too much is written");
	memcpy(i.data + o->pos, buf, n);
	o->pos += n;
	if (o->pos > i.len) i.len = o->pos;
	i.stable = 0;
	done();
	return n;
}
ssize_t read(int fd, void *buf, size_t n) {
	Ofd *o = ofd(fd);
	if (fault("read")) return -1;
	Ino &i = I_[o->ino];
	if (n > (size_t)(i.len - o->pos)) n = i.len - o->pos;
	if (g_short && n) { n = g_short(n); }
	memcpy(buf, i.data + o->pos, n);
	o->pos += n;
	return n;
}
int ftruncate64(int fd, off64_t n) {
	Ofd *o = ofd(fd);
	if (fault("truncate")) return -1;
	Ino &i = I_[o->ino];
	sym_assert(n >= 0 && n <= (off64_t)sizeof i.data, "a state file is truncated to a strange size");
	for (int k = i.len; k < n; k++) i.data[k] = 0;
	i.len = n; i.stable = 0;
	return done();
}
int fsync(int fd) { Ofd *o = ofd(fd); if (fault("fsync")) return -1; I_[o->ino].stable = I_[o->ino].len; return done(); }
int fdatasync(int fd) { return fsync(fd); }
int fstatfs64(int fd, struct statfs64 *s) { ofd(fd); if (fault("statfs")) return -1; memset(s, 0, sizeof *s); s->f_type = g_btrfs ? 0x9123683E : 0xEF53; return 0; }
int fstat64(int fd, struct stat64 *st) { Ofd *o = ofd(fd); memset(st, 0, sizeof *st); if (fault("stat")) return -1; st->st_size = I_[o->ino].len; st->st_mode = S_IFREG; return 0; }
int close(int fd) { if (fd >= 10) { ofd(fd)->open = false; done(); } return 0; }
int uname(struct utsname *u) throw() { if (fault("uname")) return -1; memset(u, 0, sizeof *u); strcpy(u->release, g_release); return 0; }
}

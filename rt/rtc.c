// C library models for the symbolic executor
typedef unsigned long size_t; typedef long time_t; typedef int pid_t; typedef int clockid_t; typedef unsigned useconds_t;
struct timeval { long tv_sec, tv_usec; }; struct timespec { long tv_sec, tv_nsec; };
void *malloc(size_t); void *memcpy(void *, const void *, size_t);
int *__errno_location(void);
#define errno (*__errno_location())
#define ERANGE 34
// ------------------------------------------------------------------ libc
static __thread int t_errno;
int *__errno_location(void) { return &t_errno; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return 0; }
char *strdup(const char *s) { size_t n = strlen(s); char *p = (char *)malloc(n + 1); memcpy(p, s, n + 1); return p; }
const char *__strerror_stub = "error";
char *strerror(int e) { return (char *)__strerror_stub; }
static unsigned digit(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
unsigned long long strtoull(const char *s, char **e, int base) {
	const char *p = s;
	while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
	int neg = 0;
	if (*p == '+') p++; else if (*p == '-') { neg = 1; p++; }
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digit(p[2]) < 16) { p += 2; base = 16; }
	else if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long long v = 0; int any = 0, ov = 0;
	while (digit(*p) < (unsigned)base) {
		unsigned d = digit(*p);
		if (v > (~0ull - d) / base) ov = 1; else v = v * base + d;
		any = 1; p++;
	}
	if (e) *e = (char *)(any ? p : s);
	if (ov) { errno = ERANGE; return ~0ull; }
	return neg ? -v : v;
}
unsigned long strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long long strtoll(const char *s, char **e, int b) { return (long long)strtoull(s, e, b); }
long strtol(const char *s, char **e, int b) { return (long)strtoull(s, e, b); }
int __isoc23_dummy;
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return (long long)strtoull(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return (long)strtoull(s, e, b); }
__attribute__((weak)) pid_t getpid(void) { return 4242; }
__attribute__((weak)) time_t time(time_t *t) { if (t) *t = 1000000; return 1000000; }
__attribute__((weak)) int gettimeofday(struct timeval *t, void *z) { t->tv_sec = 1000000; t->tv_usec = 0; return 0; }
__attribute__((weak)) int clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = 1000000; t->tv_nsec = 0; return 0; }
__attribute__((weak)) int nanosleep(const struct timespec *a, struct timespec *b) { return 0; }
__attribute__((weak)) int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { return 0; }
__attribute__((weak)) unsigned int sleep(unsigned x) { return 0; }
__attribute__((weak)) int usleep(useconds_t x) { return 0; }
__attribute__((weak)) long syscall(long n, ...) { return 4242; }
int be_thread_self(void);
__attribute__((weak)) pid_t gettid(void) { return 4242 + be_thread_self(); }

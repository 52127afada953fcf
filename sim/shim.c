/* LD_PRELOAD seam for the operating system's clock and entropy.
 * Off (pass-through to the kernel) until the simulator switches it on inside a run. */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/random.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <sys/syscall.h>
static int clk_on; static int64_t clk_ns, clk_tick; static long clk_reads; static int64_t clk_mono;
static int rnd_on, rnd_fail; static uint64_t rnd_s; static long rnd_reads;
void sim_clock(int on, int64_t ns, int64_t tick) { clk_on = on; clk_ns = ns; clk_tick = tick; if (!on) clk_mono = 0; }
int64_t sim_clock_now(void) { return clk_ns; }
long sim_clock_reads(void) { return clk_reads; }
void sim_rand(int on, uint64_t seed) { rnd_on = on; rnd_s = seed; }
uint64_t sim_rand_state(void) { return rnd_s; }
void sim_rand_fail(int err) { rnd_fail = err; }
long sim_rand_reads(void) { return rnd_reads; }
static int64_t rd(void) { clk_reads++; int64_t v = clk_ns; clk_ns += clk_tick; return v; }
int clock_gettime(clockid_t c, struct timespec *t) {
  if (clk_on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
    int64_t v = rd(); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
    if (t->tv_nsec < 0) { t->tv_nsec += 1000000000; t->tv_sec--; }
    return 0; }
  if (clk_on && (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME)) {
    clk_mono += 1000; t->tv_sec = 1000 + clk_mono / 1000000000; t->tv_nsec = clk_mono % 1000000000; return 0; }
  return syscall(SYS_clock_gettime, c, t);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  struct timespec t; int r = clock_gettime(CLOCK_REALTIME, &t);
  if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; } (void)tz; return r;
}
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
static uint64_t nxt(void) { /* splitmix64 */
  uint64_t z = (rnd_s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static void fill(void *b, size_t n) { rnd_reads++; uint8_t *p = b; while (n) { uint64_t v = nxt(); size_t k = n < 8 ? n : 8; memcpy(p, &v, k); p += k; n -= k; } }
ssize_t getrandom(void *b, size_t n, unsigned f) { if (!rnd_on) return syscall(SYS_getrandom, b, n, f); if (rnd_fail) { rnd_reads++; errno = rnd_fail; return -1; } fill(b, n); return n; }
int getentropy(void *b, size_t n) { if (n > 256) { errno = EIO; return -1; } if (!rnd_on) { return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1; } if (rnd_fail) { rnd_reads++; errno = rnd_fail; return -1; } fill(b, n); return 0; }

/* Files under chosen prefixes: replaced contents, error codes, failing and short calls. */
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <dlfcn.h>
enum { NP = 8, NF = 512 };
static int fs_on; static char *fs_pre[NP]; static int fs_npre;
static struct { char *path; int err; void *data; long len; } fs_f[NF]; static int fs_nf;
static struct { int kind; long nth; int err; } fs_x[16]; static int fs_nx;
static long fs_ops[4], fs_fired, fs_short; static unsigned char fs_fd[4096];
void sim_fs_reset(void) { fs_on = 0; fs_npre = 0; for (int i = 0; i < fs_nf; i++) { free(fs_f[i].path); free(fs_f[i].data); } fs_nf = 0; fs_nx = 0; fs_short = 0; fs_fired = 0; memset(fs_ops, 0, sizeof fs_ops); }
void sim_fs_on(int on) { fs_on = on; }
void sim_fs_prefix(const char *p) { if (fs_npre < NP) fs_pre[fs_npre++] = strdup(p); }
void sim_fs_file(const char *p, int err, const void *d, long n) { if (fs_nf == NF) return; fs_f[fs_nf].path = strdup(p); fs_f[fs_nf].err = err; fs_f[fs_nf].len = n;
  fs_f[fs_nf].data = NULL; if (n >= 0) { fs_f[fs_nf].data = malloc(n + 1); memcpy(fs_f[fs_nf].data, d, n); } fs_nf++; }
void sim_fs_fail(int kind, long nth, int err) { if (fs_nx < 16) { fs_x[fs_nx].kind = kind; fs_x[fs_nx].nth = nth; fs_x[fs_nx].err = err; fs_nx++; } }
void sim_fs_short(long n) { fs_short = n; }
long sim_fs_count(int kind) { return fs_ops[kind]; }
long sim_fs_fired(void) { return fs_fired; }
static int fs_match(const char *p) { if (!fs_on || !p) return 0; for (int i = 0; i < fs_npre; i++) if (!strncmp(p, fs_pre[i], strlen(fs_pre[i]))) return 1; return 0; }
static int fs_find(const char *p) { for (int i = 0; i < fs_nf; i++) if (!strcmp(p, fs_f[i].path)) return i; return -1; }
/* kind: 1 open, 2 stat, 3 read; ops[0] counts all of them */
static int fs_tick(int kind) { fs_ops[0]++; fs_ops[kind]++;
  for (int i = 0; i < fs_nx; i++) if (fs_ops[fs_x[i].kind] == fs_x[i].nth && (!fs_x[i].kind || fs_x[i].kind == kind)) { fs_fired++; errno = fs_x[i].err; return -1; } return 0; }
static int real_openat(int d, const char *p, int f, int m) { return syscall(SYS_openat, d, p, f, m); }
static int fs_openat(int d, const char *p, int f, int m) {
  if (!fs_match(p)) return real_openat(d, p, f, m);
  if (fs_tick(1)) return -1;
  int i = fs_find(p), fd;
  if (i >= 0) { fs_fired++;
    if (fs_f[i].err) { errno = fs_f[i].err; return -1; }
    fd = memfd_create("sim", MFD_CLOEXEC); if (fd < 0) return -1;
    for (long o = 0; o < fs_f[i].len;) { long k = syscall(SYS_write, fd, (char *)fs_f[i].data + o, fs_f[i].len - o); if (k <= 0) break; o += k; }
    lseek(fd, 0, SEEK_SET);
  } else fd = real_openat(d, p, f, m);
  if (fd >= 0 && fd < 4096) fs_fd[fd] = 1;
  return fd; }
#define MODE int m = 0; if (f & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); }
int open(const char *p, int f, ...) { MODE return fs_openat(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { MODE return fs_openat(AT_FDCWD, p, f | O_LARGEFILE, m); }
int openat(int d, const char *p, int f, ...) { MODE return fs_openat(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE return fs_openat(d, p, f | O_LARGEFILE, m); }
int __open_2(const char *p, int f) { return fs_openat(AT_FDCWD, p, f, 0); }
int __open64_2(const char *p, int f) { return fs_openat(AT_FDCWD, p, f | O_LARGEFILE, 0); }
static int fs_stat(int d, const char *p, struct stat *s, int fl) {
  if (!fs_match(p)) return syscall(SYS_newfstatat, d, p, s, fl);
  if (fs_tick(2)) return -1;
  int i = fs_find(p);
  if (i >= 0 && (fs_f[i].err == ENOENT || fs_f[i].err == ENOTDIR || fs_f[i].err == ESTALE || fs_f[i].err == ELOOP)) { fs_fired++; errno = fs_f[i].err; return -1; }
  int r = syscall(SYS_newfstatat, d, p, s, fl);
  if (!r && i >= 0 && fs_f[i].len >= 0) s->st_size = fs_f[i].len;
  return r; }
int stat(const char *restrict p, struct stat *restrict s) { return fs_stat(AT_FDCWD, p, s, 0); }
int stat64(const char *restrict p, struct stat64 *restrict s) { return fs_stat(AT_FDCWD, p, (struct stat *)s, 0); }
int lstat(const char *restrict p, struct stat *restrict s) { return fs_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *restrict p, struct stat64 *restrict s) { return fs_stat(AT_FDCWD, p, (struct stat *)s, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *restrict p, struct stat *restrict s, int fl) { return fs_stat(d, p, s, fl); }
int fstatat64(int d, const char *restrict p, struct stat64 *restrict s, int fl) { return fs_stat(d, p, (struct stat *)s, fl); }
int access(const char *p, int m) { if (fs_match(p)) { if (fs_tick(2)) return -1; int i = fs_find(p); if (i >= 0 && fs_f[i].err) { errno = fs_f[i].err; return -1; } } return syscall(SYS_faccessat, AT_FDCWD, p, m); }
ssize_t read(int fd, void *b, size_t n) {
  if (fs_on && fd >= 0 && fd < 4096 && fs_fd[fd]) { if (fs_tick(3)) return -1; if (fs_short > 0 && n > (size_t)fs_short) n = fs_short; }
  return syscall(SYS_read, fd, b, n); }
int close(int fd) { if (fd >= 0 && fd < 4096) fs_fd[fd] = 0; return syscall(SYS_close, fd); }

// Linked into the tools: counts their file operations below VERIF_FAULT_DIR and
// makes one of them fail (or ends the process there).
//   VERIF_FAULT_N     number of the operation, -1: none
//   VERIF_FAULT_KIND  fail | short | kill
//   VERIF_FAULT_LOG   file which gets one letter per operation
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
namespace {
const char* dir;
long target = -1, count;
char kind;
int logFd = -1;
bool ready, mine[1024];
void init() {
  if (ready || !environ) return;  // too early
  ready = true;
  dir = getenv("VERIF_FAULT_DIR");
  if (auto n = getenv("VERIF_FAULT_N")) target = atol(n);
  if (auto k = getenv("VERIF_FAULT_KIND")) kind = k[0];
  if (auto l = getenv("VERIF_FAULT_LOG")) logFd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_TRUNC, 0600);
}
bool below(const char* p) { init(); return dir && p && (*p != '/' || strncmp(p, dir, strlen(dir)) == 0); }
bool own(int fd) { init(); return fd >= 0 && fd < 1024 && mine[fd]; }
// is this the operation which fails
bool hit(char what) {
  if (logFd >= 0) syscall(SYS_write, logFd, &what, 1);
  bool r = count++ == target;
  if (r && kind == 'k') syscall(SYS_exit_group, 77);
  return r;
}
bool fails(char what, int e) {
  if (!hit(what) || kind == 's') return false;
  errno = e;
  return true;
}
}  // namespace
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
extern "C" {
static int opened(int fd, bool b) { if (fd >= 0 && fd < 1024) mine[fd] = b; return fd; }
int open(const char* p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = fl & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0;
  va_end(ap);
  bool b = below(p);
  if (b && fails('o', fl & O_CREAT ? ENOSPC : EACCES)) return -1;
  return opened((int)syscall(SYS_openat, AT_FDCWD, p, fl, mode), b);
}
int open64(const char* p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = fl & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0;
  va_end(ap);
  return open(p, fl | O_LARGEFILE, mode);
}
FILE* fopen(const char* p, const char* m) {
  REAL(fopen);
  bool b = below(p);
  if (b && fails('o', ENOSPC)) return nullptr;
  FILE* f = real(p, m);
  if (f) opened(fileno(f), b);
  return f;
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int close(int fd) { init(); if (fd >= 0 && fd < 1024) mine[fd] = false; return (int)syscall(SYS_close, fd); }
ssize_t write(int fd, const void* p, size_t n) {
  if (own(fd) && n) {
    if (hit('w')) {
      if (kind != 's' || n < 2) { errno = ENOSPC; return -1; }
      n /= 2;
    }
  }
  return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
  if (own(fd) && fails('w', ENOSPC)) return -1;
  return syscall(SYS_writev, fd, v, n);
}
ssize_t read(int fd, void* p, size_t n) {
  if (own(fd) && fails('r', EIO)) return -1;
  return syscall(SYS_read, fd, p, n);
}
off_t lseek(int fd, off_t o, int w) {
  if (own(fd) && fails('l', EINVAL)) return -1;
  return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int ftruncate(int fd, off_t n) {
  if (own(fd) && fails('t', ENOSPC)) return -1;
  return (int)syscall(SYS_ftruncate, fd, n);
}
int rename(const char* a, const char* b) {
  if (below(a) && fails('R', EXDEV)) return -1;
  return (int)syscall(SYS_rename, a, b);
}
int fsync(int fd) {
  if (own(fd) && fails('f', EIO)) return -1;
  return (int)syscall(SYS_fsync, fd);
}
int stat(const char* p, struct stat* s) {
  REAL(stat);
  if (below(p) && fails('s', EACCES)) return -1;
  return real(p, s);
}
void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) {
  if (own(fd) && fails('m', ENOMEM)) return MAP_FAILED;
  long r = syscall(SYS_mmap, a, n, pr, fl, fd, o);
  return (void*)r;
}
void* mmap64(void* a, size_t n, int pr, int fl, int fd, off64_t o) { return mmap(a, n, pr, fl, fd, o); }
// models contain the time
int clock_gettime(clockid_t c, struct timespec* t) {
  if (c == CLOCK_REALTIME) { t->tv_sec = 1500000000; t->tv_nsec = 0; return 0; }
  return (int)syscall(SYS_clock_gettime, c, t);
}
int msync(void* a, size_t n, int f) {
  init();
  if (dir && fails('y', EIO)) return -1;
  return (int)syscall(SYS_msync, a, n, f);
}
}

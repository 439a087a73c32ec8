// LD_PRELOAD library: the time of day is the one in the file CLOCK_FILE (seconds since 1970, 8 bytes, read at every call).
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile int64_t *now;
__attribute__((constructor)) static void setup(void) {
  const char *s = getenv("CLOCK_FILE");
  if (!s) return;
  int fd = open(s, O_RDONLY | O_CLOEXEC);
  void *p = fd < 0 ? MAP_FAILED : mmap(0, sizeof *now, PROT_READ, MAP_SHARED, fd, 0);
  if (p == MAP_FAILED) _exit(99);
  close(fd);
  now = p;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!now || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)) return syscall(SYS_clock_gettime, c, t);
  t->tv_sec = *now;
  t->tv_nsec = 123456789;
  return 0;
}
int gettimeofday(struct timeval *t, void *z) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t) { t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; }
  return 0;
}
time_t time(time_t *t) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t) *t = s.tv_sec;
  return s.tv_sec;
}

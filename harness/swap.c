/* Preloaded into the vcdiff program: when the file SWAP_PATH is opened for reading, it first gets the contents of
   SWAP_FROM, and the file SWAP_MARK appears. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static int done;
static void swap_in(const char* path) {
  const char* p = getenv("SWAP_PATH");
  if (done || !p || strcmp(p, path)) return;
  done = 1;
  int (*o)(const char*, int, ...) = dlsym(RTLD_NEXT, "open");
  int a = o(getenv("SWAP_FROM"), O_RDONLY), b = o(p, O_WRONLY | O_TRUNC), c;
  if (a < 0 || b < 0) return;
  char buf[65536];
  ssize_t n;
  while ((n = read(a, buf, sizeof buf)) > 0)
    if (write(b, buf, n) != n) return;
  close(a);
  close(b);
  c = o(getenv("SWAP_MARK"), O_WRONLY | O_CREAT, 0600);
  if (c >= 0) close(c);
}
#define FOPEN(name) \
  FILE* name(const char* path, const char* mode) { \
    FILE* (*f)(const char*, const char*) = dlsym(RTLD_NEXT, #name); \
    if (mode[0] == 'r') swap_in(path); \
    return f(path, mode); \
  }
FOPEN(fopen)
FOPEN(fopen64)
#define OPEN(name) \
  int name(const char* path, int flags, ...) { \
    int (*f)(const char*, int, ...) = dlsym(RTLD_NEXT, #name); \
    va_list l; \
    va_start(l, flags); \
    int m = (flags & O_CREAT) ? va_arg(l, int) : 0; \
    va_end(l); \
    if ((flags & O_ACCMODE) == O_RDONLY) swap_in(path); \
    return f(path, flags, m); \
  }
OPEN(open)
OPEN(open64)

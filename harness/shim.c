/* Preloaded into the vcdiff executable by the C13/C14 checks: one chosen file
 * is read in small pieces, ends early or fails at a chosen offset, runs out of space at a
 * chosen offset, or has other contents when it is opened again.
 * VERIF_SHIM = kind:number:count:path   VERIF_SHIM_SWAP = file
 * VERIF_SHIM_MARK = file created when the fault has been delivered. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

struct ck { int fd; char kind; long n; off64_t pos; };

static void mark(void) {
  const char* m = getenv("VERIF_SHIM_MARK");
  int e = errno;
  if (m) { int fd = open(m, O_WRONLY | O_CREAT, 0600); if (fd >= 0) close(fd); }
  errno = e;
}
static ssize_t ck_read(void* p, char* b, size_t n) {
  struct ck* c = p;
  if (c->kind == 'r') {
    if (c->pos >= c->n) { mark(); errno = EIO; return -1; }
    if ((off64_t)n > c->n - c->pos) n = (size_t)(c->n - c->pos);
  } else if (c->kind == 'e') {
    if (c->pos >= c->n) { mark(); return 0; }
    if ((off64_t)n > c->n - c->pos) n = (size_t)(c->n - c->pos);
  } else if (c->kind == 's') {
    if ((long)n > c->n) { n = (size_t)c->n; mark(); }
  }
  ssize_t k = read(c->fd, b, n);
  if (k > 0) c->pos += k;
  return k;
}
static ssize_t ck_write(void* p, const char* b, size_t n) {
  struct ck* c = p;
  size_t room = c->pos >= c->n ? 0 : (size_t)(c->n - c->pos), done = 0;
  while (done < n && done < room) {
    ssize_t k = write(c->fd, b + done, (n < room ? n : room) - done);
    if (k <= 0) break;
    done += (size_t)k;
  }
  c->pos += (off64_t)done;
  if (done < n) { mark(); errno = ENOSPC; }
  return (ssize_t)done;
}
static int ck_seek(void* p, off64_t* o, int w) {
  struct ck* c = p;
  off64_t r = lseek64(c->fd, *o, w);
  if (r < 0) return -1;
  c->pos = *o = r;
  return 0;
}
static int ck_close(void* p) {
  struct ck* c = p;
  int r = close(c->fd);
  free(c);
  return r;
}

static FILE* open_it(const char* name, const char* path, const char* mode) {
  static int reads;
  FILE* (*real)(const char*, const char*) = (FILE * (*)(const char*, const char*))dlsym(RTLD_NEXT, name);
  const char* s = getenv("VERIF_SHIM");
  char kind;
  long n;
  int count, at = 0;
  if (!s || sscanf(s, "%c:%ld:%d:%n", &kind, &n, &count, &at) < 3 || !at || strcmp(s + at, path) != 0) return real(path, mode);
  const int rd = mode[0] == 'r' && !strchr(mode, '+'), wr = mode[0] == 'w' && !strchr(mode, '+');
  if (rd && (kind == 'r' || kind == 'e' || kind == 's' || kind == 'x')) {
    if (++reads < count) return real(path, mode);
    if (kind == 'x') {
      const char* w = getenv("VERIF_SHIM_SWAP");
      FILE* f = w ? real(w, mode) : NULL;
      if (f) mark();
      return f ? f : real(path, mode);
    }
    int fd = open(path, O_RDONLY | O_CLOEXEC);
    if (fd < 0) return NULL;
    struct ck* c = calloc(1, sizeof *c);
    c->fd = fd; c->kind = kind; c->n = n;
    cookie_io_functions_t io = {ck_read, NULL, ck_seek, ck_close};
    return fopencookie(c, mode, io);
  }
  if (wr && kind == 'w') {
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    if (fd < 0) return NULL;
    struct ck* c = calloc(1, sizeof *c);
    c->fd = fd; c->kind = kind; c->n = n;
    cookie_io_functions_t io = {NULL, ck_write, ck_seek, ck_close};
    return fopencookie(c, mode, io);
  }
  return real(path, mode);
}
FILE* fopen(const char* path, const char* mode) { return open_it("fopen", path, mode); }
FILE* fopen64(const char* path, const char* mode) { return open_it("fopen64", path, mode); }

/* A stand-in for malloc whose addresses follow a chosen pattern: LAYOUT=up, down
 * or fan (alternately below and above everything so far).  Nothing is given back,
 * so the pattern is exact. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <sys/mman.h>

static char *lo, *hi;
static int mode = -1, turn;
enum { UP, DOWN, FAN };
#define SPACE ((size_t)1 << 36)

extern char **environ;

static void start(void) {
  mode = UP;
  for (char **e = environ; e && *e; ++e) {
    if (!strcmp(*e, "LAYOUT=down")) mode = DOWN;
    if (!strcmp(*e, "LAYOUT=fan")) mode = FAN;
  }
  char *base = mmap(0, SPACE, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base == MAP_FAILED) abort();
  lo = hi = mode == UP ? base : mode == DOWN ? base + SPACE : base + SPACE / 2;
}

static void *take(size_t align, size_t n) {
  if (mode < 0) start();
  if (align < 16) align = 16;
  if (!n) n = 1;
  int down = mode == DOWN;
  if (mode == FAN) down = turn ^= 1;
  char *user;
  if (down) {
    user = (char *)((uintptr_t)(lo - n) & ~(uintptr_t)(align - 1));
    lo = user - 16;
  } else {
    user = (char *)(((uintptr_t)hi + 16 + align - 1) & ~(uintptr_t)(align - 1));
    hi = user + n;
  }
  ((size_t *)user)[-1] = n;
  return user;
}

void *malloc(size_t n) { return take(16, n); }
void free(void *p) { (void)p; }
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return 0;
  return take(16, n);   /* Never used before: zero. */
}
void *realloc(void *p, size_t n) {
  if (!p) return take(16, n);
  size_t old = ((size_t *)p)[-1];
  if (n <= old) return p;
  void *q = take(16, n);
  memcpy(q, p, old);
  return q;
}
int posix_memalign(void **r, size_t a, size_t n) { *r = take(a, n); return 0; }
void *aligned_alloc(size_t a, size_t n) { return take(a, n); }
void *memalign(size_t a, size_t n) { return take(a, n); }
void *valloc(size_t n) { return take(4096, n); }
void *pvalloc(size_t n) { return take(4096, n); }
size_t malloc_usable_size(void *p) { return p ? ((size_t *)p)[-1] : 0; }

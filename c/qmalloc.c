// A checking allocator, preloaded for the C API checks: freed memory is filled,
// kept aside for a while and verified, every block carries a guard at its end,
// and freeing anything that is not a live block ends the process.
#include <errno.h>
#include <stdatomic.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>

void *__libc_malloc(size_t);
void __libc_free(void *);

typedef struct {
  uint64_t magic;
  void *base;
  size_t size;
  uint64_t pad;
} Head;

#define LIVE 0x4c4956454c495645ull
#define DEAD 0x4445414444454144ull
#define GUARD 16
#define RING 65536
#define KEEP (48u << 20)

static atomic_flag lock = ATOMIC_FLAG_INIT;
static Head *ring[RING];
static unsigned first, count;
static size_t kept;

static void die(const char *m) {
  (void)!write(2, m, strlen(m));
  *(volatile int *)0 = 0;
  __builtin_trap();
}
static void take(void) { while (atomic_flag_test_and_set_explicit(&lock, memory_order_acquire)) {} }
static void give(void) { atomic_flag_clear_explicit(&lock, memory_order_release); }

static void *get(size_t n, size_t al) {
  if (n > PTRDIFF_MAX / 2) { errno = ENOMEM; return 0; }
  if (al < 16) al = 16;
  char *b = __libc_malloc(n + al + sizeof(Head) + GUARD);
  if (!b) return 0;
  char *p = (char *)(((uintptr_t)b + sizeof(Head) + al - 1) & ~(uintptr_t)(al - 1));
  Head *h = (Head *)p - 1;
  h->magic = LIVE;
  h->base = b;
  h->size = n;
  memset(p, 0xc7, n < 4096 ? n : 4096);
  memset(p + n, 0xe9, GUARD);
  return p;
}

static void release(Head *h) {
  unsigned char *p = (unsigned char *)(h + 1);
  size_t m = h->size < 4096 ? h->size : 4096;
  if (h->magic != DEAD) die("written after free\n");
  for (size_t i = 0; i < m; ++i)
    if (p[i] != 0xa5) die("written after free\n");
  h->magic = 0;
  __libc_free(h->base);
}

void free(void *p) {
  if (!p) return;
  Head *h = (Head *)p - 1;
  take();
  if (h->magic != LIVE) die(h->magic == DEAD ? "freed twice\n" : "freed, but never allocated\n");
  for (int i = 0; i < GUARD; ++i)
    if (((unsigned char *)p)[h->size + i] != 0xe9) die("written past the end\n");
  h->magic = DEAD;
  memset(p, 0xa5, h->size < 4096 ? h->size : 4096);
  if (h->size > 4096) {
    h->magic = 0;
    __libc_free(h->base);
  } else {
    while (count == RING || (count && kept > KEEP)) {
      Head *o = ring[first];
      first = (first + 1) % RING;
      --count;
      kept -= o->size;
      release(o);
    }
    ring[(first + count++) % RING] = h;
    kept += h->size;
  }
  give();
}

void *malloc(size_t n) { return get(n, 16); }
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
  void *p = get(n, 16);
  if (p) memset(p, 0, n);
  return p;
}
void *realloc(void *p, size_t n) {
  if (!p) return get(n, 16);
  Head *h = (Head *)p - 1;
  if (h->magic != LIVE) die("reallocated, but not live\n");
  void *q = get(n, 16);
  if (!q) return 0;
  memcpy(q, p, h->size < n ? h->size : n);
  free(p);
  return q;
}
int posix_memalign(void **r, size_t al, size_t n) {
  void *p = get(n, al);
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
void *aligned_alloc(size_t al, size_t n) { return get(n, al); }
void *memalign(size_t al, size_t n) { return get(n, al); }
size_t malloc_usable_size(void *p) { return p ? ((Head *)p - 1)->size : 0; }

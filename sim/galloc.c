#include "galloc.h"
#include <sys/mman.h>
#define SLOTS 320
#define SLOTSZ (32u << 20)
static struct { uint8_t *base; uint8_t *p; size_t n, gap; int state; size_t used; } s[SLOTS]; /* state 0 free, 1 live, 2 freed */
static uint32_t g_junk; static int g_next, g_hand;

static void prep(int i)
{
  if (s[i].base) return;
  uint8_t *r = mmap(NULL, SLOTSZ + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (r == MAP_FAILED) { fprintf(stderr, "HARNESS: mmap\n"); exit(2); }
  s[i].base = r + 4096; 
}
void ga_reset(uint32_t junkSeed)
{
  for (int i = 0; i < SLOTS; i++) if (s[i].state)
  {
    size_t u = (s[i].used + 4095) & ~(size_t)4095; madvise(s[i].base + SLOTSZ - u, u, MADV_DONTNEED);
    mprotect(s[i].base + SLOTSZ - u, u, PROT_NONE); s[i].state = 0; s[i].used = 0;
  }
  g_junk = junkSeed; g_next = 0; g_hand = 0;
}
void *ga_alloc(size_t n, size_t align)
{
  if (align < 16) align = 16;
  if (n > SLOTSZ - 8192) return NULL;
  int i;
  if (g_next < SLOTS) i = g_next++;
  else
  { /* use the slots of freed blocks again, the next one after the last used each time */
    int k; for (k = 0; k < SLOTS && s[g_hand = (g_hand + 1) % SLOTS].state != 2; k++) {}
    if (k == SLOTS) { fprintf(stderr, "HARNESS: too many live allocations\n"); exit(2); }
    i = g_hand; size_t o = (s[i].used + 4095) & ~(size_t)4095; madvise(s[i].base + SLOTSZ - o, o, MADV_DONTNEED);
  }
  prep(i);
  size_t r = (n + align - 1) & ~(align - 1); if (r == 0) r = align;
  if (align == 16 && (g_junk >> (i % 12) & 1)) r += 16; /* malloc promises no more than 16 */
  size_t u = (r + 4095) & ~(size_t)4095;
  mprotect(s[i].base + SLOTSZ - u, u, PROT_READ | PROT_WRITE);
  s[i].p = s[i].base + SLOTSZ - r; s[i].n = n; s[i].gap = r - n; s[i].state = 1; s[i].used = r;
  prng_t g = { g_junk * 77ULL + (uint64_t)i }; size_t head = n < 32768 ? n : 32768;
  for (size_t k = 0; k + 8 <= head; k += 8) { uint64_t v = prng_next(&g); memcpy(s[i].p + k, &v, 8); memcpy(s[i].p + n - 8 - k, &v, 8); }
  memset(s[i].p + n, 0xC7, s[i].gap);
  return s[i].p;
}
static int find(const void *p) { for (int i = 0; i < g_next; i++) if (s[i].p == p && s[i].state) return i; return -1; }
void ga_check(void)
{
  for (int i = 0; i < g_next; i++) if (s[i].state == 1) for (size_t k = 0; k < s[i].gap; k++) if (s[i].p[s[i].n + k] != 0xC7) violation("heap-write-outside", "a byte behind a %zu byte allocation was written (%s)", s[i].n, g_op);
}
void ga_free(void *p)
{
  int i = find(p);
  if (i < 0) violation("heap-wild-free", "memory that was never allocated is freed (%s)", g_op);
  if (s[i].state == 2) violation("heap-double-free", "a %zu byte allocation is freed twice (%s)", s[i].n, g_op);
  for (size_t k = 0; k < s[i].gap; k++) if (s[i].p[s[i].n + k] != 0xC7) violation("heap-write-outside", "a byte behind a %zu byte allocation was written (%s)", s[i].n, g_op);
  s[i].state = 2; size_t u = (s[i].used + 4095) & ~(size_t)4095; mprotect(s[i].base + SLOTSZ - u, u, PROT_NONE);
}
size_t ga_size(void *p) { int i = find(p); return i < 0 ? 0 : s[i].n; }
int ga_live(void) { int n = 0; for (int i = 0; i < g_next; i++) n += s[i].state == 1; return n; }
size_t ga_room(const void *p, size_t *pAvail)
{
  for (int i = 0; i < g_next; i++) if (s[i].state == 1 && (const uint8_t *)p >= s[i].p && (const uint8_t *)p <= s[i].p + s[i].n) { *pAvail = (size_t)(s[i].p + s[i].n - (const uint8_t *)p); return 1; }
  return 0;
}

#define _GNU_SOURCE
#include "wraps.h"
#include "nodes.h"
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <pthread.h>
#include <unistd.h>
#include <malloc.h>
#include <threads.h>

env_t *g_env;
uint64_t g_envCalls;
#define E(f) (g_env && g_env->f)

static void *do_alloc(size_t n, size_t al)
{
  g_envCalls++;
  if (E(fail_alloc) && g_env->fail_alloc(n)) { errno = ENOMEM; return NULL; }
  if (E(alloc)) return g_env->alloc(n, al);
  if (al <= 16) return malloc(n);
  void *p = NULL; if (posix_memalign(&p, al, n ? n : 1)) return NULL; return p;
}
void *__wrap_malloc(size_t n) { return do_alloc(n, 16); }
void *__wrap_calloc(size_t a, size_t b) { void *p = do_alloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void *__wrap_aligned_alloc(size_t al, size_t n) { return do_alloc(n, al); }
void *__wrap_memalign(size_t al, size_t n) { return do_alloc(n, al); }
int   __wrap_posix_memalign(void **pp, size_t al, size_t n) { void *p = do_alloc(n, al); if (!p) return ENOMEM; *pp = p; return 0; }
void  __wrap_free(void *p) { if (!p) return; g_envCalls++; if (E(release)) g_env->release(p); else free(p); }
void *__wrap_realloc(void *o, size_t n)
{
  if (!o) return do_alloc(n, 16);
  void *p = do_alloc(n, 16); if (!p) return NULL;
  size_t os = E(alloc_size) ? g_env->alloc_size(o) : malloc_usable_size(o);
  memcpy(p, o, os < n ? os : n); __wrap_free(o); return p;
}
FILE *__wrap_fopen(const char *p, const char *m) { g_envCalls++; if (E(open)) return g_env->open(p, m); return NULL; }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
int __wrap_open(const char *p, int fl, ...) { (void)p; (void)fl; g_envCalls++; errno = EACCES; return -1; }
int __wrap_open64(const char *p, int fl, ...) { (void)p; (void)fl; g_envCalls++; errno = EACCES; return -1; }
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { g_envCalls++; return fread(b, s, n, f); }
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) { g_envCalls++; return fwrite(b, s, n, f); }
int __wrap_fclose(FILE *f) { g_envCalls++; return fclose(f); }
int __wrap_fseek(FILE *f, long o, int w) { g_envCalls++; return fseek(f, o, w); }
long __wrap_ftell(FILE *f) { g_envCalls++; return ftell(f); }
int __wrap_fflush(FILE *f) { g_envCalls++; return fflush(f); }
static uint64_t now_ns(int clk) { static uint64_t t = 1000000000ULL; g_envCalls++; if (E(clock_ns)) return g_env->clock_ns(clk); return t += 1000; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { uint64_t n = now_ns((int)c); t->tv_sec = (time_t)(n / 1000000000ULL); t->tv_nsec = (long)(n % 1000000000ULL); return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) { (void)z; uint64_t n = now_ns(0); t->tv_sec = (time_t)(n / 1000000000ULL); t->tv_usec = (suseconds_t)(n % 1000000000ULL / 1000); return 0; }
time_t __wrap_time(time_t *p) { time_t r = (time_t)(now_ns(0) / 1000000000ULL); if (p) *p = r; return r; }
clock_t __wrap_clock(void) { return (clock_t)(now_ns(2) / 1000); }
static void do_sleep(uint64_t ns) { g_envCalls++; if (E(sleep_ns)) g_env->sleep_ns(ns); }
int __wrap_usleep(unsigned us) { do_sleep((uint64_t)us * 1000); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)b; do_sleep((uint64_t)a->tv_sec * 1000000000ULL + (uint64_t)a->tv_nsec); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { (void)c; (void)f; return __wrap_nanosleep(a, b); }
unsigned __wrap_sleep(unsigned s) { do_sleep((uint64_t)s * 1000000000ULL); return 0; }
static uint64_t g_rand = 12345;
int __wrap_rand(void) { g_envCalls++; prng_t p = { g_rand }; uint64_t r = prng_next(&p); g_rand = p.s; return (int)(r & 0x7fffffff); }
long __wrap_random(void) { return __wrap_rand(); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { (void)f; for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = (uint8_t)__wrap_rand(); return (ssize_t)n; }
void __wrap_exit(int c) { if (E(do_exit)) g_env->do_exit(c, 0); _exit(c); }
void __wrap__exit(int c) { if (E(do_exit)) g_env->do_exit(c, 0); _exit(c); }
void __wrap_abort(void) { if (E(do_exit)) g_env->do_exit(134, 1); abort(); }
int __wrap_atexit(void (*f)(void)) { (void)f; return 0; }

/* threads and locks: cooperative, under the scheduler when one is running */
extern void sched_block_point(void);
extern int sched_active(void);
extern void sched_lock_delta(int d);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { (void)a; memset(t, 0, sizeof *t); f(x); return 0; }
int __wrap_pthread_join(pthread_t t, void **r) { (void)t; if (r) *r = NULL; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (sched_active()) { while (pthread_mutex_trylock(m)) sched_block_point(); sched_lock_delta(1); return 0; } return pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { int r = pthread_mutex_trylock(m); if (!r && sched_active()) sched_lock_delta(1); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (sched_active()) sched_lock_delta(-1); return pthread_mutex_unlock(m); }
int __wrap_mtx_lock(mtx_t *m) { if (sched_active()) { while (mtx_trylock(m) != thrd_success) sched_block_point(); sched_lock_delta(1); return thrd_success; } return mtx_lock(m); }
int __wrap_mtx_unlock(mtx_t *m) { if (sched_active()) sched_lock_delta(-1); return mtx_unlock(m); }
/* once: 0 = never, 1 = running, 2 = done, kept in the caller's control word */
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void))
{
  volatile int *w = (volatile int *)o;
  if (*w == 2) return 0;
  if (*w == 0) { *w = 1; if (sched_active()) sched_lock_delta(1); f(); *w = 2; if (sched_active()) sched_lock_delta(-1); return 0; }
  while (*w == 1) { if (!sched_active()) return 0; sched_block_point(); }
  return 0;
}
void __wrap_call_once(once_flag *o, void (*f)(void)) { __wrap_pthread_once((pthread_once_t *)o, f); }
int __wrap_sched_yield(void) { if (sched_active()) sched_block_point(); return 0; }

/* memory block functions (scheduled flavour only) */
#define T(p, n, w) do { if (E(touch)) g_env->touch(p, n, w); } while (0)
void *__wrap_memcpy(void *d, const void *s, size_t n)
{ if (!E(touch)) return memcpy(d, s, n); T(s, n, 0); T(d, n, 1); memcpy(d, s, n / 2); T(d, n, 1); memcpy((char *)d + n / 2, (const char *)s + n / 2, n - n / 2); T(d, n, 1); return d; }
void *__wrap_memmove(void *d, const void *s, size_t n) { T(s, n, 0); T(d, n, 1); memmove(d, s, n); T(d, n, 1); return d; }
void *__wrap_memset(void *d, int c, size_t n) { if (!E(touch)) return memset(d, c, n); T(d, n, 1); memset(d, c, n / 2); T(d, n, 1); memset((char *)d + n / 2, c, n - n / 2); T(d, n, 1); return d; }
int __wrap_memcmp(const void *a, const void *b, size_t n) { T(a, n, 0); T(b, n, 0); return memcmp(a, b, n); }

/* codec calls made by the command line tool */
static int idx_of(const char *n, int d) { for (int i = 0; i < g_nCodecs; i++) if (!strcmp(d ? g_codecs[i].dname : g_codecs[i].cname, n)) return i; return -1; }
#define W(name, isd) uint32_t __wrap_##name(const uint8_t *i, uint32_t in, uint8_t *o, uint32_t on) { static int x = -2; if (x == -2) x = idx_of(#name, isd); if (E(codec)) return g_env->codec(x, isd, i, in, o, on); return isd ? g_node->decomp[x](i, in, o, on) : g_node->comp[x](i, in, o, on); }
#include "codec_wraps.inc"

/* Threads simulation: several callers inside one process, on one real library instance built with a
 * simulator callback at every basic block, load and store.  Real threads, one baton: exactly one runs,
 * and the seeded scheduler decides at every callback who is next, and where a call is cut off. */
#include "nodes.h"
#include "wraps.h"
#include "sched.h"
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

#define MAXT 20
#define MAXC 4
#define MAXI 3   /* calls from signal handlers, per thread */
#define MAXCALLS (MAXT * (MAXC + MAXI))
#define SLACK 128u
#define BLK 70000u
#define OUTCAP (1u << 20)

typedef struct { int codec, isD; uint32_t sub; const uint8_t *in; uint32_t inN; uint8_t *out; uint32_t outN; uint32_t expR; uint8_t *exp; uint64_t aloneSteps; char what[120]; } call_t;
typedef struct { pthread_t th; sem_t sem; int id, done, nCalls; call_t *calls[MAXC]; sigjmp_buf killJmp; int lockDepth; uint64_t killAt; int killed, killMode; uint64_t steps; uint32_t prio; int atLib; uint8_t *altStack, *tls; uint64_t dropAt; call_t *irq[MAXI]; uint64_t irqAt[MAXI]; int irqMode[MAXI], nIrq, irqNext, irqDepth; } thr_t;

static node_t *N, *O;
static arena_t A_in, A_out;
static uint8_t *g_exp; static call_t g_calls[MAXCALLS]; static int g_nCalls;
static thr_t T[MAXT]; static int g_nT;
static sem_t g_mainSem;
static __thread thr_t *t_me;
static int g_active, g_shared_p, g_strategy, g_left, g_switches, g_blockRounds, g_P06, g_P18, g_cuts, g_irqs;
static uint64_t g_steps, g_nextSwitch, g_meanSwitch, g_stepBudget, g_lastSwitch, g_change[8]; static int g_nChange;
static uint64_t g_traceHash;
static int g_counting; static uint64_t g_count;
static int g_levelDep[256], g_nLevelDep;
static int g_hot[256], g_nHot; static uint64_t g_hotWrites; /* codecs that write to process-wide or thread-local data in every call: more of the search goes there */
static uint32_t g_low;

int sched_active(void) { return g_active && t_me; }
void sched_lock_delta(int d) { if (t_me) t_me->lockDepth += d; }

/* ---------------------------------------------------------------- scheduling */
static void give(thr_t *t, uintptr_t where)
{
  thr_t *me = t_me;
  if (t == me) return;
  g_switches++; g_lastSwitch = g_steps;
  uint64_t w = where ? where - (uintptr_t)N->base : 0;
  g_traceHash = (g_traceHash ^ w ^ (uint64_t)t->id << 50) * 0x9FB21C651E98DF25ULL; g_traceHash ^= g_traceHash >> 29;
  distinct_state(w * 1024 + (uint64_t)me->id * 32 + (uint64_t)t->id);
  tr("  switch #%d: thread %d at step %llu -> thread %d", g_switches, me->id, (unsigned long long)g_steps, t->id);
  sem_post(&t->sem);
  if (me->done) return;
  while (sem_wait(&me->sem)) {}
}

static thr_t *other(void)
{
  thr_t *c[MAXT]; int n = 0; for (int i = 0; i < g_nT; i++) if (!T[i].done && &T[i] != t_me) c[n++] = &T[i];
  return n ? c[ch((uint32_t)n)] : NULL;
}

static void too_long(void)
{
  char sg[150]; snprintf(sg, sizeof sg, "no-progress %s", t_me->nCalls ? "concurrent calls" : "");
  violation(sg, "calls do not finish: %llu steps, although all of them together take %llu when run alone", (unsigned long long)g_steps, (unsigned long long)g_stepBudget);
}

static void preempt(uintptr_t where) { thr_t *t = other(); if (t) { stat_add("fault:preemption", 1); give(t, where); } }

static void maybe_kill(int shared, uintptr_t where)
{
  thr_t *me = t_me;
  if (!me->killMode || me->lockDepth || me->killed) return;
  if (me->killMode == 1 ? me->steps >= me->killAt : (shared && --me->killAt == 0))
  {
    me->killed = 1; stat_add("fault:call-cut-off", 1); if (shared) stat_add("fault:call-cut-off-at-shared-access", 1);
    g_traceHash = (g_traceHash ^ (uint64_t)me->id << 50 ^ me->steps ^ (uint64_t)shared << 60) * 0x9FB21C651E98DF25ULL; g_cuts++; distinct_state(1ULL << 60 | (where ? where - (uintptr_t)N->base : 0));
    tr("  thread %d: call cut off after %llu steps", me->id, (unsigned long long)me->steps);
    siglongjmp(me->killJmp, 1);
  }
}

static void interrupt(thr_t *me, uintptr_t where);
static void step(int shared, uintptr_t where)
{
  thr_t *me = t_me;
  g_steps++; me->steps++;
  if (me->killMode) maybe_kill(shared, where);
  if (me->irqNext < me->nIrq && (me->irqMode[me->irqNext] == 1 ? me->steps >= me->irqAt[me->irqNext] : shared && --me->irqAt[me->irqNext] == 0)) interrupt(me, where);
  if (g_steps > g_stepBudget) too_long();
  if (g_steps - g_lastSwitch > 300000 && g_nT > 1) { g_lastSwitch = g_steps; thr_t *t = other(); if (t) give(t, where); return; } /* fairness */
  if (g_switches >= 400 + 20 * g_nT) return;
  if (g_strategy == 1)
  { /* priorities with change points */
    for (int i = 0; i < g_nChange; i++) if (g_change[i] == g_steps) { me->prio = g_low--; for (int k = 0; k < g_nT; k++) if (!T[k].done && T[k].prio > me->prio) { stat_add("fault:preemption", 1); thr_t *b = &T[k]; for (int q = 0; q < g_nT; q++) if (!T[q].done && T[q].prio > b->prio) b = &T[q]; give(b, where); break; } break; }
    return;
  }
  if (g_strategy == 2)
  { /* a thread is held at one of its accesses to process-wide data until all others are done or held */
    if (!shared || !me->dropAt || --me->dropAt) return;
    me->prio = g_low--; thr_t *b = me; for (int q = 0; q < g_nT; q++) if (!T[q].done && T[q].prio > b->prio) b = &T[q];
    if (b != me) { stat_add("fault:thread-held-at-shared-access", 1); give(b, where); }
    return;
  }
  if (shared && g_shared_p && ch((uint32_t)g_shared_p) == (uint32_t)g_shared_p - 1) { stat_add("fault:preemption-at-shared-access", 1); preempt(where); return; }
  if (g_meanSwitch && g_steps >= g_nextSwitch) { g_nextSwitch = g_steps + 1 + ch((uint32_t)(2 * g_meanSwitch)); preempt(where); }
}

void sched_block_point(void)
{ /* waiting for something another thread holds */
  g_steps += 50; if (t_me) t_me->steps += 50;
  if (g_steps > g_stepBudget) too_long();
  thr_t *t = other();
  if (!t) { if (++g_blockRounds > 20000) violation("no-progress deadlock", "a call waits for something no other thread will release"); return; }
  give(t, 0);
}

/* ---------------------------------------------------------------- callbacks from the code under test */
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
extern int g_kernel_active; extern void kernel_step(void);
void __sanitizer_cov_trace_pc_guard(uint32_t *g)
{
  (void)g;
  if (g_kernel_active) { kernel_step(); return; }
  if (g_active && t_me) step(0, (uintptr_t)__builtin_return_address(0));
  else if (g_counting) g_count++;
}
static inline void acc(const void *p, uintptr_t pc, int w)
{
  if (g_active && t_me) { if (node_owns_data(N, (uintptr_t)p) || (N->tlsN && (uintptr_t)p - (uintptr_t)t_me->tls < N->tlsN)) step(1, pc); }
  else if (g_counting == 2 && w && (node_owns_data(O, (uintptr_t)p) || (O->tlsN && (uintptr_t)p - (uintptr_t)node_tls(O) < O->tlsN))) g_hotWrites++;
}
#define A(nm, n, w) void nm(void *p) { acc(p, (uintptr_t)__builtin_return_address(0), w); }
A(__sanitizer_cov_load1, 1, 0) A(__sanitizer_cov_load2, 2, 0) A(__sanitizer_cov_load4, 4, 0) A(__sanitizer_cov_load8, 8, 0) A(__sanitizer_cov_load16, 16, 0)
A(__sanitizer_cov_store1, 1, 1) A(__sanitizer_cov_store2, 2, 1) A(__sanitizer_cov_store4, 4, 1) A(__sanitizer_cov_store8, 8, 1) A(__sanitizer_cov_store16, 16, 1)
static void touch(const void *p, size_t n, int w) { (void)n; acc(p, (uintptr_t)__builtin_return_address(0), w); }
static env_t g_tenv = { .touch = touch };

/* ---------------------------------------------------------------- workload */
static uint32_t do_call(node_t *n, const call_t *c, uint8_t *out)
{
  if (c->codec >= XM) return c->isD ? x_decompress(n, c->codec, c->in, c->inN, out, c->outN) : x_compress(n, c->codec, c->sub, c->in, c->inN, out, c->outN);
  return c->isD ? n->decomp[c->codec](c->in, c->inN, out, c->outN) : n->comp[c->codec](c->in, c->inN, out, c->outN);
}
static const char *fname(const call_t *c) { return c->isD ? x_dname(c->codec) : x_cname(c->codec); }

static __attribute__((noinline)) void scrub(void) { volatile uint8_t b[64 * 1024]; memset((void *)b, 0x3C, sizeof b); __asm__ volatile("" :: "r"(b) : "memory"); }
static uint32_t g_usedIn; static uint32_t g_usedOut[MAXCALLS];
static void wipe(void)
{
  memset(A_in.rw, 0, g_usedIn + 8192);
  for (int i = 0; i < MAXCALLS; i++) if (g_usedOut[i]) { memset(A_out.rw + (size_t)i * OUTCAP, 0, g_usedOut[i]); memset(g_exp + (size_t)i * OUTCAP, 0, g_usedOut[i]); g_usedOut[i] = 0; }
}
static uint32_t alone(const call_t *c, uint8_t *out) { node_restart(O); scrub(); g_node = O; uint32_t r = do_call(O, c, out); g_node = NULL; return r; }

static void judge(thr_t *t, call_t *c, uint32_t r, int again)
{
  char sg[150]; hist_u64(r); hist_mem(c->out, r <= c->outN ? r : 0);
  tr("  thread %d: %s%s -> %u (alone: %u)", t->id, c->what, again ? " repeated" : "", r, c->expR);
  if (r != c->expR) violation((snprintf(sg, sizeof sg, "result-differs %s", fname(c)), sg), "%s returned %u; run alone it returns %u (thread %d of %d, %d switches so far)", c->what, r, c->expR, t->id, g_nT, g_switches);
  if (memcmp(c->out, c->exp, r)) { uint32_t k = 0; while (c->out[k] == c->exp[k]) k++; violation((snprintf(sg, sizeof sg, "bytes-differ %s", fname(c)), sg), "%s gave different bytes than when run alone, first at byte %u of %u (thread %d of %d, %d switches so far)", c->what, k, r, t->id, g_nT, g_switches); }
}

/* a signal arrives: its handler makes a call of its own, then the interrupted call goes on */
static void interrupt(thr_t *me, uintptr_t where)
{
  call_t *c = me->irq[me->irqNext++]; uint64_t st = me->steps; g_irqs++; me->irqDepth++;
  stat_add("fault:call-interrupted-by-signal", 1); if (me->irqDepth > 1) stat_add("fault:signal-handler-interrupted", 1);
  g_traceHash = (g_traceHash ^ (where ? where - (uintptr_t)N->base : 0) ^ (uint64_t)me->id << 50 ^ 0x77ULL << 56) * 0x9FB21C651E98DF25ULL; g_traceHash ^= g_traceHash >> 29; distinct_state(1ULL << 61 | (where ? where - (uintptr_t)N->base : 0));
  tr("  thread %d: signal after %llu steps, its handler calls %s", me->id, (unsigned long long)st, c->what);
  me->steps = 0; uint32_t r = do_call(N, c, c->out); judge(me, c, r, 0); me->steps = st; me->irqDepth--;
  tr("  thread %d: handler returns", me->id);
}

static void *thread_main(void *v)
{
  thr_t *t = v; t_me = t; g_node = N; t->tls = node_tls(N);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 1 << 16; ss.ss_sp = t->altStack; sigaltstack(&ss, NULL);
  scrub();
  while (sem_wait(&t->sem)) {}
  for (int i = 0; i < t->nCalls; i++)
  {
    call_t *c = t->calls[i]; volatile int attempts = 0; uint32_t r;
    op_set("%s with %d threads", c->what, g_nT);
    if (sigsetjmp(t->killJmp, 0)) { t->lockDepth = 0; attempts = 1; if (ch_p(1, 4)) continue; /* given up; otherwise repeated with the same buffers */ }
    t->steps = 0;
    r = do_call(N, c, c->out);
    judge(t, c, r, attempts);
  }
  t->done = 1;
  thr_t *n = NULL; for (int i = 0; i < g_nT; i++) if (!T[i].done && (!n || T[i].prio > n->prio)) n = &T[i];
  if (n && g_strategy == 0) n = other();
  if (n) give(n, 0); else sem_post(&g_mainSem);
  stack_t off; memset(&off, 0, sizeof off); off.ss_flags = SS_DISABLE; sigaltstack(&off, NULL);
  return NULL;
}

static void threads_init(void)
{
  N = node_load("lib_sched.so", "sched"); O = node_load("lib_sched.so", "sched");
  arena_make(&A_in, 64u << 20); arena_make(&A_out, (size_t)MAXCALLS * OUTCAP); g_exp = malloc((size_t)MAXCALLS * OUTCAP);
  sem_init(&g_mainSem, 0, 0);
  for (int i = 0; i < MAXT; i++) { sem_init(&T[i].sem, 0, 0); T[i].altStack = mmap(NULL, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
  g_P06 = !strcmp(g_prop, "C06"); g_P18 = !strcmp(g_prop, "C18");
  /* which codecs produce different streams on different CPUs?  They show best if the feature flags are disturbed. */
  for (int c = 0; c < g_nCodecs && g_nLevelDep < 256; c++)
  {
    int dep = 0; ch_start_seed(4242);
    for (int k = 0; k < 16 && !dep; k++)
    {
      uint32_t n = gen_block(A_in.rw, 1500, g_codecs[c].sym, NULL, 0), r0 = 0;
      for (int lv = 0; lv <= cpu_host_max_level() && !dep; lv++)
      {
        cpu_level(&O->cpu, lv); call_t q = { c, 0, 0, A_in.ro, n, NULL, node_bounds(O, c, n), 0, NULL, 0, "" }; uint8_t *o = lv ? g_exp : g_exp + OUTCAP;
        g_expect_crash = 1; uint32_t r = 0; if (!sigsetjmp(g_crash_jmp, 1)) r = alone(&q, o); g_expect_crash = 0;
        if (!lv) r0 = r; else dep = r != r0 || memcmp(g_exp, g_exp + OUTCAP, r);
      }
    }
    if (dep) { g_levelDep[g_nLevelDep++] = c; if (g_verbose) printf("output depends on the cpu: %s\n", g_codecs[c].cname); }
  }
  for (int c = 0; c < g_nCodecs + 3 && g_nHot < 256; c++)
  {
    int cd = c < g_nCodecs ? c : XM + c - g_nCodecs; g_hotWrites = 0; ch_start_seed(777);
    for (int lv = 0; lv <= cpu_host_max_level() && !g_hotWrites; lv += 3) for (int k = 0; k < 3; k++)
    {
      uint32_t n = gen_block(A_in.rw, k == 2 ? 3000 : 400, cd >= XM ? 1 : g_codecs[cd].sym, NULL, 0); cpu_level(&O->cpu, lv);
      g_expect_crash = 1;
      if (!sigsetjmp(g_crash_jmp, 1))
      {
        if (k == 0) node_restart(O);
        g_node = O; uint32_t b = x_bounds(O, cd, 1, n); if (b > OUTCAP - 4096) b = OUTCAP - 4096;
        if (k == 2) { g_env = &g_tenv; g_counting = 2; }
        uint32_t r = x_compress(O, cd, 1, A_in.ro, n, A_out.rw, b);
        if (r && r <= b) x_decompress(O, cd, A_out.ro, r, g_exp, n);
      }
      g_env = NULL; g_counting = 0; g_node = NULL; g_expect_crash = 0;
    }
    if (g_hotWrites) { g_hot[g_nHot++] = cd; if (g_verbose) printf("keeps state in memory shared by calls: %s\n", x_cname(cd)); }
  }
  memset(A_in.rw, 0, 8192); memset(g_exp, 0, 2 * OUTCAP); memset(A_out.rw, 0, OUTCAP);
}

static void threads_run(void)
{
  static const uint32_t lw[LV_COUNT] = { 3, 1, 2, 3, 1, 2, 8, 3, 3 };
  int lv = (int)ch_w(lw, (uint32_t)cpu_host_max_level() + 1);
  cpu_level(&N->cpu, lv); cpu_level(&O->cpu, lv);
  wipe(); node_restart(N); g_env = NULL; g_nCalls = 0; g_steps = g_lastSwitch = 0; g_switches = 0; g_blockRounds = g_cuts = 0; g_traceHash = 1;
  g_nT = (int)(g_P06 || g_P18 ? ch_range(1, 3) : ch_range(2, 4)); g_irqs = 0; int hot = g_nHot ? ch_p(1, 2) : 0; int crowd = !g_P18 && (hot ? ch(6) == 5 : ch(50) == 49); if (crowd) { g_nT = (int)ch_range(5, MAXT); stat_add("ops:many-threads", 1); }
  tr("cpu %s, %d threads", N->cpu.name, g_nT);
  hist_u64((uint64_t)lv);
  uint32_t inOff = 0; uint64_t total = 0; struct { uint8_t *p; uint32_t n, sn; int codec; uint8_t *s; uint32_t sub; } blk[6]; int nb = 0;
  int family = hot ? g_hot[ch((uint32_t)g_nHot)] : ch_p(crowd ? 2 : 1, 3) ? (int)ch((uint32_t)g_nCodecs) : -1; /* all threads in the same codec */
  int warm = ch_p(1, 3);                                  /* otherwise these are the first calls in the process */
  if (!hot && family >= 0 && g_nLevelDep && ch_p(1, 4)) family = g_levelDep[ch((uint32_t)g_nLevelDep)];
  for (int i = 0; i < g_nT; i++)
  {
    thr_t *t = &T[i]; t->id = i; t->done = 0; t->lockDepth = 0; t->killed = 0; t->killMode = 0; t->nCalls = (int)ch_range(1, g_P06 ? 4 : 3); t->prio = 1000 + ch(1000); t->dropAt = 0; t->steps = 0;
    t->nIrq = g_P18 ? (int)ch_range(i == 0, MAXI) : 0; t->irqNext = t->irqDepth = 0;
    for (int k = 0; k < t->nCalls + t->nIrq; k++)
    {
      call_t *c = &g_calls[g_nCalls]; memset(c, 0, sizeof *c); int bi;
      if (nb && (nb == 6 || ch_p(1, 3))) bi = (int)ch((uint32_t)nb); /* the same input as another call */
      else
      {
        bi = nb++; char d[64]; int cd = family;
        if (cd < 0) { uint32_t x = ch((uint32_t)g_nCodecs + 24); cd = x < (uint32_t)g_nCodecs ? (int)x : x < (uint32_t)g_nCodecs + 4 ? (x == (uint32_t)g_nCodecs ? XI : x == (uint32_t)g_nCodecs + 1 ? XS : XM) : g_nLevelDep ? g_levelDep[ch((uint32_t)g_nLevelDep)] : 0; }
        blk[bi].codec = cd; inOff = (inOff + 63) & ~63u; blk[bi].p = A_in.rw + inOff + (ch_p(1, 2) ? 0 : ch(32)); blk[bi].n = gen_block(blk[bi].p, crowd ? 300 : ch_p(1, 12) ? (ch_p(1, 40) ? 400000 : ch_p(1, 8) ? 140000 : 20000) : ch_p(1, 2) ? 400 : 2500, cd >= XM ? 1 : g_codecs[cd].sym, d, sizeof d);
        inOff += blk[bi].n + 4096 + 64; blk[bi].sub = cd >= XM ? 1 + ch(blk[bi].n < 40 ? blk[bi].n : 40) : 0; blk[bi].s = NULL;
      }
      c->codec = blk[bi].codec; c->sub = blk[bi].sub; c->isD = ch_p(1, 2);
      g_node = O; uint32_t bound = x_bounds(O, c->codec, c->sub, blk[bi].n); g_node = NULL;
      if (bound > OUTCAP - 64) { blk[bi].n = 20000; g_node = O; bound = x_bounds(O, c->codec, c->sub, blk[bi].n); g_node = NULL; }
      c->in = A_in.ro + (blk[bi].p - A_in.rw); c->inN = blk[bi].n; c->outN = bound;
      c->out = A_out.rw + (size_t)g_nCalls * OUTCAP + (ch_p(1, 2) ? 0 : ch(32)); c->exp = g_exp + (size_t)g_nCalls * OUTCAP;
      snprintf(c->what, sizeof c->what, "%s", fname(c));
      if (c->isD)
      { /* needs a stream */
        if (!blk[bi].s)
        {
          call_t q = *c; q.isD = 0; inOff = (inOff + 63) & ~63u; blk[bi].s = A_in.rw + inOff + (ch_p(1, 2) ? 0 : ch(32)); inOff += bound + 4096 + 64;
          op_set("%s alone", q.what); blk[bi].sn = alone(&q, blk[bi].s); if (blk[bi].sn == 0 || blk[bi].sn > bound) blk[bi].sn = 1;
        }
        c->in = A_in.ro + (blk[bi].s - A_in.rw); c->inN = blk[bi].sn; c->outN = blk[bi].n;
      }
      if (ch_p(1, 12)) c->outN = ch(c->outN + 1); /* some calls fail on their own account */
      snprintf(c->what, sizeof c->what, "%s(block %d, %u -> %u bytes)", fname(c), bi, c->inN, c->outN);
      memset(c->out, 0xA5, c->outN < 4096 ? c->outN : 4096); memset(c->exp, 0xA5, c->outN < 4096 ? c->outN : 4096); g_usedOut[g_nCalls] = c->outN + 4096;
      op_set("%s alone", c->what); g_counting = 1; g_count = 0; c->expR = alone(c, c->exp); g_counting = 0; c->aloneSteps = g_count;
      if (c->expR > c->outN) violation("alone-size", "%s reports %u bytes in a %u byte buffer", c->what, c->expR, c->outN);
      total += g_count; if (k < t->nCalls) t->calls[k] = c; else t->irq[k - t->nCalls] = c; g_nCalls++;
    }
  }
  g_usedIn = inOff;
  tr("%d calls, %llu steps when run alone", g_nCalls, (unsigned long long)total);
  if (warm) { call_t *c = &g_calls[0]; op_set("warm up"); g_node = N; do_call(N, c, g_exp + (size_t)(MAXCALLS - 1) * OUTCAP); g_node = NULL; if (g_nCalls == MAXCALLS) alone(&g_calls[MAXCALLS - 1], g_calls[MAXCALLS - 1].exp); }
  g_stepBudget = total * 4 + 3000000;
  /* schedule */
  g_low = 999; g_strategy = 0; g_shared_p = 0; g_meanSwitch = 0; g_nChange = 0;
  switch (ch(5))
  {
    case 0: g_shared_p = (int)ch_range(2, 6); break;
    case 1: { static const uint64_t m[] = { 2, 6, 20, 60, 200, 1000, 6000 }; g_meanSwitch = m[ch(7)]; if (ch_p(1, 2)) g_shared_p = (int)ch_range(2, 12); break; }
    case 2: g_strategy = 1; g_nChange = (int)ch_range(1, 6); { uint32_t lim = ch_p(1, 2) ? 400 : (uint32_t)(total < 1000000 ? total + 100 : 1000000); for (int i = 0; i < g_nChange; i++) g_change[i] = 1 + ch(lim); } break;
    case 3: g_meanSwitch = 1 + ch(3); g_shared_p = 2; break; /* densest */
    case 4: g_strategy = 2; for (int i = 0; i < g_nT; i++) if (ch_p(1, 2)) T[i].dropAt = 1 + ch(ch_p(1, 2) ? 12 : 80); break;
  }
  if (g_meanSwitch) g_nextSwitch = 1 + ch((uint32_t)(2 * g_meanSwitch));
  if (g_P06)
  {
    int any = 0;
    for (int i = 0; i < g_nT; i++) if (ch_p(1, 2) || (i == g_nT - 1 && !any))
    { /* where the victim is cut off: at its k-th access to process-wide data, or after some steps */
      any = 1; T[i].killMode = 1 + (int)ch(2);
      T[i].killAt = T[i].killMode == 2 ? 1 + ch(ch_p(1, 2) ? 80 : 24) : 1 + ch(ch_p(1, 2) ? 150 : (uint32_t)(T[i].calls[0]->aloneSteps < 100000 ? T[i].calls[0]->aloneSteps + 20 : 100000));
    }
  }
  for (int i = 0; i < g_nT; i++) for (int k = 0; k < T[i].nIrq; k++)
  { /* when its signals arrive: at an access to process-wide data, or after some steps of the call running then */
    T[i].irqMode[k] = 1 + (int)ch(2);
    T[i].irqAt[k] = T[i].irqMode[k] == 2 ? 1 + ch(ch_p(1, 2) ? 80 : 16) : 1 + ch(ch_p(1, 2) ? 150 : (uint32_t)(T[i].calls[0]->aloneSteps < 100000 ? T[i].calls[0]->aloneSteps + 20 : 100000));
  }
  g_env = &g_tenv; g_active = 1; g_envCalls = 0;
  for (int i = 0; i < g_nT; i++) if (pthread_create(&T[i].th, NULL, thread_main, &T[i])) { fprintf(stderr, "HARNESS: pthread_create\n"); _exit(2); }
  int first = (int)ch((uint32_t)g_nT);
  if (g_strategy) for (int i = 0; i < g_nT; i++) if (T[i].prio > T[first].prio) first = i;
  sem_post(&T[first].sem);
  while (sem_wait(&g_mainSem)) {}
  for (int i = 0; i < g_nT; i++) pthread_join(T[i].th, NULL);
  g_active = 0; g_env = NULL;
  /* after the storm: the process still works, every call once more */
  g_node = N;
  for (int i = 0; i < g_nCalls; i++)
  {
    call_t *c = &g_calls[i]; char sg[150]; op_set("%s afterwards", c->what);
    if (i > 3 && !g_P06 && !g_P18) break;
    uint32_t r = do_call(N, c, c->out);
    if (r != c->expR || memcmp(c->out, c->exp, r)) violation((snprintf(sg, sizeof sg, "afterwards-differs %s", fname(c)), sg), "after the concurrent phase %s gives another result than alone (%u, expected %u)", c->what, r, c->expR);
  }
  g_node = NULL;
  hist_u64(g_traceHash); hist_u64(g_steps); stat_add("ops:calls", (uint64_t)g_nCalls); stat_add("ops:thread-switches", (uint64_t)g_switches);
  if (!warm) stat_add("ops:first-calls-in-process", 1);
  if (g_switches || g_cuts || g_irqs) distinct_add(g_traceHash);
  g_sim_ns += (double)g_steps * 2.0;
  if (g_switches && g_seed % 61 == 0) { char s[230]; snprintf(s, sizeof s, "%d threads on %s, %d calls (%s ...), %d switches in %llu steps", g_nT, N->cpu.name, g_nCalls, g_calls[0].what, g_switches, (unsigned long long)g_steps); sample_add(s); }
}

const sim_t sim_threads = { "threads", threads_init, threads_run, 0 };

#include "core.h"
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <ucontext.h>

#define CH_CAP   (1u << 21)
#define STAT_CAP 256
#define DSET     (1u << 20)
#define SAMPLES  24

typedef struct
{
  uint64_t prng; int mode; uint64_t n; uint64_t listN;
  uint64_t hist;
  int nStat; struct { char name[56]; uint64_t v; } stat[STAT_CAP];
  uint64_t distinctN, stateN, distinctSeen, stateSeen;
  uint64_t distinctTab[DSET], stateTab[DSET];
  int nSamples; char sample[SAMPLES][240];
  double simNs;
  char violSig[160], violMsg[2000]; int violated; uint64_t violHist, seed;
  int harnessError; char harnessMsg[400];
  size_t traceLen; char trace[1 << 16];
  uint32_t rec[CH_CAP];
} shared_t;

static shared_t *S;
static const uint32_t *g_listPtr;
double g_sim_ns_dummy;
int g_verbose = 0;
static int g_reportFd = 1; /* the tool under simulation gets another stdout */
char g_op[256];
const char *g_prop = "C00";
uint64_t g_seed;
int g_expect_crash = 0;
sigjmp_buf g_crash_jmp;
volatile int g_crash_sig;
volatile uintptr_t g_crash_ip;
static const char *g_violFile = NULL;
double g_sim_ns;

/* ------------------------------------------------------------------ choices */
void ch_start_seed(uint64_t seed) { S->prng = seed * 0x9E3779B97F4A7C15ULL + 0x632BE59BD9B4E019ULL; prng_t p = { S->prng }; prng_next(&p); S->prng = p.s ^ (seed << 17); S->mode = 0; S->n = 0; }
void ch_start_list(const uint32_t *p, size_t n) { g_listPtr = p; S->listN = n; S->mode = 1; S->n = 0; }
uint64_t ch_count(void) { return S->n; }
const uint32_t *ch_list(void) { return S->rec; }

uint32_t ch(uint32_t n)
{
  uint32_t v;
  if (n <= 1) return 0;
  if (S->mode == 0) { prng_t p = { S->prng }; uint64_t r = prng_next(&p); S->prng = p.s; v = (uint32_t)(((r >> 32) * (uint64_t)n) >> 32); }
  else { v = S->n < S->listN ? g_listPtr[S->n] : 0; if (v >= n) v = n - 1; }
  if (S->n < CH_CAP) S->rec[S->n] = v;
  S->n++;
  return v;
}
uint32_t ch_range(uint32_t lo, uint32_t hi) { return lo + ch(hi - lo + 1); }
int ch_p(uint32_t num, uint32_t den) { if (num == 0) return 0; /* 0 = does not happen */ return ch(den) >= den - num; }
uint32_t ch_w(const uint32_t *w, uint32_t n)
{
  uint32_t t = 0; for (uint32_t i = 0; i < n; i++) t += w[i];
  uint32_t r = ch(t); for (uint32_t i = 0; i < n; i++) { if (r < w[i]) return i; r -= w[i]; }
  return n - 1;
}

/* ------------------------------------------------------------------ history */
void hist_reset(void) { S->hist = 0xcbf29ce484222325ULL; }
void hist_u64(uint64_t v) { uint64_t h = S->hist ^ v; h *= 0x9FB21C651E98DF25ULL; h ^= h >> 29; S->hist = h; }
uint64_t hash_mem(const void *p, size_t n, uint64_t seed)
{
  const uint8_t *b = p; uint64_t h = seed ^ (n * 0x9E3779B97F4A7C15ULL);
  while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0x9FB21C651E98DF25ULL; h ^= h >> 32; b += 8; n -= 8; }
  while (n) { h = (h ^ *b++) * 0x100000001b3ULL; n--; }
  h ^= h >> 31; return h;
}
void hist_mem(const void *p, size_t n) { hist_u64(hash_mem(p, n, 1)); }
uint64_t hist_value(void) { return S->hist; }

void tr(const char *fmt, ...)
{
  if (!g_verbose) return;
  char b[512]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  if (n > 0 && S->traceLen + (size_t)n + 2 < sizeof S->trace) { memcpy(S->trace + S->traceLen, b, (size_t)n); S->traceLen += (size_t)n; S->trace[S->traceLen++] = '\n'; S->trace[S->traceLen] = 0; }
}

/* ------------------------------------------------------------------ stats */
void stat_add(const char *name, uint64_t v)
{
  for (int i = 0; i < S->nStat; i++) if (strcmp(S->stat[i].name, name) == 0) { S->stat[i].v += v; return; }
  if (S->nStat < STAT_CAP) { snprintf(S->stat[S->nStat].name, sizeof S->stat[0].name, "%s", name); S->stat[S->nStat].v = v; S->nStat++; }
}
static void set_add(uint64_t *tab, uint64_t *n, uint64_t sig)
{
  if (sig == 0) sig = 1;
  uint64_t i = (sig * 0x9E3779B97F4A7C15ULL) >> 44; i &= DSET - 1;
  if (*n > DSET - DSET / 8) return;
  while (tab[i]) { if (tab[i] == sig) return; i = (i + 1) & (DSET - 1); }
  tab[i] = sig; (*n)++;
}
void distinct_add(uint64_t sig) { S->distinctSeen++; set_add(S->distinctTab, &S->distinctN, sig); }
void distinct_state(uint64_t sig) { S->stateSeen++; set_add(S->stateTab, &S->stateN, sig); }
void sample_add(const char *s) { if (S->nSamples < SAMPLES) snprintf(S->sample[S->nSamples++], sizeof S->sample[0], "%s", s); }
void op_set(const char *fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(g_op, sizeof g_op, fmt, a); va_end(a); }

/* ------------------------------------------------------------------ violations */
static void jstr(FILE *f, const char *s)
{
  fputc('"', f);
  for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c == '\n') fputs("\\n", f); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
  fputc('"', f);
}

static void write_viol(void)
{
  if (!g_violFile) return;
  FILE *f = fopen(g_violFile, "w"); if (!f) return;
  fprintf(f, "{\"property\":\"%s\",\"seed\":%llu,\"sig\":", g_prop, (unsigned long long)S->seed); jstr(f, S->violSig);
  fprintf(f, ",\"message\":"); jstr(f, S->violMsg);
  fprintf(f, ",\"history_hash\":\"%016llx\",\"choices\":[", (unsigned long long)S->violHist);
  uint64_t n = S->n < CH_CAP ? S->n : CH_CAP;
  for (uint64_t i = 0; i < n; i++) fprintf(f, i ? ",%u" : "%u", S->rec[i]);
  fprintf(f, "],\"trace\":"); jstr(f, S->trace); fprintf(f, "}\n"); fclose(f);
}

static void viol_finish(void)
{
  S->violHist = S->hist; S->violated = 1;
  _exit(10); /* the supervising process, whose memory the code under test cannot have damaged, writes the report */
}

static void report_viol(void)
{
  write_viol(); char b[2600];
  int n = snprintf(b, sizeof b, "VIOL sig=[%s] hist=%016llx seed=%llu\n%s\n", S->violSig, (unsigned long long)S->violHist, (unsigned long long)S->seed, S->violMsg);
  if (n > 0 && write(g_reportFd, b, (size_t)n) < 0) {}
  if (g_verbose && write(g_reportFd, S->trace, S->traceLen) < 0) {}
}

/* the simulated processes may damage all memory of the process they run in, so that not even its fault handler works any more */
static int destroyed(int st)
{
  if (S->violated || !WIFSIGNALED(st) || WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM || WTERMSIG(st) == SIGINT) return 0;
  snprintf(S->violSig, sizeof S->violSig, "process destroyed, signal %d", WTERMSIG(st));
  snprintf(S->violMsg, sizeof S->violMsg, "the code under test damaged the memory of its process so badly that it was ended by signal %d", WTERMSIG(st));
  S->violHist = 0; S->violated = 1; return 1;
}

void violation(const char *sig, const char *fmt, ...)
{
  va_list a; va_start(a, fmt); vsnprintf(S->violMsg, sizeof S->violMsg, fmt, a); va_end(a);
  snprintf(S->violSig, sizeof S->violSig, "%s", sig);
  tr("VIOLATION [%s] %s", S->violSig, S->violMsg);
  viol_finish();
  abort();
}

static void on_signal(int sig, siginfo_t *si, void *uc)
{
  (void)si; g_crash_ip = (uintptr_t)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  g_crash_sig = sig;
  if (g_expect_crash) siglongjmp(g_crash_jmp, sig);
  const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGFPE ? "SIGFPE" : sig == SIGTRAP ? "SIGTRAP" : sig == SIGABRT ? "SIGABRT" : sig == SIGPROF ? "HANG" : "SIGNAL";
  snprintf(S->violSig, sizeof S->violSig, "crash %s during %s", n, g_op);
  snprintf(S->violMsg, sizeof S->violMsg, "%s while running: %s (fault address offset unavailable to keep the report exact)", sig == SIGPROF ? "no progress within the per-run CPU budget" : "fatal signal", g_op);
  tr("VIOLATION [%s] %s", S->violSig, S->violMsg);
  viol_finish();
}

void core_install_altstack(void)
{
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_size = 1 << 16; ss.ss_sp = mmap(NULL, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, NULL);
}

static void install_signals(void)
{
  core_install_altstack();
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGABRT, SIGPROF };
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
}

static void arm_watchdog(void) { struct itimerval it = { { 0, 0 }, { 40, 0 } }; setitimer(ITIMER_PROF, &it, NULL); }

/* ------------------------------------------------------------------ driver */
static double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void reset_run(void) { hist_reset(); S->violated = 0; S->traceLen = 0; S->trace[0] = 0; g_op[0] = 0; g_expect_crash = 0; }

static uint32_t *load_list(const char *path, size_t *pn)
{
  FILE *f = fopen(path, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", path); exit(2); }
  fseek(f, 0, SEEK_END); long sz = ftell(f); rewind(f);
  char *b = malloc((size_t)sz + 1); if (fread(b, 1, (size_t)sz, f) != (size_t)sz) exit(2); b[sz] = 0; fclose(f);
  char *p = strstr(b, "\"choices\":"); uint32_t *r = malloc(sizeof(uint32_t) * ((size_t)sz / 2 + 2)); size_t n = 0;
  if (p) { p = strchr(p, '[') + 1; while (*p && *p != ']') { if (*p >= '0' && *p <= '9') r[n++] = (uint32_t)strtoul(p, &p, 10); else p++; } }
  free(b); *pn = n; return r;
}

static void dump_stats(const char *path, const sim_t *sim, uint64_t runs, double wall, uint64_t lastSeed)
{
  char bin[512]; FILE *f = fopen(path, "w"); if (!f) return;
  fprintf(f, "{\"sim\":\"%s\",\"runs\":%llu,\"wall_s\":%.3f,\"last_seed\":%llu,\"sim_ns\":%.0f,\"violated\":%d,\"distinct\":%llu,\"states\":%llu,\"judged\":%llu,\"stats\":{", sim->name, (unsigned long long)runs, wall, (unsigned long long)lastSeed, S->simNs, S->violated, (unsigned long long)S->distinctN, (unsigned long long)S->stateN, (unsigned long long)S->distinctSeen);
  for (int i = 0; i < S->nStat; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", S->stat[i].name, (unsigned long long)S->stat[i].v);
  fprintf(f, "},\"samples\":[");
  for (int i = 0; i < S->nSamples; i++) { if (i) fputc(',', f); jstr(f, S->sample[i]); }
  fprintf(f, "]}\n"); fclose(f);
  snprintf(bin, sizeof bin, "%s.set", path); f = fopen(bin, "wb");
  if (f) { for (unsigned i = 0; i < DSET; i++) if (S->distinctTab[i]) fwrite(&S->distinctTab[i], 8, 1, f); fclose(f); }
  snprintf(bin, sizeof bin, "%s.st", path); f = fopen(bin, "wb");
  if (f) { for (unsigned i = 0; i < DSET; i++) if (S->stateTab[i]) fwrite(&S->stateTab[i], 8, 1, f); fclose(f); }
}

/* run one list in a forked child; returns 1 if it violates with signature 'sig' (NULL: any) */
static const sim_t *g_sim;
static int eval_list(const uint32_t *p, size_t n, const char *sig)
{
  fflush(NULL);
  S->violated = 0;
  pid_t c = fork();
  if (c == 0)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct itimerval it = { { 0, 0 }, { 15, 0 } }; setitimer(ITIMER_PROF, &it, NULL);
    ch_start_list(p, n); reset_run(); g_sim->run(); _exit(0);
  }
  int st = 0; waitpid(c, &st, 0); destroyed(st);
  if (!S->violated) return 0;
  if (sig && strcmp(sig, S->violSig) != 0) return 0;
  return 1;
}

static int minimise(const char *in, const char *out)
{
  size_t n; uint32_t *l = load_list(in, &n); uint32_t *t = malloc(sizeof(uint32_t) * (n + 1));
  char sig[160]; double start = now_s(), budget = 45; int evals = 0;
  g_seed = S->seed = 0;
  if (!eval_list(l, n, NULL)) { fprintf(stderr, "minimise: does not reproduce\n"); return 2; }
  snprintf(sig, sizeof sig, "%s", S->violSig);
  if (S->n < n) n = S->n; /* unread tail */
#define OUT_OF_TIME (now_s() - start > budget || evals > 6000)
  for (int pass = 0; pass < 6 && !OUT_OF_TIME; pass++)
  {
    int progress = 0;
    /* shorten the tail */
    size_t lo = 0, hi = n;
    while (lo < hi && !OUT_OF_TIME) { size_t m = (lo + hi) / 2; evals++; if (eval_list(l, m, sig)) hi = m; else lo = m + 1; }
    if (hi < n) { evals++; if (eval_list(l, hi, sig)) { n = hi; progress = 1; } }
    /* delete chunks */
    for (size_t c = n / 2; c >= 1 && !OUT_OF_TIME; c /= 2)
    {
      for (size_t i = 0; i + c <= n && !OUT_OF_TIME;)
      {
        memcpy(t, l, i * 4); memcpy(t + i, l + i + c, (n - i - c) * 4); evals++;
        if (eval_list(t, n - c, sig)) { memcpy(l, t, (n - c) * 4); n -= c; progress = 1; } else i += c;
      }
      if (c > 64 && c < n / 8) { /* keep the number of attempts bounded on long lists */ }
    }
    /* zero chunks */
    for (size_t c = n / 2; c >= 1 && !OUT_OF_TIME; c /= 2)
      for (size_t i = 0; i + c <= n && !OUT_OF_TIME; i += c)
      {
        int any = 0; for (size_t k = i; k < i + c; k++) any |= l[k] != 0;
        if (!any) continue;
        memcpy(t, l, n * 4); memset(t + i, 0, c * 4); evals++;
        if (eval_list(t, n, sig)) { memcpy(l, t, n * 4); progress = 1; }
      }
    /* lower single values */
    for (size_t i = 0; i < n && !OUT_OF_TIME; i++)
    {
      if (l[i] == 0) continue;
      memcpy(t, l, n * 4); uint32_t a = 0, b = l[i];
      while (a < b && !OUT_OF_TIME) { uint32_t m = a + (b - a) / 2; t[i] = m; evals++; if (eval_list(t, n, sig)) b = m; else a = m + 1; }
      if (b < l[i]) { t[i] = b; evals++; if (eval_list(t, n, sig)) { l[i] = b; progress = 1; } }
    }
    if (!progress) break;
  }
  /* final evaluation with a readable trace */
  g_verbose = 1;
  if (!eval_list(l, n, sig)) { fprintf(stderr, "minimise: lost the violation\n"); return 2; }
  uint64_t rn = S->n; (void)rn; 
  memcpy(S->rec, l, n * 4); S->n = n;
  g_violFile = out; write_viol();
  printf("minimised to %zu choices in %d evaluations\n", n, evals);
  return 0;
}

int core_main(int argc, char **argv)
{
  { /* the same addresses in every process, where the system lets us */
    int per = personality(0xffffffffUL);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_FIXED_ADDR")) { setenv("SIM_FIXED_ADDR", "1", 1); if (personality((unsigned long)per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  }
  g_reportFd = dup(1);
  const char *simName = NULL, *stats = NULL, *replay = NULL, *minIn = NULL, *minOut = NULL;
  uint64_t seed0 = 1, stride = 1, maxRuns = 100; double maxTime = 1e9; int one = 0;
  for (int i = 1; i < argc; i++)
  {
    if (!strcmp(argv[i], "--sim")) simName = argv[++i];
    else if (!strcmp(argv[i], "--prop")) g_prop = argv[++i];
    else if (!strcmp(argv[i], "--seed0")) seed0 = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--stride")) stride = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--runs")) maxRuns = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--time")) maxTime = atof(argv[++i]);
    else if (!strcmp(argv[i], "--stats")) stats = argv[++i];
    else if (!strcmp(argv[i], "--viol")) g_violFile = argv[++i];
    else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
    else if (!strcmp(argv[i], "--one")) { one = 1; seed0 = strtoull(argv[++i], 0, 10); }
    else if (!strcmp(argv[i], "--minimise")) { minIn = argv[++i]; minOut = argv[++i]; }
    else if (!strcmp(argv[i], "-v")) g_verbose = 1;
    else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
  }
  S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); return 2; }
  for (int i = 0; g_sims[i]; i++) if (simName && !strcmp(g_sims[i]->name, simName)) g_sim = g_sims[i];
  if (!g_sim) { fprintf(stderr, "unknown sim\n"); return 2; }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (!minIn)
  { /* everything below runs in a child; this process only watches it */
    pid_t c = fork();
    if (c < 0) { perror("fork"); return 2; }
    if (c)
    {
      int st = 0; while (waitpid(c, &st, 0) < 0) {}
      destroyed(st);
      if (S->violated) { report_viol(); return 10; }
      return WIFEXITED(st) ? WEXITSTATUS(st) : 2;
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
  }
  install_signals();
  g_sim->init();

  if (minIn) return minimise(minIn, minOut);
  if (replay)
  {
    size_t n; uint32_t *l = load_list(replay, &n);
    if (!g_violFile) g_violFile = NULL;
    arm_watchdog(); ch_start_list(l, n); reset_run(); g_sim->run();
    printf("OK hist=%016llx choices=%llu\n", (unsigned long long)S->hist, (unsigned long long)S->n);
    if (g_verbose) fputs(S->trace, stdout);
    return 0;
  }
  if (one)
  {
    arm_watchdog(); g_seed = S->seed = seed0; ch_start_seed(seed0); reset_run(); g_sim->run();
    printf("OK hist=%016llx choices=%llu\n", (unsigned long long)S->hist, (unsigned long long)S->n);
    if (g_verbose) fputs(S->trace, stdout);
    return 0;
  }
  double start = now_s(); uint64_t runs = 0, seed = seed0;
  for (; runs < maxRuns; runs++, seed += stride)
  {
    if ((runs & 15) == 0) { arm_watchdog(); if (now_s() - start > maxTime) break; }
    /* stats must survive a violation in this process: dump periodically is not needed, python reads viol file */
    g_seed = S->seed = seed; ch_start_seed(seed); reset_run(); g_sim->run();
    S->simNs += g_sim_ns; g_sim_ns = 0;
  }
  if (stats) dump_stats(stats, g_sim, runs, now_s() - start, seed);
  return 0;
}

/* OpenCL runtime simulation: the host code (rle8_ocl.c) is real, the kernels are real (compiled from the source text the
 * host code hands to the runtime, with clang's OpenCL C front end), the runtime and the device are simulated: handles with
 * reference counts, command queues whose commands execute at seeded later moments, work items that run in seeded order or
 * interleaved, device memory between guard pages with stale content, failing calls, failing commands, lost devices. */
#include "nodes.h"
#include "wraps.h"
#include "galloc.h"
#include <dlfcn.h>
#include <stdarg.h>
#include <fcntl.h>
#include <unistd.h>
#include <ucontext.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/wait.h>

typedef int32_t cl_int; typedef uint32_t cl_uint; typedef uint64_t cl_bits; typedef struct obj obj;
enum { T_PLATFORM = 1, T_DEVICE, T_CONTEXT, T_QUEUE, T_MEM, T_PROGRAM, T_KERNEL, T_EVENT };
static const char *const g_tn[] = { "?", "platform", "device", "context", "command queue", "buffer", "program", "kernel", "event" };
#define MAXARG 16
struct obj
{
  int type, refs; obj *ctx;
  uint8_t *mem; size_t memN; uint64_t flags;                 /* buffer */
  char *src; void *so; int built;                            /* program */
  void *fn; char name[64]; int nArg; obj *prog; struct { int set, isMem; uint32_t want; size_t size; uint64_t val; obj *m; } arg[MAXARG]; /* kernel */
  uint64_t props; int pendErr, lost;                         /* queue / context */
  int done, status; struct cmd *c;                           /* event */
};
enum { Q_WRITE, Q_READ, Q_KERNEL, Q_FILL, Q_COPY };
typedef struct cmd { int kind, live, nw; obj *q, *m, *m2, *k, *ev, *wait[8]; size_t off, off2, n; uint8_t *host; size_t gs[3], ls[3], go[3]; cl_uint dim; uint64_t av[MAXARG]; obj *am[MAXARG]; int nArg; uint8_t pat[16]; size_t patN; } cmd;
#define MAXOBJ 8192
#define MAXCMD 4096
static obj O[MAXOBJ]; static int nO; static cmd C[MAXCMD]; static int nC, pend;
static obj *g_plat[3], *g_dev; static int g_nPlat;

/* fault plan */
static struct { int mode; uint32_t at, len; int err; } F;
enum { F_NONE, F_CALL, F_OUTAGE, F_ALLOC, F_CMD, F_LOST, F_NOPLAT, F_NODEV, F_BUILD };
static uint32_t g_calls, g_allocs, g_cmds; static int g_met; static int g_delay, g_interleave;

#define MEMSLOTS 1024
#define MEMSZ (1u << 20)
static uint8_t *g_slot[MEMSLOTS]; static size_t g_slotN[MEMSLOTS]; static int nMem;
static node_t *N;
static bool (*f_init)(size_t, size_t, size_t); static void (*f_destroy)(void); static uint32_t (*f_dec)(const uint8_t *, uint32_t, uint8_t *, uint32_t);
static arena_t A_in, A_out; static uint8_t *g_blk, *g_cpu, *g_pad;

static void bad(const char *sig, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
static void bad(const char *sig, const char *fmt, ...) { char m[400]; va_list a; va_start(a, fmt); vsnprintf(m, sizeof m, fmt, a); va_end(a); violation(sig, "%s (%s)", m, g_op); }

static obj *mk(int type, obj *ctx) { if (nO >= MAXOBJ) bad("runaway", "more than %d OpenCL objects are created in one run", MAXOBJ); obj *o = &O[nO++]; memset(o, 0, sizeof *o); o->type = type; o->refs = 1; o->ctx = ctx; return o; }
static obj *ck(void *h, int type, const char *fn)
{
  obj *o = h; char sg[128];
  if ((uint8_t *)o < (uint8_t *)O || o >= O + nO || ((uint8_t *)o - (uint8_t *)O) % (ptrdiff_t)sizeof(obj) || o->type != type) bad((snprintf(sg, sizeof sg, "invalid-handle %s %s", fn, g_tn[type]), sg), "%s is called with something that is not a %s", fn, g_tn[type]);
  if (o->refs <= 0) bad((snprintf(sg, sizeof sg, "released-handle %s %s", fn, g_tn[type]), sg), "%s is called with a %s that was already released", fn, g_tn[type]);
  return o;
}

/* ---- faults and progress at every runtime call ---- */
static void exec_one(int i);
static void progress(void) { if (pend && g_delay && ch_p(1, (uint32_t)g_delay)) { int k = 1 + (int)ch(3); for (int i = 0; i < nC && k > 0 && pend; i++) if (C[i].live) { exec_one(i); k--; } } }
static cl_int enter(const char *fn, const cl_int *errs, int nErr)
{
  (void)fn; g_calls++; progress();
  int hit = (F.mode == F_CALL && g_calls == F.at) || (F.mode == F_OUTAGE && g_calls >= F.at && g_calls < F.at + F.len);
  if (!hit) return 0;
  cl_int e = errs[(uint32_t)F.err % (uint32_t)nErr]; g_met++; stat_add(F.mode == F_CALL ? "fault:runtime-call-fails" : "fault:runtime-outage", 1);
  tr("    %s fails with %d", fn, e); hist_u64((uint64_t)(uint32_t)e << 20 | g_calls); return e;
}
#define ENTER(fn, ...) static const cl_int errs_[] = { __VA_ARGS__ }; cl_int e_ = enter(fn, errs_, (int)(sizeof errs_ / sizeof *errs_))
enum { OOR = -5, OOHM = -6, OOA = -4, INVQ = -36, NODEV = -1, BUILDF = -11, DNA = -2, CNA = -3, INVV = -30 };
#define RETP(v) do { if (pe) *pe = (v); return NULL; } while (0)

/* ---- commands ---- */
static cmd *push(int kind, obj *q, const cl_uint nw, void *const *w, void **ev)
{
  int i; for (i = 0; i < nC; i++) if (!C[i].live && !pend) break;
  if (!pend) { nC = 0; }
  if (nC >= MAXCMD) bad("runaway", "more than %d commands are queued without waiting for any", MAXCMD);
  cmd *c = &C[nC++]; memset(c, 0, sizeof *c); c->kind = kind; c->q = q; c->live = 1; pend++;
  for (cl_uint k = 0; k < nw && k < 8; k++) c->wait[c->nw++] = ck(w[k], T_EVENT, "enqueue (wait list)");
  if (ev) { obj *e = mk(T_EVENT, q->ctx); e->c = c; c->ev = e; *ev = e; }
  return c;
}
static void run_kernel(cmd *c);
static void exec_one(int i)
{
  if ((C[i].q->props & 1) && pend > 1) { int k = (int)ch((uint32_t)nC); while (!C[k].live) k = (k + 1) % nC; i = k; } /* out-of-order queue */
  for (int w = 0; w < C[i].nw; w++) if (!C[i].wait[w]->done) for (int k = 0; k < nC; k++) if (C[k].live && C[k].ev == C[i].wait[w]) exec_one(k);
  if (!C[i].live) return;
  cmd *c = &C[i]; c->live = 0; pend--; g_cmds++;
  int st = 0;
  if (c->q->ctx->lost || c->q->pendErr) st = INVQ; /* what was queued behind a failed command is dropped */
  else if (F.mode == F_CMD && g_cmds == F.at) { st = OOR; g_met++; stat_add("fault:queued-command-fails", 1); tr("    queued command %u fails while executing", g_cmds); }
  else if (F.mode == F_LOST && g_cmds == F.at) { st = OOR; g_met++; c->q->ctx->lost = 1; stat_add("fault:device-lost", 1); tr("    device lost at queued command %u", g_cmds); }
  if (st) { if (!c->q->pendErr) c->q->pendErr = st; if (c->kind == Q_READ) for (size_t k = 0; k < c->n; k += 7) c->host[k] ^= 0x5A; if (c->kind == Q_WRITE) memset(c->m->mem + c->off, 0xEE, c->n / 2); hist_u64(0xBAD0000 + g_cmds); }
  else switch (c->kind)
  {
    case Q_WRITE: memcpy(c->m->mem + c->off, c->host, c->n); break;
    case Q_READ: memcpy(c->host, c->m->mem + c->off, c->n); break;
    case Q_FILL: for (size_t k = 0; k < c->n; k++) c->m->mem[c->off + k] = c->pat[k % c->patN]; break;
    case Q_COPY: memcpy(c->m2->mem + c->off2, c->m->mem + c->off, c->n); break;
    case Q_KERNEL: run_kernel(c); break;
  }
  if (c->ev) { c->ev->done = 1; c->ev->status = st; }
}
static int drain(obj *q)
{
  for (int i = 0; i < nC; i++) if (C[i].live && C[i].q == q) { exec_one(i); i = -1; }
  int e = q->pendErr; q->pendErr = 0; if (q->ctx->lost) e = INVQ; return e;
}
/* a runtime call that failed to finish has given up on everything that was queued */
static void abandon(obj *q) { for (int i = 0; i < nC; i++) if (C[i].live && C[i].q == q) { C[i].live = 0; pend--; if (C[i].ev) { C[i].ev->done = 1; C[i].ev->status = INVQ; } } }

/* ---- work items ---- */
typedef struct { ucontext_t u; uint8_t *stk; int done; size_t gid[3], lid[3], grp[3]; } item;
#define MAXITEM 512
static item I[MAXITEM]; static ucontext_t g_main; static int g_cur = -1, nI; static cmd *g_kc; static uint32_t g_slice; static int g_switches;
int g_kernel_active; static size_t g_ngrp[3];
static void tramp(void)
{
  cmd *c = g_kc; uint64_t *v = c->av;
  ((void (*)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t))c->k->fn)(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]);
  I[g_cur].done = 1; swapcontext(&I[g_cur].u, &g_main);
}
void kernel_step(void)
{
  if (!g_interleave || g_switches <= 0 || g_slice-- > 0) return;
  g_switches--; int m = g_cur; swapcontext(&I[m].u, &g_main);
}
/* kernels may not write to buffers that were created read-only */
static void ro_args(cmd *c, int on)
{
  for (int i = 0; i < c->nArg; i++) if (c->am[i] && (c->am[i]->flags & 7) == 4) { uintptr_t a = (uintptr_t)c->am[i]->mem & ~(uintptr_t)4095, e = ((uintptr_t)c->am[i]->mem + c->am[i]->memN + 4095) & ~(uintptr_t)4095; mprotect((void *)a, e - a, on ? PROT_READ : PROT_READ | PROT_WRITE); }
}
static void run_kernel(cmd *c)
{
  size_t tot = 1; for (cl_uint d = 0; d < 3; d++) { if (d >= c->dim) { c->gs[d] = c->ls[d] = 1; } tot *= c->gs[d]; g_ngrp[d] = c->gs[d] / c->ls[d]; }
  if (tot > MAXITEM) bad("too-many-items", "%zu work items are requested", tot);
  static int order[MAXITEM]; nI = (int)tot; g_kc = c; int left = nI; g_kernel_active = 1; stat_add("ops:kernel-launches", 1); stat_add("ops:work-items", tot);
  for (int i = 0; i < nI; i++)
  {
    size_t r = (size_t)i; for (int d = 0; d < 3; d++) { size_t x = r % c->gs[d]; r /= c->gs[d]; I[i].gid[d] = x + c->go[d]; I[i].lid[d] = x % c->ls[d]; I[i].grp[d] = x / c->ls[d]; }
    if (!I[i].stk) I[i].stk = mmap(NULL, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    I[i].done = 0; order[i] = i;
  }
  int perm = (int)ch(3); prng_t p = { ch(0x7fffffff) };
  if (perm == 1) for (int i = nI - 1; i > 0; i--) { int j = (int)(prng_next(&p) % (uint64_t)(i + 1)); int t = order[i]; order[i] = order[j]; order[j] = t; }
  if (perm == 2) for (int i = 0; i < nI / 2; i++) { int t = order[i]; order[i] = order[nI - 1 - i]; order[nI - 1 - i] = t; }
  ro_args(c, 1);
  uint64_t sh = 7; static uint8_t started[MAXITEM]; memset(started, 0, sizeof started);
  g_switches = g_interleave ? 400 : 0;
  while (left)
  {
    int i = g_interleave && g_switches > 0 ? order[prng_next(&p) % (uint64_t)nI] : -1;
    if (i < 0 || I[i].done) { i = -1; for (int k = 0; k < nI && i < 0; k++) if (!I[order[k]].done) i = order[k]; }
    if (!started[i]) { getcontext(&I[i].u); I[i].u.uc_stack.ss_sp = I[i].stk; I[i].u.uc_stack.ss_size = 65536; I[i].u.uc_link = &g_main; makecontext(&I[i].u, tramp, 0); started[i] = 1; }
    g_slice = (uint32_t)(prng_next(&p) % 200); g_cur = i; swapcontext(&g_main, &I[i].u); sh = sh * 31 + (uint64_t)i;
    if (I[i].done) left--;
  }
  ro_args(c, 0);
  g_kernel_active = 0; g_cur = -1; hist_u64(sh); if (g_interleave) stat_add("fault:work-items-interleaved", 1); if (perm) stat_add("fault:work-items-reordered", 1);
  distinct_state(sh);
}
size_t cl_gid(uint32_t) __asm__("_Z13get_global_idj"); size_t cl_gid(uint32_t d) { return d < 3 ? I[g_cur].gid[d] : 0; }
size_t cl_lid(uint32_t) __asm__("_Z12get_local_idj"); size_t cl_lid(uint32_t d) { return d < 3 ? I[g_cur].lid[d] : 0; }
size_t cl_grp(uint32_t) __asm__("_Z12get_group_idj"); size_t cl_grp(uint32_t d) { return d < 3 ? I[g_cur].grp[d] : 0; }
size_t cl_gsz(uint32_t) __asm__("_Z15get_global_sizej"); size_t cl_gsz(uint32_t d) { return d < 3 ? g_kc->gs[d] : 1; }
size_t cl_lsz(uint32_t) __asm__("_Z14get_local_sizej"); size_t cl_lsz(uint32_t d) { return d < 3 ? g_kc->ls[d] : 1; }
size_t cl_ngr(uint32_t) __asm__("_Z14get_num_groupsj"); size_t cl_ngr(uint32_t d) { return d < 3 ? g_ngrp[d] : 1; }
size_t cl_gof(uint32_t) __asm__("_Z17get_global_offsetj"); size_t cl_gof(uint32_t d) { return d < 3 ? g_kc->go[d] : 0; }
uint32_t cl_dim(void) __asm__("_Z12get_work_dimv"); uint32_t cl_dim(void) { return g_kc->dim; }

/* ---- the OpenCL C compiler of the simulated runtime ---- */
static void *compile(const char *src, const char *opt)
{
  static struct { uint64_t h; void *so; } cache[16]; static int nc; uint64_t h = hash_mem(src, strlen(src), 1) ^ (opt ? hash_mem(opt, strlen(opt), 2) : 0);
  for (int i = 0; i < nc; i++) if (cache[i].h == h) return cache[i].so;
  char so[600], cl[600], tmp[600], lk[600]; snprintf(so, sizeof so, "%s/kern_%016llx.so", g_buildDir, (unsigned long long)h); snprintf(cl, sizeof cl, "%s/kern_%016llx.cl", g_buildDir, (unsigned long long)h);
  snprintf(tmp, sizeof tmp, "%s/kern_%016llx.tmp", g_buildDir, (unsigned long long)h); snprintf(lk, sizeof lk, "%s/kern.lock", g_buildDir);
  int fd = open(lk, O_CREAT | O_RDWR, 0644); if (fd < 0) { perror("HARNESS: kern.lock"); exit(2); } flock(fd, LOCK_EX);
  if (access(so, R_OK))
  {
    FILE *f = fopen(cl, "w"); if (!f) { perror("HARNESS: kernel file"); exit(2); }
    fputs(src, f); fputs("\n#define SIM_O __attribute__((overloadable))\n#define SIM_MM(T) T SIM_O min(T a, T b) { return a < b ? a : b; } T SIM_O max(T a, T b) { return a > b ? a : b; } T SIM_O clamp(T x, T a, T b) { return x < a ? a : x > b ? b : x; }\nSIM_MM(char) SIM_MM(uchar) SIM_MM(short) SIM_MM(ushort) SIM_MM(int) SIM_MM(uint) SIM_MM(long) SIM_MM(ulong)\n", f); fclose(f);
    char cmdl[4000]; snprintf(cmdl, sizeof cmdl, "clang -w -x cl -cl-std=CL1.2 -Xclang -finclude-default-header -target x86_64-linux-gnu -fPIC -O1 -fno-vectorize -fno-slp-vectorize -fsanitize-coverage=trace-pc-guard %s -shared -o '%s' '%s' 2>'%s.log' && mv '%s' '%s'", opt ? opt : "", tmp, cl, so, tmp, so);
    int rc = system(cmdl); (void)rc;
  }
  flock(fd, LOCK_UN); close(fd);
  void *p = access(so, R_OK) ? NULL : dlopen(so, RTLD_LAZY | RTLD_LOCAL);
  if (nc < 16) { cache[nc].h = h; cache[nc].so = p; nc++; }
  return p;
}

/* ---- the API ---- */
cl_int clGetPlatformIDs(cl_uint n, void **p, cl_uint *pn)
{
  ENTER("clGetPlatformIDs", OOHM, -1001); if (e_) return e_;
  if (F.mode == F_NOPLAT) { g_met++; stat_add("fault:no-platform", 1); if (F.err & 1) { if (pn) *pn = 0; return F.err & 2 ? -1001 : 0; } return -1001; }
  if ((n == 0 && p) || (!p && !pn)) return INVV;
  if (pn) *pn = (cl_uint)g_nPlat;
  if (p) for (cl_uint i = 0; i < n && i < (cl_uint)g_nPlat; i++) p[i] = g_plat[i];
  return 0;
}
cl_int clGetDeviceIDs(void *pl, cl_bits type, cl_uint n, void **d, cl_uint *pn)
{
  if (pl) ck(pl, T_PLATFORM, "clGetDeviceIDs");
  (void)type; ENTER("clGetDeviceIDs", OOR, OOHM, -1, INVV); if (e_) return e_;
  if (F.mode == F_NODEV) { g_met++; stat_add("fault:no-device", 1); if (pn) *pn = 0; return NODEV; }
  if ((n == 0 && d) || (!d && !pn)) return INVV;
  if (pn) *pn = 1;
  if (d) d[0] = g_dev;
  return 0;
}
cl_int clGetPlatformInfo(void *p, cl_uint w, size_t n, void *v, size_t *pn) { ck(p, T_PLATFORM, "clGetPlatformInfo"); (void)w; ENTER("clGetPlatformInfo", OOHM); if (e_) return e_; if (v && n >= 8) memcpy(v, "simplat", 8); if (pn) *pn = 8; return 0; }
cl_int clGetDeviceInfo(void *d, cl_uint w, size_t n, void *v, size_t *pn)
{ ck(d, T_DEVICE, "clGetDeviceInfo"); ENTER("clGetDeviceInfo", OOR, OOHM); if (e_) return e_; uint64_t x = w == 0x1004 ? 256 : w == 0x1002 ? 8 : 1u << 20; size_t s = n < 8 ? n : 8; if (v) memcpy(v, &x, s); if (pn) *pn = 8; return 0; }
void *clCreateContext(const intptr_t *pr, cl_uint n, void *const *d, void *cb, void *ud, cl_int *pe)
{ (void)pr; (void)cb; (void)ud; ENTER("clCreateContext", DNA, OOR, OOHM); if (e_) RETP(e_); if (!n || !d) RETP(INVV); for (cl_uint i = 0; i < n; i++) ck(d[i], T_DEVICE, "clCreateContext"); if (pe) *pe = 0; return mk(T_CONTEXT, NULL); }
void *clCreateCommandQueue(void *c, void *d, cl_bits props, cl_int *pe)
{ obj *x = ck(c, T_CONTEXT, "clCreateCommandQueue"); ck(d, T_DEVICE, "clCreateCommandQueue"); ENTER("clCreateCommandQueue", OOR, OOHM); if (e_) RETP(e_); if (pe) *pe = 0; obj *o = mk(T_QUEUE, x); o->props = props; return o; }
void *clCreateCommandQueueWithProperties(void *c, void *d, const uint64_t *pr, cl_int *pe) { uint64_t v = 0; for (; pr && pr[0]; pr += 2) if (pr[0] == 0x1093) v = pr[1]; return clCreateCommandQueue(c, d, v, pe); }
void *clCreateBuffer(void *c, cl_bits fl, size_t n, void *host, cl_int *pe)
{
  obj *x = ck(c, T_CONTEXT, "clCreateBuffer"); ENTER("clCreateBuffer", OOA, OOR, OOHM); if (e_) RETP(e_);
  if (n == 0 || n > MEMSZ - 8192) RETP(-61);
  if ((fl & 7) == 3 || (fl & 7) == 5 || (fl & 7) == 6 || (fl & 7) == 7) RETP(INVV);
  if (!(fl & 0x28) != !host) RETP(-37);
  if (nMem >= MEMSLOTS) bad("runaway", "more than %d buffers are created", MEMSLOTS);
  int i = nMem++; if (!g_slot[i]) { g_slot[i] = mmap(NULL, MEMSZ + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); g_slot[i] += 4096; }
  size_t u = (n + 4095) & ~(size_t)4095; mprotect(g_slot[i] + MEMSZ - u, u, PROT_READ | PROT_WRITE); g_slotN[i] = u;
  obj *o = mk(T_MEM, x); o->mem = g_slot[i] + MEMSZ - n; if (ch_p(1, 4)) o->mem = g_slot[i] + MEMSZ - u; o->memN = n; o->flags = fl;
  prng_t p = { ch(0x7fffffff) }; for (size_t k = 0; k < n; k++) o->mem[k] = (uint8_t)(prng_next(&p) >> 20); /* stale device memory */
  if ((fl & 0x28) && host) memcpy(o->mem, host, n);
  if (pe) *pe = 0;
  return o;
}
void *clCreateProgramWithSource(void *c, cl_uint n, const char **s, const size_t *len, cl_int *pe)
{
  obj *x = ck(c, T_CONTEXT, "clCreateProgramWithSource"); ENTER("clCreateProgramWithSource", OOR, OOHM); if (e_) RETP(e_);
  size_t t = 0; for (cl_uint i = 0; i < n; i++) t += len && len[i] ? len[i] : strlen(s[i]);
  obj *o = mk(T_PROGRAM, x); o->src = malloc(t + 1); t = 0; for (cl_uint i = 0; i < n; i++) { size_t l = len && len[i] ? len[i] : strlen(s[i]); memcpy(o->src + t, s[i], l); t += l; } o->src[t] = 0;
  if (pe) *pe = 0;
  return o;
}
cl_int clBuildProgram(void *p, cl_uint n, void *const *d, const char *opt, void *cb, void *ud)
{
  (void)cb; (void)ud; obj *o = ck(p, T_PROGRAM, "clBuildProgram"); for (cl_uint i = 0; i < n; i++) ck(d[i], T_DEVICE, "clBuildProgram");
  ENTER("clBuildProgram", BUILDF, CNA, OOR, OOHM); if (e_) return e_;
  if ((n == 0) != (d == NULL) || (!cb && ud)) return INVV;
  if (F.mode == F_BUILD) { g_met++; stat_add("fault:kernel-build-fails", 1); return BUILDF; }
  o->so = compile(o->src, opt); o->built = o->so != NULL; return o->built ? 0 : BUILDF;
}
cl_int clGetProgramBuildInfo(void *p, void *d, cl_uint w, size_t n, void *v, size_t *pn) { ck(p, T_PROGRAM, "clGetProgramBuildInfo"); (void)d; (void)w; ENTER("clGetProgramBuildInfo", OOR, OOHM); if (e_) return e_; if (v && n) memset(v, 0, n); if (pn) *pn = 1; return 0; }
static void parse_args(obj *k, const char *src)
{
  /* parameter list of the kernel definition: buffers are global pointers, everything else is passed by value */
  const char *s = src; size_t l = strlen(k->name); k->nArg = -1;
  while ((s = strstr(s, k->name))) { const char *e = s + l; char b = s > src ? s[-1] : ' '; while (*e == ' ' || *e == '\n') e++; if (*e == '(' && !(b == '_' || (b >= '0' && b <= '9') || (b >= 'a' && b <= 'z') || (b >= 'A' && b <= 'Z'))) { s = e + 1; break; } s += l; }
  if (!s) return;
  int n = 0; const char *a = s; int any = 0;
  for (;; s++)
  {
    if (*s && *s != ',' && *s != ')') { if (*s != ' ' && *s != '\n') any = 1; continue; }
    if (!*s) return;
    if (any && n < MAXARG)
    {
      char t[256]; size_t q = (size_t)(s - a); if (q > 255) q = 255; memcpy(t, a, q); t[q] = 0; k->arg[n].isMem = strchr(t, '*') != NULL; k->arg[n].want = 0;
      static const struct { const char *n; uint32_t s; } ty[] = { { "uchar", 1 }, { "ushort", 2 }, { "uint", 4 }, { "ulong", 8 }, { "char", 1 }, { "short", 2 }, { "int", 4 }, { "long", 8 } };
      if (!k->arg[n].isMem) for (unsigned i = 0; i < 8; i++) { const char *f = strstr(t, ty[i].n); if (f && f[strlen(ty[i].n)] == ' ') { k->arg[n].want = ty[i].s; break; } }
      n++;
    }
    if (*s == ')') break;
    a = s + 1; any = 0;
  }
  k->nArg = n;
}
void *clCreateKernel(void *p, const char *name, cl_int *pe)
{
  obj *o = ck(p, T_PROGRAM, "clCreateKernel"); ENTER("clCreateKernel", -45, OOR, OOHM); if (e_) RETP(e_);
  if (!o->built) RETP(-45);
  void *f = dlsym(o->so, name); if (!f) RETP(-46);
  obj *k = mk(T_KERNEL, o->ctx); k->fn = f; k->prog = o; snprintf(k->name, sizeof k->name, "%s", name); parse_args(k, o->src); if (pe) *pe = 0; return k;
}
cl_int clSetKernelArg(void *kk, cl_uint i, size_t n, const void *v)
{
  obj *k = ck(kk, T_KERNEL, "clSetKernelArg"); ENTER("clSetKernelArg", OOR, OOHM); if (e_) return e_;
  if (i >= MAXARG || (k->nArg >= 0 && (int)i >= k->nArg)) return -49;
  if (k->arg[i].isMem) { if (n != 8) return -51; obj *m = *(obj *const *)v; if (m) ck(m, T_MEM, "clSetKernelArg (buffer)"); k->arg[i].m = m; }
  else { if (n > 8 || !v || (k->arg[i].want && n != k->arg[i].want)) return -51; uint64_t x = 0; memcpy(&x, v, n); k->arg[i].val = x; }
  k->arg[i].set = 1; k->arg[i].size = n; return 0;
}
static cl_int block(obj *q, int blocking) { if (!blocking) return 0; return drain(q); }
cl_int clEnqueueWriteBuffer(void *qq, void *mm, cl_uint bl, size_t off, size_t n, const void *p, cl_uint nw, void *const *w, void **ev)
{
  obj *q = ck(qq, T_QUEUE, "clEnqueueWriteBuffer"), *m = ck(mm, T_MEM, "clEnqueueWriteBuffer"); ENTER("clEnqueueWriteBuffer", OOA, OOR, OOHM, INVQ); if (e_) return e_;
  if (!p || off + n > m->memN || n == 0) return INVV;
  if (q->ctx->lost) return INVQ;
  cmd *c = push(Q_WRITE, q, nw, w, ev); c->m = m; c->off = off; c->n = n; c->host = (uint8_t *)(uintptr_t)p; return block(q, (int)bl);
}
cl_int clEnqueueReadBuffer(void *qq, void *mm, cl_uint bl, size_t off, size_t n, void *p, cl_uint nw, void *const *w, void **ev)
{
  obj *q = ck(qq, T_QUEUE, "clEnqueueReadBuffer"), *m = ck(mm, T_MEM, "clEnqueueReadBuffer"); ENTER("clEnqueueReadBuffer", OOA, OOR, OOHM, INVQ); if (e_) return e_;
  if (!p || off + n > m->memN || n == 0) return INVV;
  if (q->ctx->lost) return INVQ;
  cmd *c = push(Q_READ, q, nw, w, ev); c->m = m; c->off = off; c->n = n; c->host = p; return block(q, (int)bl);
}
cl_int clEnqueueFillBuffer(void *qq, void *mm, const void *pat, size_t pn, size_t off, size_t n, cl_uint nw, void *const *w, void **ev)
{
  obj *q = ck(qq, T_QUEUE, "clEnqueueFillBuffer"), *m = ck(mm, T_MEM, "clEnqueueFillBuffer"); ENTER("clEnqueueFillBuffer", OOA, OOR, OOHM); if (e_) return e_;
  if (off + n > m->memN || pn == 0 || pn > 16) return INVV;
  cmd *c = push(Q_FILL, q, nw, w, ev); c->m = m; c->off = off; c->n = n; memcpy(c->pat, pat, pn); c->patN = pn; return 0;
}
cl_int clEnqueueCopyBuffer(void *qq, void *a, void *b, size_t ao, size_t bo, size_t n, cl_uint nw, void *const *w, void **ev)
{
  obj *q = ck(qq, T_QUEUE, "clEnqueueCopyBuffer"), *m = ck(a, T_MEM, "clEnqueueCopyBuffer"), *m2 = ck(b, T_MEM, "clEnqueueCopyBuffer"); ENTER("clEnqueueCopyBuffer", OOA, OOR, OOHM); if (e_) return e_;
  if (ao + n > m->memN || bo + n > m2->memN) return INVV;
  cmd *c = push(Q_COPY, q, nw, w, ev); c->m = m; c->m2 = m2; c->off = ao; c->off2 = bo; c->n = n; return 0;
}
cl_int clEnqueueNDRangeKernel(void *qq, void *kk, cl_uint dim, const size_t *go, const size_t *gs, const size_t *ls, cl_uint nw, void *const *w, void **ev)
{
  obj *q = ck(qq, T_QUEUE, "clEnqueueNDRangeKernel"), *k = ck(kk, T_KERNEL, "clEnqueueNDRangeKernel"); ENTER("clEnqueueNDRangeKernel", OOR, OOHM, OOA, INVQ); if (e_) return e_;
  if (dim < 1 || dim > 3 || !gs) return -53;
  if (q->ctx->lost) return INVQ;
  size_t L = 1; for (cl_uint d = 0; d < dim; d++) { if (!gs[d]) return -63; if (ls) { if (!ls[d] || gs[d] % ls[d]) return -54; L *= ls[d]; } }
  if (L > 256) return -54;
  for (int i = 0; i < k->nArg; i++) { if (!k->arg[i].set) return -52; if (k->arg[i].isMem && k->arg[i].m) ck(k->arg[i].m, T_MEM, "clEnqueueNDRangeKernel (argument)"); }
  cmd *c = push(Q_KERNEL, q, nw, w, ev); c->k = k; c->dim = dim; c->nArg = k->nArg < 0 ? MAXARG : k->nArg;
  for (cl_uint d = 0; d < dim; d++)
  {
    c->gs[d] = gs[d]; c->go[d] = go ? go[d] : 0; c->ls[d] = ls ? ls[d] : 1;
    if (!ls && d == 0) { uint32_t t = 1 + ch(8); while (gs[0] % t) t--; c->ls[0] = t; } /* the runtime picks the group size */
  }
  for (int i = 0; i < c->nArg; i++) c->am[i] = k->arg[i].isMem ? k->arg[i].m : NULL;
  for (int i = 0; i < c->nArg; i++) c->av[i] = k->arg[i].isMem ? (uint64_t)(uintptr_t)(k->arg[i].m ? k->arg[i].m->mem : NULL) : k->arg[i].val;
  return 0;
}
cl_int clFlush(void *q) { ck(q, T_QUEUE, "clFlush"); ENTER("clFlush", OOR, OOHM); return e_; }
cl_int clFinish(void *qq) { obj *q = ck(qq, T_QUEUE, "clFinish"); ENTER("clFinish", OOR, OOHM, INVQ); if (e_) { abandon(q); return e_; } return drain(q); }
cl_int clWaitForEvents(cl_uint n, void *const *w)
{
  for (cl_uint i = 0; i < n; i++) ck(w[i], T_EVENT, "clWaitForEvents");
  ENTER("clWaitForEvents", OOR, OOHM); int bad_ = 0;
  for (cl_uint i = 0; i < n; i++) { obj *e = w[i]; for (int k = 0; k < nC && !e->done; k++) if (C[k].live && (C[k].ev == e || !(C[k].q->props & 1))) { exec_one(k); k = -1; } if (e->status) bad_ = 1; }
  return e_ ? e_ : bad_ ? -14 : 0;
}
cl_int clGetEventInfo(void *e, cl_uint w, size_t n, void *v, size_t *pn) { obj *o = ck(e, T_EVENT, "clGetEventInfo"); ENTER("clGetEventInfo", OOR, OOHM); if (e_) return e_; cl_int s = o->done ? o->status : 3; if (w == 0x11D3 && v && n >= 4) memcpy(v, &s, 4); if (pn) *pn = 4; return 0; }
static cl_int rel(void *h, int t, const char *fn) { obj *o = ck(h, t, fn); g_calls++; progress(); o->refs--; return 0; }
static cl_int ret(void *h, int t, const char *fn) { obj *o = ck(h, t, fn); o->refs++; return 0; }
cl_int clReleaseKernel(void *h) { return rel(h, T_KERNEL, "clReleaseKernel"); } cl_int clRetainKernel(void *h) { return ret(h, T_KERNEL, "clRetainKernel"); }
cl_int clReleaseProgram(void *h) { return rel(h, T_PROGRAM, "clReleaseProgram"); } cl_int clRetainProgram(void *h) { return ret(h, T_PROGRAM, "clRetainProgram"); }
cl_int clReleaseMemObject(void *h) { return rel(h, T_MEM, "clReleaseMemObject"); } cl_int clRetainMemObject(void *h) { return ret(h, T_MEM, "clRetainMemObject"); }
cl_int clReleaseCommandQueue(void *h) { return rel(h, T_QUEUE, "clReleaseCommandQueue"); } cl_int clRetainCommandQueue(void *h) { return ret(h, T_QUEUE, "clRetainCommandQueue"); }
cl_int clReleaseContext(void *h) { return rel(h, T_CONTEXT, "clReleaseContext"); } cl_int clRetainContext(void *h) { return ret(h, T_CONTEXT, "clRetainContext"); }
cl_int clReleaseEvent(void *h) { return rel(h, T_EVENT, "clReleaseEvent"); } cl_int clRetainEvent(void *h) { return ret(h, T_EVENT, "clRetainEvent"); }
cl_int clReleaseDevice(void *h) { ck(h, T_DEVICE, "clReleaseDevice"); return 0; } cl_int clRetainDevice(void *h) { ck(h, T_DEVICE, "clRetainDevice"); return 0; } /* root devices are not counted */
int __wrap_printf(const char *f, ...) { (void)f; return 0; } int __wrap_puts(const char *s) { (void)s; return 0; } int __wrap_putchar(int c) { return c; }

/* ---- environment of the host code ---- */
static int o_fail(size_t n) { (void)n; g_allocs++; if (F.mode == F_ALLOC && g_allocs == F.at) { g_met++; stat_add("fault:allocation-fails", 1); tr("    allocation %u fails", g_allocs); return 1; } return 0; }
static void o_free(void *p)
{
  size_t n = ga_size(p); for (int i = 0; i < nC; i++) if (C[i].live && C[i].host && C[i].host >= (uint8_t *)p && C[i].host < (uint8_t *)p + n) bad("freed-while-in-use", "memory that a queued transfer still uses is freed");
  ga_free(p);
}
static uint64_t g_clk; static uint64_t o_clock(int c) { (void)c; return g_clk += 1000; }
static env_t g_oenv = { .fail_alloc = o_fail, .alloc = ga_alloc, .release = o_free, .alloc_size = ga_size, .clock_ns = o_clock };

/* ---- workload ---- */
typedef struct { uint8_t *s; uint32_t n, len, sub; uint8_t *orig; char desc[64]; } stream;
static stream ST[3]; static int nST; static int g_inited, g_c11;
static void leak_check(void)
{
  for (int i = 0; i < nO; i++) if (O[i].type > T_DEVICE && O[i].refs > 0) { char sg[64]; bad((snprintf(sg, sizeof sg, "leak %s", g_tn[O[i].type]), sg), "a %s is never released", g_tn[O[i].type]); }
  if (ga_live()) bad("leak memory", "%d allocations are never freed", ga_live());
}
static void after_call(void)
{
  ga_check();
  for (int i = 0; i < nC; i++) if (C[i].live && C[i].host) bad("memory-left-in-use", "the runtime still uses memory of the caller or of the finished call (queued %s) after the call returned", C[i].kind == Q_READ ? "read" : "write");
}
static void do_init(size_t a, size_t b, size_t c, int healthy)
{
  op_set("rle8m_opencl_init"); g_met = 0; bool r = f_init(a, b, c); after_call(); tr("  init(%zu, %zu, %zu) -> %d", a, b, c, r); hist_u64(r);
  if (g_met && r) bad("success-despite-fault init", "rle8m_opencl_init reports success although a runtime call or allocation it made failed");
  if (!g_met && healthy && !r) bad("fails-when-healthy init", "rle8m_opencl_init(%zu, %zu, %zu) fails although nothing went wrong", a, b, c);
  stat_add("ops:init", 1); g_inited = r;
}
static void do_destroy(void) { op_set("rle8m_opencl_destroy"); g_met = 0; f_destroy(); after_call(); tr("  destroy"); leak_check(); stat_add("ops:destroy", 1); g_inited = 0; }
/* kind 0: complete stream, 1: torn, 2: followed by other bytes, 3: output too small, 4: missing buffer */
static void do_decode(stream *s, int kind, int healthy, int lost)
{
  uint32_t in = s->n, out = s->len; const char *kn = "";
  if (kind == 1) { in = ch_p(1, 2) ? ch(s->n < 16 ? s->n : 16) : ch(s->n); kn = " (torn)"; stat_add("fault:torn-transfer", 1); }
  if (kind == 2) { in = s->n + 1 + ch(300); kn = " (followed by other bytes)"; stat_add("fault:trailing-bytes-after-stream", 1); }
  if (kind == 3) { out = ch(s->len); kn = " (output too small)"; stat_add("fault:output-too-small", 1); }
  if (kind == 4) { kn = " (missing buffer)"; stat_add("fault:missing-buffer", 1); }
  if (kind == 0 && ch_p(1, 4)) out += ch(500);
  int torn = kind == 1;
  /* the input ends at an inaccessible page unless bytes follow in the receive buffer (torn: what was there before, often the complete stream) */
  uint8_t *ip; uint32_t room = torn && ch_p(1, 2) ? s->n + 64 : in;
  ip = A_in.rw + A_in.size - room; memset(ip, 0xD3, room); memcpy(ip, s->s, in < s->n ? in : s->n);
  if (torn && room > in) { uint32_t m = ch(4); if (m == 0) memcpy(ip + in, s->s + in, s->n - in); else if (m == 1) memset(ip + in, 0, room - in); else { prng_t p = { ch(0x7fffffff) }; for (uint32_t k = in; k < room; k++) ip[k] = (uint8_t)(prng_next(&p) >> 11); } }
  if (kind == 2) { prng_t p = { ch(0x7fffffff) }; for (uint32_t k = s->n; k < in; k++) ip[k] = (uint8_t)(prng_next(&p) >> 11); }
  const uint8_t *ro = A_in.ro + (ip - A_in.rw);
  uint8_t *op = A_out.rw + A_out.size - out - (ch_p(1, 2) ? 64 : 0); memset(A_out.rw + A_out.size - s->len - 4096, 0x77, s->len + 4096); uint8_t *lo = op - 32; 
  op_set("rle8m_opencl_decompress%s", kn); g_met = 0;
  uint32_t r = f_dec(kind == 4 && ch_p(1, 3) ? NULL : ro, kind == 4 && in && ch_p(1, 2) ? 0 : in, kind == 4 ? NULL : op, out); after_call();
  tr("  decode %s: %u of %u bytes, %u sections, %u bytes of output space%s -> %u", s->desc, in, s->n, s->sub, out, kn, r); hist_u64(r); stat_add("ops:decode", 1);
  for (uint32_t k = 0; k < 32; k++) if (lo[k] != 0x77) bad("write-outside", "rle8m_opencl_decompress wrote in front of its output buffer");
  for (uint8_t *q = op + (r ? r : out); q < A_out.rw + A_out.size; q++) if (*q != 0x77) bad("write-outside", "rle8m_opencl_decompress wrote behind its output");
  int expect = kind == 0 || kind == 2;
  /* reference: the CPU decoder on the same bytes */
  if (kind != 4) { memset(g_pad, 0xA9, in + 512); memcpy(g_pad, ip, room); node_t *sv = g_node; g_node = N; uint32_t cr = N->rle8m_decompress(g_pad, in, g_cpu, out); g_node = sv; if (!torn && cr != (expect ? s->len : 0)) bad("cpu-decoder", "the CPU decoder returns %u for this stream", cr); }
  if (r != 0 && r != s->len) bad("wrong-size", "rle8m_opencl_decompress returns %u for a block of %u bytes", r, s->len);
  if (r && !expect) bad("accepts-bad-call", "rle8m_opencl_decompress reports success%s", kn);
  if (r && memcmp(op, s->orig, s->len)) bad(g_met ? "success-with-wrong-data after-fault" : "success-with-wrong-data", "rle8m_opencl_decompress reports success but the data is wrong");
  if (r && g_met) bad("success-despite-fault decode", "rle8m_opencl_decompress reports success although a runtime call, queued command or allocation failed");
  if (expect && !r && !g_met && healthy && !lost) bad("fails-when-healthy decode", "rle8m_opencl_decompress fails although nothing went wrong: %u bytes, %u sections", s->len, s->sub);
  if (r) { distinct_add(hash_mem(s->s, s->n, 3) ^ hist_value()); hist_mem(op, r); }
}
static void reset_sim(void)
{
  for (int i = 0; i < nO; i++) if (O[i].src) { free(O[i].src); O[i].src = NULL; }
  for (int i = 0; i < nMem; i++) { madvise(g_slot[i] + MEMSZ - g_slotN[i], g_slotN[i], MADV_DONTNEED); mprotect(g_slot[i] + MEMSZ - g_slotN[i], g_slotN[i], PROT_NONE); }
  nO = nC = pend = nMem = 0; g_calls = g_allocs = g_cmds = 0; g_kernel_active = 0; g_cur = -1; g_inited = 0; memset(&F, 0, sizeof F);
  g_nPlat = 1 + (int)ch(3); for (int i = 0; i < g_nPlat; i++) g_plat[i] = mk(T_PLATFORM, NULL); g_dev = mk(T_DEVICE, NULL);
  ga_reset(ch(0x7fffffff));
}
static void arm(void)
{
  static const uint32_t w[] = { 0, 8, 3, 3, 3, 2, 1, 1, 1 }; F.mode = (int)ch_w(w, 9); F.err = (int)ch(4); F.len = 2 + ch(20);
  switch (F.mode) { case F_CALL: case F_OUTAGE: F.at = g_calls + 1 + ch(45); break; case F_ALLOC: F.at = g_allocs + 1 + ch(4); break; case F_CMD: case F_LOST: F.at = g_cmds + 1 + ch(8); break; default: F.at = 0; }
  tr("  armed fault kind %d at +%u", F.mode, F.at);
}
static int ctx_lost(void) { for (int i = 0; i < nO; i++) if (O[i].type == T_CONTEXT && O[i].refs > 0 && O[i].lost) return 1; return 0; }
static void any_op(int healthy)
{
  static const uint32_t w[] = { 10, 4, 2, 2 }; stream *s = &ST[ch((uint32_t)nST)];
  switch (ch_w(w, 4))
  {
    case 0: do_decode(s, 0, healthy, ctx_lost()); break;
    case 1: { size_t a = 1 + ch(3000), b = 1 + ch(6000), c = ch(40); if (ch_p(1, 3)) { a = s->n; b = s->len; c = s->sub; } do_init(a, b, c, healthy); break; }
    case 2: do_destroy(); break;
    default: do_decode(s, 1 + (int)ch(4), healthy, ctx_lost());
  }
}
static void ocl_run(void)
{
  g_c11 = !strcmp(g_prop, "C11"); reset_sim(); g_env = &g_oenv; g_node = N; node_restart(N);
  cpu_level(&N->cpu, (int)ch((uint32_t)cpu_host_max_level() + 1));
  nST = 1 + (int)ch(3); static uint8_t buf[3][40000], org[3][20000];
  for (int i = 0; i < nST; i++)
  {
    stream *s = &ST[i]; uint32_t len = gen_block(g_blk, ch_p(1, 6) ? 16000 : ch_p(1, 2) ? 300 : 3000, 1, s->desc, sizeof s->desc); if (len > 16000) len = 16000;
    uint32_t sub = ch_p(1, 4) ? 1 : 1 + ch(ch_p(1, 4) ? 300 : 24); if (sub > len) sub = len;
    memcpy(org[i], g_blk, len); s->orig = org[i]; s->len = len; s->sub = sub; s->s = buf[i];
    memset(g_pad, 0, len + 512); memcpy(g_pad, g_blk, len);
    s->n = N->rle8m_compress(sub, g_pad, len, buf[i], N->rle8m_compress_bounds(sub, len)); if (!s->n) bad("cpu-encoder", "rle8m_compress fails");
  }
  g_delay = ch_p(1, 3) ? 0 : 1 + (int)ch(8); g_interleave = ch_p(1, 3); if (g_delay != 1) stat_add("fault:queued-commands-delayed", 1);
  tr("%s: %d streams, delay %d, %s work items", g_prop, nST, g_delay, g_interleave ? "interleaved" : "sequential");
  int k = (int)ch_range(1, g_c11 ? 6 : 4); if (ch(200) == 199) { k = 10 + (int)ch(50); stat_add("ops:long-running-process", 1); }
  if (g_c11) while (k--) any_op(1);
  else
  {
    while (k--) { if (ch_p(2, 3)) arm(); else F.mode = F_NONE; any_op(F.mode == F_NONE); if (ch_p(1, 4)) any_op(F.mode == F_NONE); }
    /* the runtime is healthy again */
    F.mode = F_NONE; tr("  runtime healthy");
    if (ctx_lost() || ch_p(1, 2)) { do_destroy(); if (ch_p(1, 2)) do_destroy(); }
    if (ch_p(1, 3)) do_init(1 + ch(3000), 1 + ch(6000), ch(40), 1);
  }
  do_decode(&ST[ch((uint32_t)nST)], 0, 1, 0); do_decode(&ST[ch((uint32_t)nST)], 0, 1, 0);
  do_destroy(); g_env = NULL; g_node = NULL;
  if (g_seed % 1009 == 0) { char t[200]; snprintf(t, sizeof t, "%d streams, first: %s in %u sections, delay %d, interleaved %d", nST, ST[0].desc, ST[0].sub, g_delay, g_interleave); sample_add(t); }
}
static void ocl_init(void)
{
  N = node_load("lib_ocl.so", "ocl"); g_blk = malloc(1 << 18); g_cpu = malloc(1 << 18); g_pad = malloc(1 << 18); arena_make(&A_in, 1 << 16); arena_make(&A_out, 1 << 16);
  *(void **)&f_init = dlsym(N->h, "rle8m_opencl_init"); *(void **)&f_destroy = dlsym(N->h, "rle8m_opencl_destroy"); *(void **)&f_dec = dlsym(N->h, "rle8m_opencl_decompress");
  if (!f_init || !f_destroy || !f_dec) { fprintf(stderr, "HARNESS: OpenCL entry points missing\n"); exit(2); }
}
const sim_t sim_ocl = { "ocl", ocl_init, ocl_run, 0 };

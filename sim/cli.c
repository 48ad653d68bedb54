/* Command line tool simulation: the real main() (benchmark, --test, --analyze, --fuzz-*) runs against a
 * simulated disk, clock, heap, CPU and - for the faults - misbehaving codecs. */
#include "nodes.h"
#include "wraps.h"
#include "galloc.h"
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/types.h>

#define FILECAP (8u << 20)
static node_t *N;
static uint8_t *g_file; static uint32_t g_fileN;
static env_t g_cenv;
static sigjmp_buf g_exitJmp; static int g_exitCode, g_exitHow, g_outFd = -1, g_savedOut = -1;
static int P07, P08, P09, P17;
static int g_fired; static char g_faultName[96];
static void fire(const char *k) { char b[80]; g_fired++; snprintf(b, sizeof b, "fault:%s", k); stat_add(b, 1); if (g_fired == 1) snprintf(g_faultName, sizeof g_faultName, "%s", k); }

/* ---------------------------------------------------------------- simulated disk */
typedef struct { int writing; off_t pos; } cookie_t;
static cookie_t g_ck[8]; static FILE *g_open[8]; static int g_nOpen;
static int f_openFail, f_empty, f_seekFailAt, f_readErrAt, f_readEofAt, f_writeErrAt, f_chunk; static int g_seeks; static uint8_t *g_dump; static uint32_t g_dumpN; static int g_dumpOpened;
static ssize_t ck_read(void *c, char *b, size_t n)
{
  cookie_t *k = c; if (k->writing) { errno = EBADF; return -1; }
  if (f_readErrAt >= 0 && k->pos >= f_readErrAt) { fire("read-error"); errno = EIO; return -1; }
  size_t lim = f_empty ? 0 : g_fileN;
  if (f_readEofAt >= 0 && (size_t)f_readEofAt < lim) { if (k->pos >= f_readEofAt) { fire("file-shrank-short-read"); return 0; } lim = (size_t)f_readEofAt; }
  if ((size_t)k->pos >= lim) return 0;
  size_t a = lim - (size_t)k->pos; if (a > n) a = n;
  if (f_chunk && a > (size_t)f_chunk) { a = (size_t)f_chunk; stat_add("fault:partial-read", 1); }
  if (f_readErrAt >= 0 && k->pos + (off_t)a > f_readErrAt) a = (size_t)(f_readErrAt - k->pos);
  memcpy(b, g_file + k->pos, a); k->pos += (off_t)a; return (ssize_t)a;
}
static ssize_t ck_write(void *c, const char *b, size_t n)
{
  cookie_t *k = c; if (!k->writing) { errno = EBADF; return 0; }
  if (f_writeErrAt >= 0 && (int)g_dumpN >= f_writeErrAt) { stat_add("fault:disk-full", 1); errno = ENOSPC; return 0; }
  if (g_dumpN + n > (40u << 20)) return 0;
  memcpy(g_dump + g_dumpN, b, n); g_dumpN += (uint32_t)n; return (ssize_t)n;
}
static int ck_seek(void *c, off64_t *o, int w)
{
  cookie_t *k = c; g_seeks++;
  if (f_seekFailAt && g_seeks >= f_seekFailAt) { fire("seek-error"); errno = EIO; return -1; }
  off64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? k->pos : (f_empty ? 0 : (off64_t)g_fileN);
  k->pos = (off_t)(base + *o); *o = k->pos; return 0;
}
static int ck_close(void *c) { (void)c; return 0; }
static FILE *c_open(const char *p, const char *m)
{
  int w = strchr(m, 'w') || strchr(m, 'a');
  if (w) { if (f_openFail) { stat_add("fault:cannot-create-file", 1); errno = EACCES; return NULL; } g_dumpOpened++; g_dumpN = 0; }
  else if (f_openFail) { fire("open-fails"); errno = EACCES; return NULL; }
  if (strcmp(p, "input.bin") && !w) { errno = ENOENT; return NULL; }
  if (f_empty && !w) fire("empty-file");
  if (g_nOpen >= 8) return NULL;
  cookie_t *k = &g_ck[g_nOpen]; k->writing = w; k->pos = 0;
  cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  return g_open[g_nOpen++] = fopencookie(k, m, io);
}

/* ---------------------------------------------------------------- simulated heap, clock */
static int f_allocFailAt, g_allocs;
static int c_fail_alloc(size_t n) { (void)n; g_allocs++; if (f_allocFailAt && g_allocs == f_allocFailAt) { fire("allocation-fails"); return 1; } return 0; }
static uint64_t g_now, g_clockStep, g_maxSleep; static uint64_t g_clockReads, g_sleeps; static int f_clock; static uint64_t g_jumpBudgetNs; static int g_jumpsLeft;
static uint64_t g_elapsed; /* simulated time that really passed */
static uint64_t c_clock(int clk)
{
  (void)clk; g_clockReads++;
  uint64_t step = g_clockStep;
  if (f_clock && g_jumpsLeft > 0)
  {
    switch (ch(8))
    {
      case 0: case 1: case 2: break;
      case 3: step = 0; stat_add("fault:clock-stalls", 1); g_jumpsLeft--; break;
      case 4: { uint64_t j = (uint64_t)(1 + ch(400)) * 1000000000ULL; g_now += j; g_jumpBudgetNs += j; stat_add("fault:clock-jumps-forward", 1); g_jumpsLeft--; break; }
      case 5: { uint64_t j = (uint64_t)(1 + ch(400)) * 1000000000ULL; if (g_now > j + 1000000000ULL) { g_now -= j; g_jumpBudgetNs += j; stat_add("fault:clock-jumps-backward", 1); } g_jumpsLeft--; break; }
      case 6: step = step / 1000 + 1; stat_add("fault:clock-slow", 1); g_jumpsLeft--; break;
      case 7: step = step * (2 + ch(50)); stat_add("fault:clock-fast", 1); g_jumpsLeft--; break;
    }
  }
  g_now += step; g_elapsed += step; g_sim_ns += (double)step; return g_now;
}
static void c_sleep(uint64_t ns)
{
  g_sleeps++; if (ns > g_maxSleep) g_maxSleep = ns; g_now += ns; g_elapsed += ns; g_sim_ns += (double)ns;
  if (P08 && ns > 2000000000ULL + 1000) violation("sleeps-too-long", "the tool sleeps %.3f s at once", (double)ns / 1e9);
}

/* ---------------------------------------------------------------- codecs */
typedef struct { uint32_t nc, nd, lastRet, lastSize; uint64_t t0, t1, t2; } cstat_t; /* when compression and decompression began, and the next codec */
static cstat_t g_cs[256];
enum { CF_NONE, CF_COMP_ZERO, CF_COMP_SHORT, CF_DEC_ZERO, CF_DEC_SHORT, CF_DEC_LONG, CF_DEC_BIT, CF_DEC_NOWRITE, CF_DEC_TAIL, CF_COMP_CLAIM, CF_COUNT };
static const char *const g_cfName[] = { "none", "codec-refuses-to-compress", "codec-truncates-stream", "codec-refuses-to-decompress", "codec-reports-too-small-size", "codec-reports-too-large-size", "codec-restores-wrong-bit", "codec-writes-nothing", "codec-misses-last-bytes", "codec-claims-too-small-stream" };
static int cf_kind, cf_codec, cf_from, cf_once, g_real; static uint32_t cf_pos, cf_bit; static uint64_t g_calls, g_callBudget, g_callsAtFault; static uint32_t cf_input, g_inputs; static uint64_t g_inHash; static uint32_t g_inputsNew, g_inLen; static uint8_t *g_faultInput; static uint32_t g_faultInputN; static int g_wrongData;
static uint32_t g_runsWanted, g_minSec; static uint64_t g_loopLimit;

static void codec_check_args(int x, int isD, const uint8_t *i, uint32_t in, uint8_t *o, uint32_t on)
{
  size_t room; char sg[150]; const char *f = isD ? g_codecs[x].dname : g_codecs[x].cname;
  if (!P07) return;
  if (!ga_room(i, &room) || room < in) violation((snprintf(sg, sizeof sg, "tool-input-range %s", isD ? "decompress" : "compress"), sg), "the tool tells %s to read %u bytes, but the buffer has fewer", f, in);
  if (!ga_room(o, &room) || room < on) violation((snprintf(sg, sizeof sg, "tool-output-range %s", isD ? "decompress" : "compress"), sg), "the tool tells %s that there are %u bytes of space, but the buffer has only %zu", f, on, room);
  if (!isD && (in != g_fileN || memcmp(i, g_file, in))) violation("tool-input", "%s is given something else than the content of the file (%u of %u bytes)", f, in, g_fileN);
}

static int g_lastC, g_prevC;
static uint32_t c_codec(int x, int isD, const uint8_t *i, uint32_t in, uint8_t *o, uint32_t on)
{
  /* several encoders share a decoder: the call belongs to the codec that was encoded last */
  if (!isD) g_lastC = x; else if (!strcmp(g_codecs[g_lastC].dname, g_codecs[x].dname)) x = g_lastC;
  cstat_t *s = &g_cs[x]; uint32_t r; g_calls++;
  op_set("%s (called by the tool)", isD ? g_codecs[x].dname : g_codecs[x].cname);
  if (P09)
  {
    if (!isD) { uint64_t h = hash_mem(i, in, 3); if (x == 0) { g_inputs++; if (g_inputs > 1 && in != g_inLen) g_inputsNew++; g_inLen = in; g_inHash = h; } }
    if (g_callsAtFault && g_calls > g_callsAtFault + 2u * (unsigned)g_nCodecs) violation("fuzzer-missed", "the fuzzer went on after %s (%s), %u byte input, byte %u bit %u", g_faultName, g_codecs[cf_codec].cname, g_faultInputN, cf_pos, cf_bit);
    if (g_calls > g_callBudget) { g_exitHow = 9; siglongjmp(g_exitJmp, 1); }
  }
  else if (g_calls > g_loopLimit) violation("no-end", "the tool keeps on running codecs: %llu calls, %.1f s of simulated time, %u runs and %u s requested", (unsigned long long)g_calls, (double)g_elapsed / 1e9, g_runsWanted, g_minSec);
  codec_check_args(x, isD, i, in, o, on);
  if (g_codecs[x].kind == K_XFORM && (cf_kind || !g_real)) { static uint8_t t[2][512]; g_node = N; N->comp[x](t[0], 128, t[1], 512); } /* whatever goes wrong below does so after the codec looked at the CPU */
  int nth = (int)(isD ? s->nd : s->nc), hit = cf_kind && cf_codec == x && (P09 ? g_inputs == cf_input : cf_once ? nth == cf_from : nth >= cf_from);
  if (isD) { if (!s->nd) s->t1 = g_now; s->nd++; } else { if (!s->nc) { s->t0 = g_now; if (g_prevC >= 0) g_cs[g_prevC].t2 = g_now; g_prevC = x; } s->nc++; }
  if (hit && !isD && cf_kind == CF_COMP_ZERO) { fire(g_cfName[cf_kind]); g_callsAtFault = g_calls; return 0; }
  if (hit && isD && cf_kind == CF_DEC_ZERO) { fire(g_cfName[cf_kind]); g_callsAtFault = g_calls; return 0; }
  if (hit && isD && cf_kind == CF_DEC_NOWRITE && P09)
  { uint32_t k; for (k = 0; k < g_faultInputN; k++) if (g_faultInput[k]) break; if (k < g_faultInputN) { fire(g_cfName[cf_kind]); g_callsAtFault = g_calls; g_wrongData = 1; return g_faultInputN; } hit = 0; }
  if (hit && isD && cf_kind == CF_DEC_NOWRITE && !P09) { fire(g_cfName[cf_kind]); s->lastRet = g_fileN; return g_fileN; }
  if (!isD && P09 && hit) { memcpy(g_faultInput, i, in); g_faultInputN = in; }
  if (g_real || (P17)) { g_node = N; r = isD ? N->decomp[x](i, in, o, on) : N->comp[x](i, in, o, on); }
  else
  { /* a well-behaved stand-in: stores the block with its size */
    if (!isD) { if (on < in + 8) return 0; memcpy(o, &in, 4); memcpy(o + 4, &in, 4); memcpy(o + 8, i, in); r = in + 8; }
    else { uint32_t n; if (in < 8) return 0; memcpy(&n, i, 4); if ((n != in - 8 && !(cf_kind == CF_COMP_CLAIM && x == cf_codec)) || n > on) return 0; memcpy(o, i + 8, n); r = n; }
  }
  if (!hit || r == 0) { if (isD) s->lastRet = r; return r; }
  switch (cf_kind)
  {
    case CF_COMP_SHORT: if (!isD && r > 1) { r--; fire(g_cfName[cf_kind]); g_callsAtFault = g_calls; } break;
    case CF_COMP_CLAIM: if (!isD && r > 9) { uint32_t k = r - 8 < 40 ? r - 8 : 40; r -= 1 + cf_pos % k; fire(g_cfName[cf_kind]); g_callsAtFault = g_calls; g_wrongData = 1; } break; /* the decoder goes on reading behind what was stored */
    case CF_DEC_SHORT: if (isD && r > 1) { r--; fire(g_cfName[cf_kind]); g_callsAtFault = g_calls; } break;
    case CF_DEC_LONG: if (isD) { r++; fire(g_cfName[cf_kind]); g_callsAtFault = g_calls; } break;
    case CF_DEC_BIT: if (isD) { uint32_t p = cf_pos == 0xFFFFFFFFu ? r - 1 : cf_pos % r; o[p] ^= (uint8_t)(1u << cf_bit); cf_pos = p; fire(g_cfName[cf_kind]); g_callsAtFault = g_calls; g_wrongData = 1; } break;
    case CF_DEC_TAIL: if (isD) { uint32_t k = 1 + cf_pos % (r < 40 ? r : 40); int diff = 0; for (uint32_t q = r - k; q < r; q++) { uint8_t v = (uint8_t)(o[q] ^ (cf_bit & 1 ? 0xFF : 0x80)); diff |= v != o[q]; o[q] = v; } fire(g_cfName[cf_kind]); g_callsAtFault = g_calls; g_wrongData = 1; } break;
  }
  if (isD) s->lastRet = r;
  return r;
}

static void c_exit(int code, int how) { g_exitCode = code; g_exitHow = how ? 2 : 1; siglongjmp(g_exitJmp, 1); }

/* ---------------------------------------------------------------- which codecs do the arguments select (own reading of the usage text) */
typedef struct { int mode, align, single, packed, shortm, greedy, lut, bits; } sel_t; /* -1: not given */
static int sel_must(const sel_t *s, int x)
{
  const codec_desc *c = &g_codecs[x]; const char *n = c->cname; int rle = c->kind == K_RLE;
  int isSym = strstr(n, "_sym") && !strstr(n, "symlut_sym") ? 1 : strstr(n, "symlut_sym") ? 1 : 0, isByte = strstr(n, "_byte") != NULL;
  if (strstr(n, "rle8_")) isSym = 0;
  int single = strstr(n, "single") || strstr(n, "only_max"), packed = strstr(n, "packed") != NULL, sh = strstr(n, "short") != NULL, greedy = strstr(n, "greedy") != NULL;
  int lut = strstr(n, "1symlut") ? 1 : strstr(n, "3symlut") ? 3 : strstr(n, "7symlut") ? 7 : packed ? 1 : 0;
  if (s->mode >= 0) { static const int km[5][2] = { { K_RLE, K_RLE }, { K_LE, K_LES }, { K_XFORM, K_XFORM }, { K_SH, K_SH }, { K_RLEMMTF, K_RLEMMTF } }; if (c->kind != km[s->mode][0] && c->kind != km[s->mode][1]) return 0; }
  int plain = rle || c->kind == K_LE || c->kind == K_LES;
  if (s->align >= 0) { if (!rle) return 0; if (s->align ? !isByte : !isSym) return 0; }
  if (s->single >= 0) { if (!plain || single != s->single) return 0; }
  if (s->packed >= 0) { if (!rle || packed != s->packed) return 0; }
  if (s->shortm >= 0) { if (!plain || sh != s->shortm) return 0; }
  if (s->greedy >= 0) { if (!rle || greedy != s->greedy) return 0; }
  if (s->lut >= 0) { if (!rle || lut != s->lut) return 0; }
  if (s->bits >= 0) { if (!(plain || c->kind == K_XFORM) || c->sym * 8 != s->bits) return 0; }
  return 1;
}

static char g_argbuf[40][24]; static char *g_argv[44]; static int g_argc;
static void arg(const char *a) { snprintf(g_argbuf[g_argc], sizeof g_argbuf[0], "%s", a); g_argv[g_argc] = g_argbuf[g_argc]; g_argc++; }
static void argn(uint32_t n) { char b[16]; snprintf(b, sizeof b, "%u", n); arg(b); }
static void args_line(char *b, size_t n) { size_t k = 0; b[0] = 0; for (int i = 1; i < g_argc && k + 26 < n; i++) k += (size_t)snprintf(b + k, n - k, "%s ", g_argv[i]); }

static void pick_selection(sel_t *s)
{
  memset(s, -1, sizeof *s);
  if (ch_p(1, 3)) return; /* everything */
  int k = (int)ch_range(1, 3);
  while (k--)
  {
    switch (ch(8))
    {
      case 0: if (s->mode < 0) { static const char *const a[] = { "--extreme", "--low-entropy", "--mmtf", "--sh", "--rle-mmtf" }; uint32_t m = ch(5); if (s->bits >= 0 && (s->bits == 256 || m == 2 || m == 4)) break; if (s->single == 1 && s->bits >= 0 && s->bits != 8) break; s->mode = (int)m; arg(a[m]); } break;
      case 1: if (s->align < 0) { s->align = (int)ch(2); arg(s->align ? "--byte-aligned" : "--symbol-aligned"); } break;
      case 2: if (s->single < 0) { uint32_t v = ch(2); if (v && s->bits >= 0 && s->bits != 8) break; s->single = (int)v; arg(v ? "--single" : "--multi"); } break;
      case 3: if (s->packed < 0) { s->packed = (int)ch(2); arg(s->packed ? "--packed" : "--not-packed"); } break;
      case 4: if (s->shortm < 0) { s->shortm = (int)ch(2); arg(s->shortm ? "--short" : "--not-short"); } break;
      case 5: if (s->greedy < 0) { s->greedy = (int)ch(2); arg(s->greedy ? "--greedy" : "--not-greedy"); } break;
      case 6: if (s->lut < 0) { static const int v[] = { 0, 1, 3, 7 }; s->lut = v[ch(4)]; arg("--lut-size"); argn((uint32_t)s->lut); } break;
      case 7: if (s->bits < 0) { static const int v[] = { 8, 16, 24, 32, 48, 64, 128 }; int b = v[ch(7)]; if (s->mode == 2 || s->mode == 4 || (s->single == 1 && b != 8)) break; s->bits = b; arg("--x-size"); argn((uint32_t)b); } break;
    }
  }
}

/* what earlier code left on the stack */
static __attribute__((noinline)) void scrub_stack(uint8_t v) { volatile uint8_t b[384 * 1024]; memset((void *)b, v, sizeof b); __asm__ volatile("" :: "r"(b) : "memory"); }
static uint8_t g_stackJunk;
static int run_tool(void)
{
  memset(g_cs, 0, sizeof g_cs); g_lastC = 0; g_prevC = -1; g_fired = 0; g_faultName[0] = 0; g_seeks = 0; g_allocs = 0; g_nOpen = 0; g_dumpN = 0; g_dumpOpened = 0; g_calls = 0; g_callsAtFault = 0; g_inputs = 0; g_inputsNew = 0; g_inHash = 0; g_wrongData = 0; g_faultInputN = 0;
  g_clockReads = g_sleeps = g_maxSleep = 0; g_elapsed = 0; g_exitCode = 0; g_exitHow = 0; g_envCalls = 0;
  fflush(stdout); if (g_outFd >= 0) { if (ftruncate(g_outFd, 0)) {} lseek(g_outFd, 0, SEEK_SET); dup2(g_outFd, 1); }
  g_argv[g_argc] = NULL; node_restart(N); g_env = &g_cenv;
  int rc = 0; volatile int how = 0;
  if (!sigsetjmp(g_exitJmp, 1))
  {
    if (P09) { g_expect_crash = 1; if (sigsetjmp(g_crash_jmp, 1)) { how = 3; goto out; } }
    scrub_stack(g_stackJunk); g_node = N; rc = N->cli_main(g_argc, g_argv);
  }
  else { rc = g_exitCode; how = g_exitHow; }
out:
  g_expect_crash = 0; g_env = NULL; g_node = NULL; g_exitHow = how; g_exitCode = rc & 255;
  if (g_prevC >= 0) g_cs[g_prevC].t2 = g_now;
  fflush(stdout); dup2(g_savedOut, 1);
  for (int i = 0; i < g_nOpen; i++) (void)0; /* simulated files stay open at process end; unflushed data is lost, as on a real crash */
  return g_exitCode;
}

static void cli_init(void)
{
  P07 = !strcmp(g_prop, "C07"); P08 = !strcmp(g_prop, "C08"); P09 = !strcmp(g_prop, "C09"); P17 = !strcmp(g_prop, "C17");
  N = node_load("lib_clang_cli.so", "clang"); g_file = malloc(FILECAP); g_dump = malloc(41u << 20); g_faultInput = malloc(40u << 20);
  g_cenv.fail_alloc = c_fail_alloc; g_cenv.alloc = ga_alloc; g_cenv.release = ga_free; g_cenv.alloc_size = ga_size; g_cenv.open = c_open; g_cenv.clock_ns = c_clock; g_cenv.sleep_ns = c_sleep; g_cenv.codec = c_codec; g_cenv.do_exit = c_exit;
  fflush(stdout); g_savedOut = dup(1); g_outFd = memfd_create("out", 0);
}

static void faults_off(void) { f_openFail = f_empty = f_seekFailAt = f_chunk = f_allocFailAt = f_clock = 0; f_readErrAt = f_readEofAt = f_writeErrAt = -1; cf_kind = 0; cf_from = 0; cf_once = 0; }

static void max_simd(int lv)
{
  static const char *const nm[] = { "none", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f" };
  int top = lv >= LV_AVX512F ? 8 : lv + 1; arg("--max-simd"); arg(nm[ch((uint32_t)top + 1)]);
}

static int g_leak;
static void close_files(void) { for (int i = 0; i < g_nOpen; i++) (void)g_open[i]; g_nOpen = 0; }

static void run_bench(void)
{
  static const uint32_t lw[LV_COUNT] = { 2, 1, 2, 2, 1, 2, 8, 2, 2 }; char line[300], sg[150];
  int lv = (int)ch_w(lw, (uint32_t)cpu_host_max_level() + 1); cpu_level(&N->cpu, lv);
  faults_off(); ga_reset(ch(1u << 12)); g_stackJunk = (uint8_t)(ch(4) * 85);
  char bd[64]; uint32_t cap = P08 ? 300 : ch_p(1, 8) ? (ch_p(1, 200) ? 6u << 20 : ch_p(1, 20) ? 300000 : 20000) : ch_p(1, 2) ? 200 : 3000; g_fileN = gen_block(g_file, cap, (int)(1u << ch(5)), bd, sizeof bd);
  if (ch_p(1, 6)) { uint32_t want = ch_p(1, 2) ? 4096 : 32 * (1 + ch(40)); while (g_fileN < want) { g_file[g_fileN] = g_file[g_fileN - 1]; g_fileN++; } g_fileN = want; }
  g_argc = 0; arg("hsrlekit"); arg("input.bin");
  int test = P08 ? ch_p(1, 3) : 1; sel_t sel; int pre = ch_p(1, 2);
  if (pre && test) arg("--test");
  g_runsWanted = 8; g_minSec = 2; int noDelay = test;
  int many = ch_p(1, 80); if (many) stat_add("ops:thousands-of-runs", 1);
  if (many || ch_p(4, 5)) { g_runsWanted = many ? 1000 + ch(1600) : ch(P08 ? 6 : 3); arg("--runs"); argn(g_runsWanted); if (g_runsWanted == 0) { noDelay = 1; g_runsWanted = 1; } }
  if (ch_p(4, 5)) { static const uint32_t ms[] = { 0, 1, 2, 0, 1, 3, 5, 9 }; g_minSec = many ? 0 : ms[ch(8)]; arg("--min-time"); argn(g_minSec); }
  if (many && g_fileN > 2000) g_fileN = 2000;
  if (many) { static const char *const a[] = { "--mmtf", "--sh", "--rle-mmtf" }; memset(&sel, -1, sizeof sel); sel.mode = 2 + (int)ch(3); arg(a[sel.mode - 2]); }
  else pick_selection(&sel);
  int limit = 0; if (ch_p(1, 3)) { max_simd(lv); limit = 1; }
  if (many ? ch_p(5, 6) : ch_p(1, 6)) arg("--sd");
  if (!P08 && ch_p(1, 12)) arg("--analyze");
  if (!pre && test) arg("--test");
  g_real = P08 ? 0 : ch_p(1, 2);
  g_now = 1000000000000ULL + (uint64_t)ch(1000) * 1000000007ULL; g_clockStep = P08 ? (uint64_t)(1 + ch(200)) * 2000000ULL : 300000000ULL; if (g_clockStep < g_minSec * 10000000ULL) g_clockStep = g_minSec * 10000000ULL; g_jumpBudgetNs = 0; g_jumpsLeft = 0;
  if (P08) { f_clock = ch_p(7, 8); g_jumpsLeft = f_clock ? (int)ch(12) : 0; if (f_clock && ch_p(1, 3)) g_now = ch_p(1, 2) ? 0 : 0xFFFFFFFFULL * 1000000000ULL; }
  /* faults */
  int anyFault = ch_p(2, 3), pickc = -1;
  if (anyFault)
    switch (ch(P08 ? 2 : 10))
    {
      case 0: case 1: case 2: case 3:
      {
        int c[256], n = 0; for (int i = 0; i < g_nCodecs; i++) if (sel_must(&sel, i)) c[n++] = i;
        if (!n) break;
        cf_codec = pickc = c[ch((uint32_t)n)]; cf_kind = 1 + (int)ch(CF_COUNT - 1); cf_from = (int)(cf_kind == CF_DEC_NOWRITE ? 0 : ch(g_runsWanted + 1)); if (!noDelay) { /* dry run comes first */ }
        if (cf_from > (int)g_runsWanted - 1 + (noDelay ? 0 : 1)) cf_from = 0;
        if ((cf_kind == CF_COMP_ZERO || cf_kind == CF_DEC_ZERO) && ch_p(1, 2)) { cf_once = 1; stat_add("fault:codec-fails-only-once", 1); } /* and works again afterwards */
        if (cf_kind == CF_COMP_CLAIM) g_real = 0;
        cf_pos = ch_p(1, 4) ? 0xFFFFFFFFu : ch(g_fileN); cf_bit = ch(8); break;
      }
      case 4: f_openFail = 1; break;
      case 5: f_empty = 1; break;
      case 6: f_seekFailAt = 1 + (int)ch(2); break;
      case 7: f_readErrAt = (int)ch(g_fileN); break;
      case 8: f_readEofAt = (int)ch(g_fileN); break;
      case 9: f_allocFailAt = 1 + (int)ch(6); break;
    }
  if (ch_p(1, 4)) f_chunk = 1 + (int)ch(600);
  args_line(line, sizeof line); tr("hsrlekit %s (file: %s; cpu %s; fault: %s %s)", line, bd, N->cpu.name, cf_kind ? g_cfName[cf_kind] : anyFault ? "environment" : "none", cf_kind ? g_codecs[cf_codec].cname : "");
  op_set("hsrlekit itself"); hist_mem(line, strlen(line)); hist_u64((uint64_t)cf_kind << 8 | (uint64_t)anyFault);
  /* per loop: requested runs, dry run, what the clock needs to pass the minimum time (plus whatever it jumped back) */
  { uint64_t perLoop = (uint64_t)g_runsWanted + 3 + 12 + ((uint64_t)g_minSec * 1000000000ULL + 200ULL * 400 * 1000000000ULL * (P08 && f_clock ? 1 : 0) / 200) / g_clockStep; if (P08 && f_clock) perLoop += 12ULL * 400 * 1000000000ULL / g_clockStep; g_loopLimit = perLoop * 2 * (uint64_t)g_nCodecs + 1000; }
  int rc = run_tool();
  hist_u64((uint64_t)rc); hist_u64(g_calls); stat_add("ops:tool-runs", 1); stat_add("ops:codec-calls", g_calls); 
  tr("status %d after %llu codec calls, %llu clock reads, %llu sleeps, %.2f s", rc, (unsigned long long)g_calls, (unsigned long long)g_clockReads, (unsigned long long)g_sleeps, (double)g_elapsed / 1e9);
  ga_check();
  /* the codecs a machine cannot run are reported and skipped */
  int exempt = 0;
  if (g_fired && cf_kind && test)
  { /* an injected codec fault: only counts if it includes the last call of that codec (they are persistent, so it does) */
    int m256 = !strcmp(g_codecs[cf_codec].cname, "mmtf256_encode"), m128 = !strcmp(g_codecs[cf_codec].cname, "mmtf128_encode"); /* reported as not supported and skipped */
    if (m256 && cf_kind == CF_COMP_ZERO && (lv < LV_AVX || limit)) exempt = 1;
    if ((m128 || m256) && (cf_kind == CF_COMP_ZERO || cf_kind == CF_COMP_SHORT || cf_kind == CF_DEC_ZERO) && limit) exempt = 1;
  }
  int bad = g_fired > 0;
  if (test && bad && !exempt && rc == 0) violation((snprintf(sg, sizeof sg, "accidental-success %s", g_faultName), sg), "status 0 although: %s%s%s (hsrlekit %s)", g_faultName, cf_kind ? " in " : "", cf_kind ? g_codecs[cf_codec].cname : "", line);
  if (!bad && rc != 0) violation("false-failure", "status %d although nothing went wrong (hsrlekit %s)", rc, line);
  if (!bad && (rc == 0))
    for (int i = 0; i < g_nCodecs; i++)
      if (sel_must(&sel, i))
      {
        cstat_t *s = &g_cs[i]; uint32_t need = P08 ? g_runsWanted : 1; int skip = g_codecs[i].kind == K_XFORM && (lv < LV_AVX || limit) && g_real;
        if (s->nc < need || (!skip && s->nd < need)) violation((snprintf(sg, sizeof sg, "not-run"), sg), "%s was run %u times (compress) and %u times (decompress), requested: %u (hsrlekit %s)", g_codecs[i].cname, s->nc, s->nd, need, line);
        if (P08 && !f_clock && !skip && (s->t1 - s->t0 + 4 * g_clockStep < g_minSec * 1000000000ULL || s->t2 - s->t1 + 4 * g_clockStep < g_minSec * 1000000000ULL)) violation("too-short", "%s was measured for %.2f s (compress) and %.2f s (decompress), requested: %u s (hsrlekit %s)", g_codecs[i].cname, (double)(s->t1 - s->t0) / 1e9, (double)(s->t2 - s->t1) / 1e9, g_minSec, line);
        if (test && !skip && s->lastRet != g_fileN) violation("accidental-success size", "status 0, but %s restored %u of %u bytes", g_codecs[i].cname, s->lastRet, g_fileN);
      }
  if (P08 && !bad && g_calls)
  { /* bounded work: per codec and direction */
    for (int i = 0; i < g_nCodecs; i++)
    {
      uint64_t lim = (uint64_t)g_runsWanted + 2 + ((uint64_t)g_minSec * 1000000000ULL + g_jumpBudgetNs) / g_clockStep + 13 + (f_clock ? 13 : 0);
      if (g_cs[i].nc > lim || g_cs[i].nd > lim) violation("runs-on", "%s was run %u/%u times; the clock passed the requested %u s long before (hsrlekit %s)", g_codecs[i].cname, g_cs[i].nc, g_cs[i].nd, g_minSec, line);
    }
  }
  distinct_add(hash_mem(line, strlen(line), 1) ^ hash_mem(g_faultName, strlen(g_faultName), 2) ^ (uint64_t)g_fileN << 40 ^ g_calls << 8 ^ (uint64_t)(cf_kind ? cf_codec + 1 : 0));
  distinct_state(hash_mem(&sel, sizeof sel, 4) ^ hash_mem(g_faultName, strlen(g_faultName), 2) ^ (uint64_t)(cf_kind ? cf_codec + 1 : 0) << 8 ^ (uint64_t)lv);
  if (g_seed % 211 == 0) { char t[230]; snprintf(t, sizeof t, "hsrlekit %.120s: fault %.50s, status %d", line, g_faultName[0] ? g_faultName : "none", rc); sample_add(t); }
}

static void run_fuzz(void)
{
  char line[200], sg[150];
  int lv = cpu_host_max_level(); if (lv > LV_AVX2) lv = LV_AVX2 + (int)ch((uint32_t)(lv - LV_AVX2 + 1)); cpu_level(&N->cpu, lv);
  faults_off(); ga_reset(ch(1u << 12)); g_argc = 0; arg("hsrlekit"); arg("-");
  int iter = ch_p(2, 3); arg(iter ? "--fuzz-iterative" : "--fuzz-random"); if (ch_p(1, 4)) { arg("--max-simd"); arg(ch_p(1, 2) ? "avx2" : "sse2"); }
  g_now = 1000000000000ULL + (uint64_t)ch(1u << 20) * 1000003ULL; g_clockStep = 1000003; if (ch_p(1, 3)) { g_clockStep = 0; stat_add("fault:clock-stands-still", 1); } extern uint64_t g_sim_tsc; g_sim_tsc = 1000 + ch(1u << 24);
  uint32_t maxIn = iter ? (ch_p(1, 6) ? 320 : ch_p(1, 3) ? 70 : 12) : 6 + ch(8); g_callBudget = (uint64_t)maxIn * 2 * (uint64_t)g_nCodecs; g_real = iter && maxIn < 20 ? ch_p(1, 3) : 0; g_loopLimit = ~0ULL;
  int mode = (int)ch(6); /* 0: all well, 1: memory, else codec fault */
  if (mode == 1) f_allocFailAt = 1 + (int)ch(5);
  else if (mode > 1) { cf_codec = (int)ch((uint32_t)g_nCodecs); cf_kind = 1 + (int)ch(CF_COUNT - 1); cf_input = 1 + ch(maxIn - 1); cf_pos = ch_p(1, 5) ? 0xFFFFFFFFu : ch(1u << 16); cf_bit = ch(8); if (cf_kind == CF_COMP_CLAIM) g_real = 0; }
  if (ch_p(1, 5)) f_openFail = 1; else if (ch_p(1, 6)) f_writeErrAt = (int)ch(3000);
  args_line(line, sizeof line); op_set("hsrlekit itself"); tr("hsrlekit %s: fault %s in %s at input %u", line, cf_kind ? g_cfName[cf_kind] : f_allocFailAt ? "allocation" : "none", cf_kind ? g_codecs[cf_codec].cname : "-", cf_input);
  int rc = run_tool(); ga_check();
  int trap = g_exitHow == 3 && (g_crash_sig == 4 || g_crash_sig == 5 || g_crash_sig == 6); int abnormal = trap || g_exitHow == 2;
  hist_u64((uint64_t)rc); hist_u64(g_calls); hist_u64((uint64_t)g_exitHow); stat_add("ops:tool-runs", 1); stat_add("ops:codec-calls", g_calls); stat_add("ops:fuzz-inputs", g_inputs);
  tr("ended: %s, status %d, %llu codec calls, %u inputs, failure file %u bytes", g_exitHow == 3 ? "signal" : g_exitHow == 9 ? "stopped by simulator" : "exit", rc, (unsigned long long)g_calls, g_inputs, g_dumpN);
  if (g_exitHow == 3 && !trap) violation("fuzzer-crash", "the fuzzer crashed with signal %d (hsrlekit %s, %s)", g_crash_sig, line, g_faultName);
  if (f_allocFailAt && g_fired && !cf_kind)
  { if (g_exitHow == 9 || g_exitHow == 3 || rc == 0) violation("fuzzer-memory", "memory ran out, but the fuzzer %s (status %d)", g_exitHow == 9 ? "went on" : g_exitHow == 3 ? "crashed" : "reports success", rc); }
  else if (g_callsAtFault)
  {
    if (!abnormal) violation((snprintf(sg, sizeof sg, "fuzzer-missed %s", g_faultName), sg), "%s in %s at input %u: the fuzzer %s", g_faultName, g_codecs[cf_codec].cname, cf_input, g_exitHow == 9 ? "went on" : rc ? "ended with an ordinary status" : "reports success");
    if (g_wrongData && !f_openFail && f_writeErrAt < 0 && (g_dumpN != g_faultInputN || memcmp(g_dump, g_faultInput, g_dumpN))) violation("fuzzer-dump", "wrong data restored by %s, but the failure file holds %u bytes that are not the %u byte input", g_codecs[cf_codec].cname, g_dumpN, g_faultInputN);
  }
  else if (g_exitHow != 9) violation("fuzzer-false-alarm", "the fuzzer stopped (%s, status %d) although every codec behaved", g_exitHow == 3 ? "trap" : "exit", rc);
  if (g_inputs >= 8 && g_inputsNew < 2) violation("fuzzer-stuck", "the fuzzer tests inputs of the same shape over and over (%u inputs, size changed %u times)", g_inputs, g_inputsNew);
  distinct_add(hash_mem(line, strlen(line), 1) ^ (uint64_t)cf_kind << 50 ^ (uint64_t)cf_codec << 40 ^ (uint64_t)cf_input << 24 ^ (uint64_t)cf_pos << 4 ^ cf_bit);
  distinct_state((uint64_t)cf_kind << 20 | (uint64_t)cf_codec << 8 | (uint64_t)iter << 4 | (uint64_t)f_openFail << 1 | (uint64_t)(f_writeErrAt >= 0));
  if (g_seed % 97 == 0) { char t[230]; snprintf(t, sizeof t, "hsrlekit %s: %s in %s at input %u (%u bytes)", line, g_faultName[0] ? g_faultName : "no fault", cf_kind ? g_codecs[cf_codec].cname : "-", cf_input, g_faultInputN); sample_add(t); }
}

/* the analysis of a file depends on nothing but the file */
static size_t grab(char **pp) { static char *b[2]; static int w; w ^= 1; if (!b[w]) b[w] = malloc(8u << 20); off_t n = lseek(g_outFd, 0, SEEK_END); if (n > (8 << 20) - 1) n = (8 << 20) - 1; ssize_t k = pread(g_outFd, b[w], (size_t)n, 0); if (k < 0) k = 0; b[w][k] = 0; char *e = strstr(b[w], "Benchmarking File"); *pp = b[w]; return e ? (size_t)(e - b[w]) : (size_t)k; }
static void run_analyze(void)
{
  char bd[64], *o[2]; size_t on[2]; char line[300];
  faults_off(); g_real = 0; g_fileN = gen_block(g_file, ch_p(1, 6) ? (ch_p(1, 12) ? (ch_p(1, 16) ? 1200000 : 80000) : 6000) : 600, (int)(1u << ch(5)), bd, sizeof bd);
  for (int k = 0; k < 2; k++)
  {
    cpu_level(&N->cpu, (int)ch((uint32_t)cpu_host_max_level() + 1)); ga_reset(ch(1u << 12)); g_stackJunk = (uint8_t)(ch(4) * 85); g_argc = 0; arg("hsrlekit"); arg("input.bin"); arg("--analyze"); arg("--runs"); argn(0); arg("--min-time"); argn(0);
    static const char *const se[] = { "--sh", "--rle-mmtf", "--low-entropy" }; arg(se[ch(3)]); g_runsWanted = 1; g_minSec = 0; g_loopLimit = 100000;
    f_clock = (int)ch(2); g_jumpsLeft = (int)ch(8); f_chunk = ch_p(1, 2) ? 1 + (int)ch(600) : 0; g_now = 1000000000000ULL; g_clockStep = 1000000;
    stat_add("fault:stale-heap-content", 1); stat_add("fault:stale-stack-content", 1);
    args_line(line, sizeof line); op_set("hsrlekit itself"); int rc = run_tool(); hist_u64((uint64_t)rc); on[k] = grab(&o[k]); hist_mem(o[k], on[k]); stat_add("ops:tool-runs", 1);
    tr("%s -> status %d, %zu bytes of analysis", line, rc, on[k]);
    if (rc != 0) violation("analyze-fails", "hsrlekit %s ends with status %d", line, rc);
  }
  if (on[0] != on[1] || memcmp(o[0], o[1], on[0])) { size_t k = 0; while (k < on[0] && k < on[1] && o[0][k] == o[1][k]) k++; size_t s = k > 60 ? k - 60 : 0; violation("analyze-differs", "two analyses of the same %u byte file differ at output byte %zu: ...%.100s / ...%.100s", g_fileN, k, o[0] + s, o[1] + s); }
  distinct_add(hash_mem(g_file, g_fileN, 3)); distinct_state(hash_mem(bd, strlen(bd), 3));
  if (g_seed % 97 == 0) { char t[200]; snprintf(t, sizeof t, "analysis of %s, %zu bytes of report", bd, on[0]); sample_add(t); }
}

/* plain use of the tool by other simulations: healthy environment, the node's own codecs */
void cli_tool_init(void)
{
  g_file = malloc(FILECAP); g_dump = malloc(41u << 20); g_cenv.alloc = ga_alloc; g_cenv.release = ga_free; g_cenv.alloc_size = ga_size; g_cenv.open = c_open; g_cenv.clock_ns = c_clock; g_cenv.sleep_ns = c_sleep; g_cenv.do_exit = c_exit;
  fflush(stdout); g_savedOut = dup(1); g_outFd = memfd_create("out", 0);
}
int cli_tool(node_t *n, const uint8_t *file, uint32_t fileN, const char *const *argv, int argc)
{
  N = n; memcpy(g_file, file, fileN); g_fileN = fileN; faults_off(); ga_reset(1); g_argc = 0; for (int i = 0; i < argc; i++) arg(argv[i]);
  g_now = 1000000000000ULL; g_clockStep = 5000000000ULL; return run_tool();
}
void cli_restore_out(void) { fflush(stdout); dup2(g_savedOut, 1); g_env = NULL; g_node = NULL; }

static void cli_run(void)
{
  (void)g_leak; close_files();
  if (P09) run_fuzz(); else if (P17) run_analyze(); else run_bench();
}
const sim_t sim_cli = { "cli", cli_init, cli_run, 0 };

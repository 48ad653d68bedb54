/* CPU / OS feature simulation: on each simulated machine every instruction that needs a missing or disabled extension
 * is replaced by a trap (isa.py lists them), so that executing it faults as it would on that machine. */
#include "nodes.h"
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>

enum { I_SSE3 = 1, I_SSSE3 = 2, I_SSE41 = 4, I_SSE42 = 8, I_POPCNT = 16, I_LZCNT = 32, I_AES = 64, I_PCLMUL = 128, I_AVX = 256, I_AVX2 = 512, I_FMA = 1024, I_F16C = 2048, I_BMI1 = 4096, I_BMI2 = 8192,
  I_512F = 1 << 14, I_512BW = 1 << 15, I_512DQ = 1 << 16, I_512VL = 1 << 17, I_512CD = 1 << 18, I_512X = 1 << 19, I_OTHER = 1 << 20 };
static const char *const g_ext[] = { "SSE3", "SSSE3", "SSE4.1", "SSE4.2", "POPCNT", "LZCNT", "AES", "PCLMUL", "AVX", "AVX2", "FMA", "F16C", "BMI1", "BMI2", "AVX512F", "AVX512BW", "AVX512DQ", "AVX512VL", "AVX512CD", "AVX512 (other)", "other extension" };

typedef struct { node_t *n; uint32_t cnt; uint32_t *addr, *mask; uint8_t *orig; uint32_t allowed; } mach_t;
static mach_t M[2];
static uint8_t *g_blk; static arena_t A_in, A_out, A_dec;
int cli_tool(node_t *n, const uint8_t *file, uint32_t fileN, const char *const *argv, int argc);
void cli_tool_init(void);
void cli_restore_out(void);

static void load(mach_t *m, const char *fl)
{
  char so[40], path[600]; snprintf(so, sizeof so, "lib_%s.so", fl); m->n = node_load(so, fl);
  snprintf(path, sizeof path, "%s/lib_%s.isa", g_buildDir, fl);
  FILE *f = fopen(path, "rb"); if (!f) { fprintf(stderr, "HARNESS: %s\n", path); exit(2); }
  fseek(f, 0, SEEK_END); long sz = ftell(f); rewind(f); m->cnt = (uint32_t)(sz / 8); m->addr = malloc((size_t)sz / 2 + 4); m->mask = malloc((size_t)sz / 2 + 4); m->orig = malloc(m->cnt + 1);
  uintptr_t lo = ~(uintptr_t)0, hi = 0;
  for (uint32_t i = 0; i < m->cnt; i++) { uint32_t r[2]; if (fread(r, 4, 2, f) != 2) exit(2); m->addr[i] = r[0]; m->mask[i] = r[1]; uintptr_t a = (uintptr_t)m->n->base + r[0]; if (a < lo) lo = a; if (a > hi) hi = a; }
  fclose(f);
  lo &= ~(uintptr_t)4095; hi = (hi + 4096) & ~(uintptr_t)4095;
  if (mprotect((void *)lo, hi - lo, PROT_READ | PROT_WRITE | PROT_EXEC)) { perror("HARNESS: mprotect"); exit(2); }
  for (uint32_t i = 0; i < m->cnt; i++) m->orig[i] = m->n->base[m->addr[i]];
  m->allowed = ~0u;
}
static void apply(mach_t *m, uint32_t allowed)
{
  if (m->allowed == allowed) return;
  for (uint32_t i = 0; i < m->cnt; i++) { int was = (m->mask[i] & ~m->allowed) != 0, now = (m->mask[i] & ~allowed) != 0; if (was != now) m->n->base[m->addr[i]] = now ? 0xCC : m->orig[i]; }
  m->allowed = allowed;
}

/* what the machine really can execute, and what it reports */
static uint32_t pick_machine(cpu_t *c)
{
  int hw = (int)ch((uint32_t)cpu_host_max_level() + 1); if (ch_p(1, 3) && cpu_host_max_level() >= LV_AVX2) hw = cpu_host_max_level() >= LV_AVX512F ? LV_AVX + (int)ch((uint32_t)(cpu_host_max_level() - LV_AVX + 1)) : LV_AVX2;
  cpu_level(c, hw); uint32_t ok = 0; char os[64]; os[0] = 0;
  c->l1ecx &= ~((1u << 27) | (1u << 12) | (1u << 23) | (1u << 25)); c->l7ebx &= ~((1u << 3) | (1u << 8)); c->xcr0 = 0;
  if (hw >= LV_SSE3) ok |= I_SSE3;
  if (hw >= LV_SSSE3) ok |= I_SSSE3;
  if (hw >= LV_SSE41) ok |= I_SSE41;
  if (hw >= LV_SSE42) { ok |= I_SSE42; if (ch_p(3, 4)) { ok |= I_POPCNT; c->l1ecx |= 1u << 23; } if (ch_p(1, 2)) { ok |= I_AES | I_PCLMUL; c->l1ecx |= (1u << 25) | (1u << 1); } }
  int hidden = hw >= LV_AVX2 && ch_p(1, 10); /* a hypervisor that hides AVX but forgets what builds on it */
  if (hidden) { c->l1ecx &= ~(1u << 28); stat_add("fault:hypervisor-hides-avx", 1); }
  if (hw >= LV_SSE42)
  {
    static const uint32_t w[] = { 6, 2, 2, 1, 3 }; uint32_t k = ch_w(w, 5);
    switch (k)
    {
      case 0: c->l1ecx |= 1u << 27; c->xcr0 = hw >= LV_AVX512F ? 0xE7 : hw >= LV_AVX ? 7 : 3; break; /* everything enabled */
      case 1: stat_add("fault:os-without-xsave", 1); strcpy(os, ", OS without XSAVE"); break;
      case 2: c->l1ecx |= 1u << 27; c->xcr0 = 3; if (hw >= LV_AVX) { stat_add("fault:os-without-avx-state", 1); strcpy(os, ", OS without AVX state"); } break;
      case 3: c->l1ecx |= 1u << 27; c->xcr0 = 1; if (hw >= LV_AVX) { stat_add("fault:os-without-sse-and-avx-state-in-xsave", 1); strcpy(os, ", OS saves x87 only with XSAVE"); } break;
      case 4: c->l1ecx |= 1u << 27; c->xcr0 = hw >= LV_AVX ? 7 : 3; if (hw >= LV_AVX512F) { stat_add("fault:os-without-avx512-state", 1); strcpy(os, ", OS without AVX-512 state"); } break;
    }
    if (hidden) c->xcr0 &= 3;
  }
  int avx = hw >= LV_AVX && !hidden && (c->l1ecx & (1u << 27)) && (c->xcr0 & 6) == 6;
  if (avx) ok |= I_AVX;
  if (hw >= LV_AVX && ch_p(1, 2)) { c->l1ecx |= 1u << 29; if (avx) ok |= I_F16C; }
  if (hw >= LV_AVX2) { if (avx) ok |= I_AVX2; if (ch_p(3, 4)) { c->l1ecx |= 1u << 12; if (avx) ok |= I_FMA; } if (ch_p(3, 4)) { c->l7ebx |= (1u << 3) | (1u << 8); ok |= I_BMI1 | I_BMI2 | I_LZCNT; } }
  if (hw >= LV_AVX512F && avx && (c->xcr0 & 0xE0) == 0xE0) { ok |= I_512F | I_512CD; if (hw >= LV_AVX512FULL) ok |= I_512BW | I_512DQ | I_512VL; }
  if (hw < LV_AVX && ch_p(1, 2)) { static const uint32_t l[] = { 1, 2, 3, 5, 6, 10, 13 }; c->maxLeaf = l[ch(7)]; }
  else if (ch_p(1, 8)) { c->maxLeaf = 2 + ch(2); stat_add("fault:firmware-limits-cpuid", 1); }
  snprintf(c->name, sizeof c->name, "%s%s%s%s", g_levelNames[hw], hidden ? " (AVX hidden)" : "", os, c->maxLeaf < 7 ? ", CPUID limited" : "");
  return ok;
}

static uint32_t missing_at(mach_t *m, uintptr_t ip)
{
  uintptr_t a = ip - 1 - (uintptr_t)m->n->base; if (a > 0xFFFFFFFFu) return 0;
  uint32_t lo = 0, hi = m->cnt; while (lo < hi) { uint32_t k = (lo + hi) / 2; if (m->addr[k] < a) lo = k + 1; else hi = k; }
  return lo < m->cnt && m->addr[lo] == a ? m->mask[lo] & ~m->allowed : 0;
}
static void report(mach_t *m, const char *lim)
{
  char sg[158]; uint32_t x = g_crash_sig == SIGTRAP ? missing_at(m, g_crash_ip) : 0; int e = 0; while (x && !(x >> e & 1)) e++;
  while (x >> (e + 1)) { e++; while (!(x >> e & 1)) e++; } /* name the most recent extension */
  if (x) violation((snprintf(sg, sizeof sg, "missing-instruction %s: %.100s", g_ext[e], g_op), sg), "%s executes an instruction that needs %s, which is missing or not enabled on this machine (%s%s%s), built with %s", g_op, g_ext[e], m->n->cpu.name, lim ? ", limit " : "", lim ? lim : "", m->n->flavour);
  violation((snprintf(sg, sizeof sg, "crash signal %d: %.100s", g_crash_sig, g_op), sg), "%s crashed with signal %d on %s (%s)", g_op, g_crash_sig, m->n->cpu.name, m->n->flavour);
}

static int guarded(mach_t *m, int x, uint32_t sub, int isD, const uint8_t *i, uint32_t in, uint8_t *o, uint32_t on, uint32_t *r)
{
  op_set("%s", isD ? x_dname(x) : x_cname(x));
  if (sigsetjmp(g_crash_jmp, 1)) { g_expect_crash = 0; report(m, NULL); }
  g_expect_crash = 1; g_node = m->n; *r = isD ? x_decompress(m->n, x, i, in, o, on) : x_compress(m->n, x, sub, i, in, o, on); g_node = NULL; g_expect_crash = 0; return 0;
}

static void codec_op(mach_t *m)
{
  char bd[64]; uint32_t cap = ch_p(1, 12) ? 60000 : ch_p(1, 2) ? 300 : 3000; int x = (int)ch((uint32_t)g_nCodecs + 4); if (x >= g_nCodecs) x = x == g_nCodecs ? XI : x == g_nCodecs + 1 ? XS : XM; node_t *n = m->n; char sg[150];
  uint32_t len = gen_block(g_blk, cap, x >= XM ? 1 : g_codecs[x].sym, bd, sizeof bd), sub = x >= XM ? 1 + ch(len < 40 ? len : 40) : 0, bound = x_bounds(n, x, sub, len), c, d;
  uint8_t *pi = A_in.rw + 4096 + (ch_p(1, 2) ? 0 : ch(64)), *po = A_out.rw + 4096 + (ch_p(1, 2) ? 0 : ch(64)), *pd = A_dec.rw + 4096 + (ch_p(1, 2) ? 0 : ch(64));
  memcpy(pi, g_blk, len);
  guarded(m, x, sub, 0, pi, len, po, bound, &c);
  tr("%s on %s (%s): %s -> %u", x_cname(x), n->cpu.name, n->flavour, bd, c);
  if (c == 0) violation((snprintf(sg, sizeof sg, "refuses: %s", x_cname(x)), sg), "%s fails on %s (%s): %s", x_cname(x), n->cpu.name, n->flavour, bd);
  memset(A_dec.rw, 0x55, len + 8192);
  guarded(m, x, sub, 1, po, c, pd, len, &d);
  if (d != len || memcmp(pd, g_blk, len)) violation((snprintf(sg, sizeof sg, "wrong-data: %s", x_dname(x)), sg), "%s does not restore the data on %s (%s): %s", x_dname(x), n->cpu.name, n->flavour, bd);
  stat_add("ops:codec-round-trips", 1); hist_u64((uint64_t)x << 32 | c); hist_mem(po, c);
  distinct_state(hash_mem(n->cpu.name, strlen(n->cpu.name), 5) ^ (uint64_t)x << 2 ^ (uint64_t)n->id);
  distinct_add(hash_mem(po, c, 6) ^ m->allowed ^ (uint64_t)x << 40);
}

static void tool_op(mach_t *m, uint32_t ok)
{
  static const char *const nm[] = { "none", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f" };
  static const uint32_t top[] = { 0, 0, I_SSE3, I_SSSE3, I_SSE41, I_SSE42, I_AVX, I_AVX2, I_512F };
  const char *a[12]; int n = 0; char bd[64]; uint32_t lim = ch(10);
  uint32_t len = gen_block(g_blk, 400, (int)(1u << ch(5)), bd, sizeof bd);
  static const char *const bits[] = { "8", "16", "24", "32", "48", "64", "128" };
  a[n++] = "hsrlekit"; a[n++] = "input.bin"; int first = ch_p(1, 2); if (first) a[n++] = "--test";
  if (lim < 9) { a[n++] = "--max-simd"; a[n++] = nm[lim]; }
  switch (ch(8)) { case 0: a[n++] = "--mmtf"; break; case 1: a[n++] = "--rle-mmtf"; break; case 2: a[n++] = "--sh"; break; case 3: a[n++] = "--low-entropy"; break; case 4: break; default: a[n++] = "--x-size"; a[n++] = bits[ch(7)]; }
  if (!first) a[n++] = "--test";
  uint32_t allowed = ok;
  if (lim < 9)
  {
    if (lim < 8) allowed &= ~(uint32_t)(I_512F | I_512BW | I_512DQ | I_512VL | I_512CD | I_512X);
    if (lim < 7) allowed &= ~(uint32_t)(I_AVX2 | I_FMA);
    if (lim < 6) allowed &= ~(uint32_t)(I_AVX | I_F16C);
    if (lim < 5) allowed &= ~(uint32_t)I_SSE42;
    if (lim < 4) allowed &= ~(uint32_t)I_SSE41;
    if (lim < 3) allowed &= ~(uint32_t)I_SSSE3;
    if (lim < 2) allowed &= ~(uint32_t)I_SSE3;
    if (lim < 8 || !(ok & top[lim])) stat_add("fault:instruction-set-limit", 1);
  }
  apply(m, allowed); node_restart(m->n);
  op_set("hsrlekit --max-simd %s", lim < 9 ? nm[lim] : "(no limit)");
  if (sigsetjmp(g_crash_jmp, 1)) { g_expect_crash = 0; cli_restore_out(); report(m, lim < 9 ? nm[lim] : NULL); }
  g_expect_crash = 1; int rc = cli_tool(m->n, g_blk, len, a, n); g_expect_crash = 0;
  tr("hsrlekit --max-simd %s on %s (%s): status %d", lim < 9 ? nm[lim] : "-", m->n->cpu.name, m->n->flavour, rc);
  stat_add("ops:tool-runs", 1); hist_u64((uint64_t)rc);
  int have = lim >= 9 || top[lim] == 0 || (ok & top[lim]); char sg[150];
  int canSee = m->n->cpu.maxLeaf >= 7 || lim < 7; /* AVX2 and AVX-512 cannot be seen without leaf 7 */
  if (have && canSee && rc != 0) violation((snprintf(sg, sizeof sg, "tool-fails: --max-simd %s", lim < 9 ? nm[lim] : "-"), sg), "the self-test ends with status %d on %s (%s), limit %s", rc, m->n->cpu.name, m->n->flavour, lim < 9 ? nm[lim] : "none given");
  distinct_add(hash_mem(g_blk, len, 9) ^ m->allowed ^ (uint64_t)lim << 40); distinct_state(hash_mem(m->n->cpu.name, strlen(m->n->cpu.name), 5) ^ (uint64_t)(lim + 200) << 2 ^ (uint64_t)m->n->id);
  apply(m, ok); node_restart(m->n);
}

static void cpu_init(void) { load(&M[0], "gcc"); load(&M[1], "clang"); g_blk = malloc(1 << 18); arena_make(&A_in, 1 << 18); arena_make(&A_out, 1 << 18); arena_make(&A_dec, 1 << 18); cli_tool_init(); }
static void cpu_run(void)
{
  mach_t *m = &M[ch(2)]; uint32_t ok = pick_machine(&m->n->cpu); apply(m, ok); node_restart(m->n);
  stat_add("ops:machines", 1);
  int k = (int)ch_range(2, 9);
  while (k--)
  {
    switch (ch(8))
    {
      case 0: tool_op(m, ok); break;
      case 1: node_restart(m->n); stat_add("fault:node-restart", 1); /* fall through */
      default: codec_op(m);
    }
  }
  if (g_seed % 997 == 0) { char t[200]; snprintf(t, sizeof t, "machine: %s, build %s", m->n->cpu.name, m->n->flavour); sample_add(t); }
}
const sim_t sim_cpu = { "cpu", cpu_init, cpu_run, 0 };

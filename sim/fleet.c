/* Fleet simulation: a set of nodes (real builds of the library by different compilers, each with
 * a simulated CPU/OS feature state) exchange compressed objects through a simulated store and
 * network.  The schedule interleaves producers and consumers; faults tear transfers, leave stale
 * bytes behind short reads, shrink buffers, restart and upgrade nodes, fail the environment. */
#include "nodes.h"
#include "wraps.h"
#include <sys/mman.h>

#define NPOOL 6
#define ARENA (24u << 20)
#define MAXOBJ 6
#define SLACK 128u   /* readable bytes after every declared input; the library's vector loads use some of them */

static node_t *g_pool[NPOOL];
static arena_t A_in, A_out, A_dec;
static uint8_t *g_scratch;

typedef struct { uint8_t *orig; uint32_t n; uint8_t *stream; uint32_t sn; int codec; uint32_t sub; uint32_t outBound; char desc[96]; int prodLevel; char prodFlavour[16]; uint64_t written; } obj_t;
static obj_t g_obj[MAXOBJ];
static int g_nObj, g_nNodes;
static node_t *g_nodes[4];
static env_t g_failEnv;
static int fail_all(size_t n) { (void)n; return 1; }
static FILE *fail_open(const char *p, const char *m) { (void)p; (void)m; return NULL; }
static uint64_t g_failT;
static uint64_t fail_clock(int c) { uint64_t t = g_failT; (void)c; return g_failT = t * 6364136223846793005ULL + 99; }

/* which claims the running property makes */
static int P_round, P_torn, P_short, P_contain, P_det, P_env, P_up;
static int has_prop(const char *p) { return strcmp(g_prop, p) == 0; }
#define cname x_cname
#define dname x_dname
#define SUBS(c) ((c) >= XM)

static void find_hot(void);
static void fleet_init(void)
{
  arena_make(&A_in, ARENA); arena_make(&A_out, ARENA + (1u << 20)); arena_make(&A_dec, ARENA + (1u << 20));
  g_scratch = malloc(ARENA);
  int up = has_prop("C15"); /* rolling upgrade: every second binary is the previous release */
  for (int i = 0; i < NPOOL; i++)
    if (up && (i & 1)) g_pool[i] = node_load("lib_ref.so", "previous");
    else { int cl = up ? i >> 1 & 1 : i & 1; g_pool[i] = node_load(cl ? "lib_clang.so" : "lib_gcc.so", cl ? "clang" : "gcc"); }
  for (int i = 0; i < MAXOBJ; i++) { g_obj[i].orig = malloc(ARENA); g_obj[i].stream = malloc(ARENA + (1u << 20)); }
  g_failEnv.fail_alloc = fail_all; g_failEnv.open = fail_open; g_failEnv.clock_ns = fail_clock;
  find_hot();
}

/* codecs that keep state from call to call: more of the search, and longer histories, go there */
static int g_hot[128], g_nHot;
static void find_hot(void)
{
  node_t *n = g_pool[0]; size_t tot = n->tlsN; for (int i = 0; i < n->nSeg; i++) tot += n->seg[i].n;
  uint8_t *snap = malloc(tot + 1);
  for (int c = 0; c < g_nCodecs + 3 && g_nHot < 128; c++)
  {
    int cd = c < g_nCodecs ? c : XM + c - g_nCodecs, hot = 0; ch_start_seed(777);
    for (int lv = 0; lv <= cpu_host_max_level() && !hot; lv += 2) for (int k = 0; k < 4 && !hot; k++)
    {
      uint32_t len = gen_block(A_in.rw, k == 3 ? 6000 : 400, cd >= XM ? 1 : g_codecs[cd].sym, NULL, 0); cpu_level(&n->cpu, lv);
      g_expect_crash = 1;
      if (!sigsetjmp(g_crash_jmp, 1))
      {
        if (k == 0) node_restart(n);
        g_node = n; uint32_t b = x_bounds(n, cd, 1, len);
        uint32_t r = x_compress(n, cd, 1, A_in.ro, len, A_out.rw, b);
        if (r && r <= b) x_decompress(n, cd, A_out.ro, r, A_dec.rw, len);
        uint8_t *q = snap; for (int i = 0; i < n->nSeg; i++) { if (k && memcmp(q, n->seg[i].p, n->seg[i].n)) hot = 1; memcpy(q, n->seg[i].p, n->seg[i].n); q += n->seg[i].n; }
        if (n->tlsN) { uint8_t *t = node_tls(n); if (k && memcmp(q, t, n->tlsN)) hot = 1; memcpy(q, t, n->tlsN); }
      }
      g_node = NULL; g_expect_crash = 0;
    }
    if (hot) { g_hot[g_nHot++] = cd; if (g_verbose) printf("keeps state between calls: %s\n", x_cname(cd)); }
  }
  free(snap); memset(A_in.rw, 0, 8192); memset(A_out.rw, 0, 1 << 16); memset(A_dec.rw, 0, 1 << 16);
}

static int pick_level(void)
{
  static const uint32_t w[LV_COUNT] = { 4, 2, 3, 4, 2, 4, 6, 3, 3 };
  int m = cpu_host_max_level(); return (int)ch_w(w, (uint32_t)m + 1);
}

static void boot(int slot, const char *why)
{
  node_t *n = g_pool[ch(NPOOL)];
  for (int i = 0; i < slot; i++) if (g_nodes[i] == n) { n = g_pool[(n->id + 1) % NPOOL]; i = -1; }
  g_nodes[slot] = n; node_restart(n); cpu_level(&n->cpu, pick_level());
  tr("node %d: %s binary, cpu %s (%s)", slot, n->flavour, n->cpu.name, why);
  hist_u64((uint64_t)n->id << 8 | (uint64_t)n->cpu.level);
}

/* every range a run used is wiped before the next run starts, so no run sees another's leftovers */
static struct { uint8_t *p; size_t n; } g_dirty[4096]; static int g_nDirty;
static void dirty(arena_t *a, uint8_t *p, size_t n)
{
  uint8_t *lo = p - a->rw > 1024 ? p - 1024 : a->rw, *hi = a->rw + a->size - (p + n) > 8192 ? p + n + 8192 : a->rw + a->size;
  if (g_nDirty < 4096) { g_dirty[g_nDirty].p = lo; g_dirty[g_nDirty].n = (size_t)(hi - lo); g_nDirty++; }
}
static void wipe_arenas(void) { for (int i = 0; i < g_nDirty; i++) memset(g_dirty[i].p, 0, g_dirty[i].n); g_nDirty = 0; }

/* what an earlier caller left on the stack and in the vector registers */
static __attribute__((noinline)) void scrub(uint32_t kind)
{
  volatile uint8_t b[96 * 1024]; uint8_t v = kind == 0 ? 0 : kind == 1 ? 0xFF : (uint8_t)(kind * 37);
  memset((void *)b, v, sizeof b); __asm__ volatile("" :: "r"(b) : "memory");
  uint64_t q = v * 0x0101010101010101ULL;
  __asm__ volatile("movq %0, %%xmm0\n punpcklqdq %%xmm0, %%xmm0\n"
    "movdqa %%xmm0, %%xmm1\n movdqa %%xmm0, %%xmm2\n movdqa %%xmm0, %%xmm3\n movdqa %%xmm0, %%xmm4\n movdqa %%xmm0, %%xmm5\n movdqa %%xmm0, %%xmm6\n movdqa %%xmm0, %%xmm7\n"
    "movdqa %%xmm0, %%xmm8\n movdqa %%xmm0, %%xmm9\n movdqa %%xmm0, %%xmm10\n movdqa %%xmm0, %%xmm11\n movdqa %%xmm0, %%xmm12\n movdqa %%xmm0, %%xmm13\n movdqa %%xmm0, %%xmm14\n movdqa %%xmm0, %%xmm15\n"
    :: "r"(q) : "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
}

/* place n bytes in an arena: against the upper guard page (end), the lower guard page, or anywhere */
static uint8_t *place_(arena_t *a, size_t n, size_t tail, int forceEnd)
{
  uint32_t m = forceEnd ? 0 : ch(5);
  uint32_t align = ch(64), how = ch(forceEnd ? 6 : 4); uintptr_t mask = how == 2 ? 63 : how == 3 ? 15 : 0; /* half of the buffers are aligned, like most buffers in practice */
  if (m == 4) { if (a->last && (size_t)(a->rw + a->size - a->last) >= n + tail) return a->last; m = 1; } /* a buffer that is used again */
  uint8_t *p;
  if (m <= 1) { size_t off = a->size - n - tail; if (!forceEnd && align && off >= align) off -= align; p = a->rw + off; p = (uint8_t *)((uintptr_t)p & ~mask); return p; }
  p = a->rw + (m == 2 ? 0 : 4096) + (mask == 63 ? 0 : mask ? align & 48 : align);
  return p;
}
static uint8_t *place(arena_t *a, size_t n, size_t tail, int forceEnd) { uint8_t *p = place_(a, n, tail, forceEnd); dirty(a, p, n + tail); a->last = p; return p; }

static void stale_fill(uint8_t *p, size_t n, uint32_t kind, uint32_t seed)
{
  if (kind == 0) memset(p, 0, n);
  else if (kind == 1) memset(p, 0xFF, n);
  else { prng_t g = { seed + 11 }; for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(prng_next(&g) >> 24); }
}

static int g_envFaults; /* C12: this call runs with every environment request failing */
static void env_begin(void) { if (g_envFaults) { g_env = &g_failEnv; stat_add("fault:environment-refuses-everything", 1); } }
static void env_end(void) { if (g_envFaults) { g_env = NULL; if (g_envCalls) { stat_add("fault:environment-request-refused", g_envCalls); g_envCalls = 0; } } }
static uint32_t call_bounds(node_t *n, int codec, uint32_t sub, uint32_t sz) { return x_bounds(n, codec, sub, sz); }
static uint32_t call_c(node_t *n, int codec, uint32_t sub, const uint8_t *i, uint32_t in, uint8_t *o, uint32_t on) { scrub(ch(3)); env_begin(); g_node = n; uint32_t r = x_compress(n, codec, sub, i, in, o, on); g_node = NULL; env_end(); return r; }
static uint32_t call_d(node_t *n, int codec, const uint8_t *i, uint32_t in, uint8_t *o, uint32_t on) { scrub(ch(3)); env_begin(); g_node = n; uint32_t r = x_decompress(n, codec, i, in, o, on); g_node = NULL; env_end(); return r; }

/* canaries around an output window; window is [o, o+n+slack), canary up to 512 bytes either side where mapped */
typedef struct { uint8_t *lo, *loEnd, *hi, *hiEnd; uint32_t seed; } canary_t;
static void canary_set(canary_t *c, arena_t *a, uint8_t *o, size_t win, uint32_t seed)
{
  c->seed = seed; c->lo = o - a->rw > 512 ? o - 512 : a->rw; c->loEnd = o; c->hi = o + win; c->hiEnd = a->rw + a->size - c->hi > 512 ? c->hi + 512 : a->rw + a->size;
  prng_t g = { seed }; for (uint8_t *p = c->lo; p < c->loEnd; p++) *p = (uint8_t)(prng_next(&g) >> 13); for (uint8_t *p = c->hi; p < c->hiEnd; p++) *p = (uint8_t)(prng_next(&g) >> 13);
}
static int canary_bad(canary_t *c, long *off)
{
  prng_t g = { c->seed };
  for (uint8_t *p = c->lo; p < c->loEnd; p++) if (*p != (uint8_t)(prng_next(&g) >> 13)) { *off = p - c->loEnd; return 1; }
  for (uint8_t *p = c->hi; p < c->hiEnd; p++) if (*p != (uint8_t)(prng_next(&g) >> 13)) { *off = p - c->hi; return 2; }
  return 0;
}

#define VIOL(cond, sig, ...) do { if (cond) violation(sig, __VA_ARGS__); } while (0)

/* put input bytes into the input arena (read-only alias is what the library sees), with chosen bytes after it */
static const uint8_t *stage_in(const uint8_t *d, uint32_t n, uint32_t staleKind, uint32_t seed)
{
  uint8_t *p = place(&A_in, n, SLACK, 0);
  size_t room = (size_t)(A_in.rw + A_in.size - (p + n)); if (room > 4096) room = 4096;
  stale_fill(p + n, room, staleKind, seed);
  memcpy(p, d, n);
  return A_in.ro + (p - A_in.rw);
}

static uint32_t gen(uint8_t *out, uint32_t cap, int codec, char *desc, size_t dn) { return gen_block(out, cap, SUBS(codec) ? 1 : g_codecs[codec].sym, desc, dn); }

/* many runs stay with one or two codecs, as most processes do */
static int g_stick[2], g_nStick;
static int pick_codec_(void);
static int pick_codec(void) { return g_nStick ? g_stick[ch((uint32_t)g_nStick)] : pick_codec_(); }
static int pick_codec_(void)
{
  uint32_t k = ch((uint32_t)g_nCodecs + 12);
  if (k < (uint32_t)g_nCodecs) return (int)k;
  if (k < (uint32_t)g_nCodecs + 4) return k < (uint32_t)g_nCodecs + 2 && !P_torn && !P_short ? (k == (uint32_t)g_nCodecs ? XI : XS) : XM; /* refusing bad calls is up to the application there */
  /* extra weight for the families with a single codec */
  static const int fam[] = { K_SH, K_RLEMMTF, K_LE, K_LES }; int want = fam[ch(4)]; int c[8], n = 0;
  for (int i = 0; i < g_nCodecs && n < 8; i++) if (g_codecs[i].kind == want) c[n++] = i;
  return c[ch((uint32_t)n)];
}

static int g_long; /* a process that runs for long: many calls on small blocks */
static uint32_t pick_cap(void) { if (g_long) return ch_p(1, 20) ? 3000 : 300; uint32_t k = ch(2000); return k < 1996 ? (k < 1800 ? 70000 : 1100000) : (k < 1998 ? 4u << 20 : 20u << 20); }

static uint32_t pick_sub(uint32_t n)
{
  uint32_t s; if (ch(24) == 23) { uint32_t m = n < 200000 ? n : 200000; s = n > 66000 && ch_p(1, 2) ? 65500 + ch(100) : ch_p(1, 2) ? m : 1 + ch(m); return s; } /* very many sections */
  switch (ch(5)) { default: case 0: s = 1; break; case 1: s = 1 + ch(8); break; case 2: s = 1 + ch(64); break; case 3: s = 1u << ch(8); break; case 4: s = 1 + ch(n < 3000 ? n : 3000); break; }
  if (s > n) s = n; return s;
}

/* another version of a block: same size and mostly the same bytes */
static void edit_block(uint8_t *p, uint32_t n)
{
  uint32_t k = 1 + ch(4);
  while (k--)
  {
    uint32_t a = ch(n), len = 1 + ch(ch_p(1, 2) ? 8 : n); if (len > n - a) len = n - a;
    switch (ch(4))
    {
      case 0: p[a] ^= (uint8_t)(1 + ch(255)); break;
      case 1: memset(p + a, (int)ch(256), len); break;
      case 2: memset(p + a, p[ch(n)], len); break;
      case 3: { uint32_t b = ch(n); if (len > n - b) len = n - b; memmove(p + a, p + b, len); break; }
    }
  }
}

/* a producer node compresses a block; returns object index or -1 */
static int op_put(void)
{
  int slot = (int)ch((uint32_t)g_nNodes); node_t *n = g_nodes[slot];
  int codec = pick_codec(); int oi = g_nObj < MAXOBJ ? g_nObj : (int)ch(MAXOBJ); obj_t *o = &g_obj[oi];
  char bd[64];
  if (g_nObj > 0 && ch_p(1, 4))
  {
    obj_t *q = &g_obj[ch((uint32_t)g_nObj)]; if (ch_p(1, 2)) codec = q->codec;
    uint32_t len = q->n; if (o != q) memcpy(o->orig, q->orig, len);
    if (ch_p(1, 4) && len > 1) len -= 1 + ch(len - 1 < 40 ? len - 1 : 40);
    o->n = len; edit_block(o->orig, len); snprintf(bd, sizeof bd, "edited block n=%u", len); stat_add("ops:edited-block", 1);
  }
  else o->n = gen(o->orig, pick_cap(), codec, bd, sizeof bd);
  o->codec = codec; o->sub = SUBS(codec) ? pick_sub(o->n) : 0;
  if (codec >= XI && o->n > 8u << 20) { o->n = 8u << 20; if (o->sub > o->n) o->sub = o->n; } /* its output buffer has twice the size of the block */
  g_node = n; uint32_t bound = call_bounds(n, codec, o->sub, o->n); g_node = NULL;
  uint32_t extra = P_contain || P_round ? (ch_p(1, 4) ? ch(200) : 0) : ch(64);
  uint32_t outSize = bound + extra;
  VIOL(P_round && bound == 0, "bound-zero", "%s: advertised bound for %u bytes is 0", cname(codec), o->n);
  const uint8_t *in = stage_in(o->orig, o->n, ch(3), ch(1u << 16));
  uint8_t *out = place(&A_out, outSize, 0, P_contain || P_round ? ch_p(3, 4) : 0);
  stale_fill(out, outSize < 4096 ? outSize : 4096, ch(3), ch(1u << 16));
  canary_t c; canary_set(&c, &A_out, out, outSize, ch(1u << 16) + 1);
  snprintf(o->desc, sizeof o->desc, "%s sub%u %s by %s/%s", cname(codec), o->sub, bd, n->flavour, n->cpu.name);
  op_set("compress %s on %s cpu %s", cname(codec), n->flavour, n->cpu.name);
  uint32_t r = call_c(n, codec, o->sub, in, o->n, out, outSize);
  tr("node %d: %s(%s, %u bytes, at %%64=%u) outSize=bound%+d -> %u", slot, cname(codec), bd, o->n, (unsigned)((uintptr_t)in & 63), (int)extra, r);
  hist_u64(r); hist_mem(out, r <= outSize ? r : 0); stat_add("ops:compress", 1);
  char sg[150]; long off = 0;
  VIOL((P_round || P_env) && r == 0, (snprintf(sg, sizeof sg, "compress-fails %s", cname(codec)), sg), "%s failed although the output buffer had the advertised bound (%u bytes in, %u out)", cname(codec), o->n, outSize);
  VIOL((P_round || P_contain) && r > outSize, (snprintf(sg, sizeof sg, "compress-size %s", cname(codec)), sg), "%s reports %u bytes in a %u byte buffer", cname(codec), r, outSize);
  if ((P_contain || P_round) && canary_bad(&c, &off)) violation((snprintf(sg, sizeof sg, "compress-write-outside %s", cname(codec)), sg), "%s wrote outside its output buffer (%+ld from the edge), %u bytes in, outSize %u", cname(codec), off, o->n, outSize);
  VIOL(P_contain && memcmp(in, o->orig, o->n), (snprintf(sg, sizeof sg, "compress-input %s", cname(codec)), sg), "%s changed its input", cname(codec));
  if (r == 0 || r > outSize) return -1;
  if (P_round && (codec == XM || (codec < g_nCodecs && (g_codecs[codec].kind == K_LE || g_codecs[codec].kind == K_LES))))
  { g_node = n; uint32_t ds = n->le_decompressed_size(out, r); g_node = NULL; VIOL(ds != o->n, (snprintf(sg, sizeof sg, "queried-size %s", cname(codec)), sg), "rle8_low_entropy_decompressed_size says %u for a %s stream of %u bytes", ds, cname(codec), o->n); }
  memcpy(o->stream, out, r); o->sn = r; o->prodLevel = n->cpu.level; snprintf(o->prodFlavour, sizeof o->prodFlavour, "%s", n->flavour);
  if (oi == g_nObj) g_nObj++;
  return oi;
}

/* extra space behind decoder outputs that the node's library advertises */
static uint32_t out_slack(node_t *n) { uint32_t v = n->rle_decompress_additional_size(); return v > 4096 ? 4096 : v; }
static int header_less(int codec) { return !SUBS(codec) && g_codecs[codec].kind == K_XFORM; }

/* decode object bytes on a node; mode: 0 plain, 1 trailing bytes */
static void do_get(obj_t *o, int slot, const uint8_t *in, uint32_t inSize, uint32_t outExtra, const char *how)
{
  node_t *n = g_nodes[slot]; char sg[150]; long off = 0;
  uint32_t outSize = o->n + outExtra;
  uint32_t slack = out_slack(n); uint8_t *out = place(&A_dec, outSize, slack, P_contain);
  stale_fill(out, outSize < 8192 ? outSize : 8192, ch(3), ch(1u << 16));
  if (outSize > 8192) memset(out + 8192, 0x5A, outSize - 8192);
  canary_t c; canary_set(&c, &A_dec, out, outSize + slack, ch(1u << 16) + 7);
  uint64_t inHash = P_contain ? hash_mem(in, inSize, 3) : 0;
  op_set("decompress %s on %s cpu %s (produced by %s cpu %s)", dname(o->codec), n->flavour, n->cpu.name, o->prodFlavour, g_levelNames[o->prodLevel]);
  uint32_t r = call_d(n, o->codec, in, inSize, out, outSize);
  tr("node %d: %s(%s, %u bytes) outSize=%u -> %u", slot, dname(o->codec), how, inSize, outSize, r);
  hist_u64(r); hist_mem(out, r <= outSize ? r : 0); stat_add("ops:decompress", 1);
  if (P_contain || P_round) if (canary_bad(&c, &off)) violation((snprintf(sg, sizeof sg, "decompress-write-outside %s", dname(o->codec)), sg), "%s wrote outside output buffer plus its advertised slack (%+ld) for %s", dname(o->codec), off, o->desc);
  VIOL(P_contain && hash_mem(in, inSize, 3) != inHash, (snprintf(sg, sizeof sg, "decompress-input %s", dname(o->codec)), sg), "%s changed its input", dname(o->codec));
  VIOL(P_contain && r > outSize, (snprintf(sg, sizeof sg, "decompress-size %s", dname(o->codec)), sg), "%s reports %u bytes in a %u byte buffer", dname(o->codec), r, outSize);
  int chk = P_round || P_env || (P_torn && !strcmp(how, "trailing")) || (P_torn && !strcmp(how, "retry"));
  VIOL(chk && r != o->n, (snprintf(sg, sizeof sg, "roundtrip-size %s", dname(o->codec)), sg), "%s returned %u instead of %u for a %s stream (%s)", dname(o->codec), r, o->n, how, o->desc);
  if (chk && memcmp(out, o->orig, o->n)) { uint32_t k = 0; while (out[k] == o->orig[k]) k++; violation((snprintf(sg, sizeof sg, "roundtrip-data %s", dname(o->codec)), sg), "%s returned success with wrong data at byte %u of %u for a %s stream (%s)", dname(o->codec), k, o->n, how, o->desc); }
  distinct_add(hash_mem(o->desc, strlen(o->desc), 5) ^ ((uint64_t)n->cpu.level << 56) ^ ((uint64_t)n->flavour[0] << 40) ^ hash_mem(o->stream, o->sn < 4096 ? o->sn : 4096, 9));
  distinct_state((uint64_t)o->codec << 24 | (uint64_t)o->prodLevel << 16 | (uint64_t)n->cpu.level << 8 | (uint64_t)(o->prodFlavour[0] == 'g') << 1 | (uint64_t)(n->flavour[0] == 'g'));
}

static void op_get(obj_t *o)
{
  const uint8_t *in = stage_in(o->stream, o->sn, ch(3), ch(1u << 16)); int slot = (int)ch((uint32_t)g_nNodes);
  if (P_up)
  { /* across the release boundary */
    int old = o->prodFlavour[0] == 'p', tries = 0;
    if (g_long) for (int i = 0; i < g_nNodes; i++) if ((g_nodes[i]->flavour[0] == 'p') != old) slot = i;
    while ((g_nodes[slot]->flavour[0] == 'p') == old && tries++ < 8) { boot(slot, "upgrade/downgrade"); stat_add("fault:node-restart", 1); }
    if ((g_nodes[slot]->flavour[0] == 'p') == old) return;
    stat_add(old ? "ops:old-stream-on-new-release" : "ops:new-stream-on-old-release", 1);
  }
  do_get(o, slot, in, o->sn, ch_p(1, 3) ? ch(300) : 0, "complete");
}

static void op_trailing(obj_t *o)
{
  if (header_less(o->codec)) return;
  uint32_t t = 1 + (ch_p(1, 3) ? ch(4000) : ch(40)); uint32_t k = ch(4);
  memcpy(g_scratch, o->stream, o->sn);
  if (k == 3) { obj_t *q = &g_obj[ch((uint32_t)g_nObj)]; uint32_t off = ch(q->sn); for (uint32_t i = 0; i < t; i++) g_scratch[o->sn + i] = q->stream[(off + i) % q->sn]; }
  else stale_fill(g_scratch + o->sn, t, k, ch(1u << 16));
  stat_add("fault:trailing-bytes-after-stream", 1);
  const uint8_t *in = stage_in(g_scratch, o->sn + t, ch(3), ch(1u << 16));
  do_get(o, (int)ch((uint32_t)g_nNodes), in, o->sn + t, ch_p(1, 3) ? ch(300) : 0, "trailing");
}

/* only a prefix arrived; behind it the receive buffer holds whatever was there before */
static void op_torn(obj_t *o)
{
  if (header_less(o->codec) || o->sn < 2) return;
  uint32_t cut; switch (ch(5)) { default: case 0: cut = o->sn - 1 - ch(o->sn - 1 < 40 ? o->sn - 1 : 40); break; case 1: cut = 1 + ch(o->sn - 1 < 16 ? o->sn - 1 : 16); break; case 2: cut = 1 + ch(o->sn - 1); break; case 3: cut = 1 + ch(o->sn - 1 < 9 ? o->sn - 1 : 9); break; case 4: cut = (o->sn - 1) & ~(ch_p(1, 2) ? 511u : 4095u); break; }
  if (cut == 0) cut = 1;
  if (cut >= o->sn) cut = o->sn - 1;
  node_t *n = g_nodes[ch((uint32_t)g_nNodes)]; char sg[150];
  uint32_t stale = ch(5);
  uint8_t *p = place(&A_in, cut, 4096, 0); size_t room = 4096;
  static const char *const sn[] = { "zeros", "ones", "noise", "another object", "the lost bytes" };
  if (stale < 3) stale_fill(p + cut, room, stale, ch(1u << 16));
  else if (stale == 3) { obj_t *q = &g_obj[ch((uint32_t)g_nObj)]; for (size_t i = 0; i < room; i++) p[cut + i] = q->stream[(cut + i) % q->sn]; }
  else for (size_t i = 0; i < room; i++) p[cut + i] = cut + i < o->sn ? o->stream[cut + i] : 0;
  memcpy(p, o->stream, cut);
  uint32_t outSize = o->n + (ch_p(1, 2) ? ch(5000) : 0);
  uint8_t *out = place(&A_dec, outSize, SLACK, 0);
  memset(out, 0x33, outSize < 65536 ? outSize : 65536);
  op_set("decompress %s of a torn stream on %s cpu %s", dname(o->codec), n->flavour, n->cpu.name);
  uint32_t r = call_d(n, o->codec, A_in.ro + (p - A_in.rw), cut, out, outSize);
  tr("%s: only %u of %u bytes arrived, followed by %s; outSize %u -> %u", dname(o->codec), cut, o->sn, sn[stale], outSize, r);
  hist_u64(r); stat_add("fault:torn-transfer", 1); if (cut < 8) stat_add("fault:torn-inside-header", 1);
  VIOL(P_torn && r != 0, (snprintf(sg, sizeof sg, "torn-accepted %s", dname(o->codec)), sg), "%s accepted a strict prefix (%u of %u bytes, followed by %s) and reported %u bytes (%s)", dname(o->codec), cut, o->sn, sn[stale], r, o->desc);
  distinct_add(hash_mem(o->desc, strlen(o->desc), 5) ^ cut * 0x9E3779B97F4A7C15ULL ^ stale);
  distinct_state((uint64_t)o->codec << 24 | (uint64_t)(cut < 8 ? cut : 8 + (31 - (uint32_t)__builtin_clz(cut))) << 8 | stale << 4 | (uint64_t)n->cpu.level);
  if (ch_p(1, 3)) { const uint8_t *in = stage_in(o->stream, o->sn, ch(3), 1); do_get(o, (int)ch((uint32_t)g_nNodes), in, o->sn, 0, "retry"); }
}

static void op_short_out(obj_t *o)
{
  if (o->n < 2) return;
  node_t *n = g_nodes[ch((uint32_t)g_nNodes)]; char sg[150]; long off;
  uint32_t have; switch (ch(4)) { default: case 0: have = o->n - 1 - ch(o->n - 1 < 24 ? o->n - 1 : 24); break; case 1: have = ch(o->n < 70 ? o->n : 70); break; case 2: have = ch(o->n); break; case 3: have = o->n / 2; break; }
  const uint8_t *in = stage_in(o->stream, o->sn, ch(3), ch(1u << 16));
  uint32_t slack = out_slack(n); uint8_t *out = place(&A_dec, have, slack, ch_p(3, 4)); canary_t c; canary_set(&c, &A_dec, out, have + slack, 99);
  op_set("decompress %s into too small a buffer on %s cpu %s", dname(o->codec), n->flavour, n->cpu.name);
  uint32_t r = call_d(n, o->codec, in, o->sn, out, have);
  tr("%s: output buffer has %u of %u bytes -> %u", dname(o->codec), have, o->n, r); hist_u64(r); stat_add("fault:output-too-small(decompress)", 1);
  VIOL(P_short && r != 0, (snprintf(sg, sizeof sg, "short-out-accepted %s", dname(o->codec)), sg), "%s reported success (%u) with %u bytes of output space for %u bytes of data", dname(o->codec), r, have, o->n);
  if (P_short && canary_bad(&c, &off)) violation((snprintf(sg, sizeof sg, "short-out-write %s", dname(o->codec)), sg), "%s wrote outside a too small output buffer (%+ld)", dname(o->codec), off);
  distinct_state(1ULL << 40 | (uint64_t)o->codec << 16 | (uint64_t)n->cpu.level << 8 | (have ? 32 - (uint32_t)__builtin_clz(have) : 0));
  distinct_add(hash_mem(o->desc, strlen(o->desc), 5) ^ have * 0x9E3779B97F4A7C15ULL);
}

static void op_short_compress(void)
{
  node_t *n = g_nodes[ch((uint32_t)g_nNodes)]; int codec = pick_codec(); char bd[64], sg[150]; long off = 0;
  uint32_t len = gen(g_scratch, g_long ? 1000 : 70000, codec, bd, sizeof bd), sub = SUBS(codec) ? pick_sub(len) : 0;
  g_node = n; uint32_t bound = call_bounds(n, codec, sub, len); g_node = NULL; if (bound == 0) return;
  uint32_t have; switch (ch(4)) { default: case 0: have = bound - 1 - ch(bound - 1 < 40 ? bound - 1 : 40); break; case 1: have = ch(bound < 80 ? bound : 80); break; case 2: have = ch(bound); break; case 3: { uint32_t d = ch(64); have = len + 32 > d ? len + 32 - d : 0; if (have >= bound) have = bound - 1; break; } }
  const uint8_t *in = stage_in(g_scratch, len, ch(3), ch(1u << 16));
  uint8_t *out = place(&A_out, have, 0, ch_p(3, 4)); canary_t c; canary_set(&c, &A_out, out, have, 55);
  op_set("compress %s into too small a buffer on %s cpu %s", cname(codec), n->flavour, n->cpu.name);
  uint32_t r = call_c(n, codec, sub, in, len, out, have);
  tr("%s: output buffer has %u of the advertised %u bytes -> %u", cname(codec), have, bound, r); hist_u64(r); stat_add("fault:output-too-small(compress)", 1);
  if (P_short && canary_bad(&c, &off)) violation((snprintf(sg, sizeof sg, "short-compress-write %s", cname(codec)), sg), "%s wrote outside a too small output buffer (%+ld from the edge; %u bytes in, %u of %u out)", cname(codec), off, len, have, bound);
  VIOL(P_short && r > have, (snprintf(sg, sizeof sg, "short-compress-size %s", cname(codec)), sg), "%s reports %u bytes in a %u byte buffer", cname(codec), r, have);
  distinct_state(2ULL << 40 | (uint64_t)codec << 16 | (uint64_t)n->cpu.level << 8 | (have ? 32 - (uint32_t)__builtin_clz(have) : 0));
  distinct_add(hash_mem(g_scratch, len < 4096 ? len : 4096, 5) ^ have * 0x9E3779B97F4A7C15ULL ^ (uint64_t)codec << 50);
  if (P_short && r)
  { /* reported success: then it has to be a complete stream */
    static uint8_t st[1 << 18]; if (r > sizeof st) return; memcpy(st, out, r);
    const uint8_t *si = stage_in(st, r, 0, 0); uint8_t *d = place(&A_dec, len, SLACK, 1); memset(d, 0x77, len);
    op_set("decompress %s of a stream from a tight buffer", dname(codec));
    uint32_t q = call_d(g_nodes[ch((uint32_t)g_nNodes)], codec, si, r, d, len);
    VIOL(q != len || memcmp(d, g_scratch, len), (snprintf(sg, sizeof sg, "short-compress-corrupt %s", cname(codec)), sg), "%s reported success with %u of the advertised %u bytes, but the stream does not decode to the input (%u of %u)", cname(codec), have, bound, q, len);
  }
}

static void op_misuse(obj_t *o)
{
  node_t *n = g_nodes[ch((uint32_t)g_nNodes)]; char sg[150]; uint32_t k = ch(8); uint32_t r = 0;
  const uint8_t *st = stage_in(o->stream, o->sn, 0, 0); uint8_t *d = place(&A_dec, o->n, SLACK, 1);
  canary_t c; canary_set(&c, &A_dec, d, o->n + SLACK, 21); long off;
  memset(d, 0x61, o->n < 256 ? o->n : 256);
  g_node = n; uint32_t bound = call_bounds(n, o->codec, o->sub, o->n); g_node = NULL;
  static const char *const kn[] = { "decompress null input", "decompress empty input", "decompress null output", "decompress no output space", "compress null input", "compress empty input", "compress null output", "compress no output space" };
  op_set("%s %s", kn[k], k < 4 ? dname(o->codec) : cname(o->codec));
  switch (k)
  {
    case 0: r = call_d(n, o->codec, NULL, o->sn, d, o->n); break;
    case 1: r = call_d(n, o->codec, st, 0, d, o->n); break;
    case 2: r = call_d(n, o->codec, st, o->sn, NULL, o->n); break;
    case 3: r = call_d(n, o->codec, st, o->sn, d, 0); break;
    case 4: r = call_c(n, o->codec, o->sub, NULL, o->n, place(&A_out, bound, 0, 1), ch_p(1, 3) ? o->n : bound); break;
    case 5: r = call_c(n, o->codec, o->sub, st, 0, place(&A_out, bound, 0, 1), ch_p(1, 3) ? o->n : bound); break;
    case 6: r = call_c(n, o->codec, o->sub, st, o->sn, NULL, o->n + 100000); break;
    case 7: r = call_c(n, o->codec, o->sub, st, o->sn, d, 0); break;
  }
  tr("%s: %s -> %u", k < 4 ? dname(o->codec) : cname(o->codec), kn[k], r); hist_u64(r); stat_add("fault:missing-buffer-or-empty", 1);
  VIOL(P_short && r != 0, (snprintf(sg, sizeof sg, "misuse %s", g_op), sg), "%s reported success (%u)", g_op, r);
  if (P_short) for (uint32_t i = 0; i < (o->n < 256 ? o->n : 256); i++) if (d[i] != 0x61) { if (k == 2 || k == 6 || k == 5) break; violation((snprintf(sg, sizeof sg, "misuse-write %s", g_op), sg), "%s wrote to the output", g_op); }
  if (P_short && canary_bad(&c, &off)) violation((snprintf(sg, sizeof sg, "misuse-write %s", g_op), sg), "%s wrote outside the buffer", g_op);
}

/* same data again: other place, other stale bytes, after other work, on a restarted node */
static void op_recompress(obj_t *o)
{
  int slot = (int)ch((uint32_t)g_nNodes); node_t *n = g_nodes[slot]; char sg[150];
  if (n->cpu.level != o->prodLevel || (g_long ? ch_p(1, 60) : ch_p(1, 3)))
  { boot(slot, "restart"); n = g_nodes[slot]; cpu_level(&n->cpu, o->prodLevel); tr("node %d: cpu %s", slot, n->cpu.name); stat_add("fault:node-restart", 1); }
  g_node = n; uint32_t outSize = call_bounds(n, o->codec, o->sub, o->n); g_node = NULL; outSize += ch_p(1, 3) ? ch(500) : 0;
  const uint8_t *in = stage_in(o->orig, o->n, ch(3), ch(1u << 16));
  uint8_t *out = place(&A_out, outSize, 0, 0); stale_fill(out, outSize < (1u << 16) ? outSize : 1u << 16, ch(3), ch(1u << 16));
  op_set("compress %s again on %s cpu %s", cname(o->codec), n->flavour, n->cpu.name);
  uint32_t r = call_c(n, o->codec, o->sub, in, o->n, out, outSize);
  tr("node %d (%s cpu %s): %s again -> %u (first: %u)", slot, n->flavour, n->cpu.name, cname(o->codec), r, o->sn); hist_u64(r); stat_add("ops:recompress", 1);
  if ((P_det || P_env) && (r != o->sn || memcmp(out, o->stream, r)))
  { uint32_t k = 0; while (k < r && k < o->sn && out[k] == o->stream[k]) k++; violation((snprintf(sg, sizeof sg, "differs %s", cname(o->codec)), sg), "%s gave %u bytes the first time (%s) and %u now (%s/%s), first difference at byte %u", cname(o->codec), o->sn, o->desc, r, n->flavour, n->cpu.name, k); }
  distinct_add(hash_mem(o->desc, strlen(o->desc), 5) ^ ((uint64_t)n->cpu.level << 56) ^ ch_count());
  distinct_state((uint64_t)o->codec << 24 | (uint64_t)o->prodLevel << 16 | (uint64_t)n->cpu.level << 8 | (uint64_t)(o->prodFlavour[0] == 'g') << 1 | (uint64_t)(n->flavour[0] == 'g'));
}

static void fleet_run(void)
{
  P_round = has_prop("C02"); P_torn = has_prop("C03"); P_short = has_prop("C04"); P_contain = has_prop("C05"); P_det = has_prop("C13"); P_env = has_prop("C12"); P_up = has_prop("C15"); P_round |= P_up;
  wipe_arenas(); g_nObj = 0; g_env = NULL; g_failT = 0; int hot = g_nHot ? ch_p(1, 2) : 0; g_long = hot ? ch(20) == 19 : ch(150) == 149; g_nNodes = (int)ch_range(P_up ? 2 : 1, g_long ? 2 : 4);
  for (int i = 0; i < g_nNodes; i++) boot(i, "start");
  /* weights: put get restart trailing torn short_out short_compress misuse recompress */
  static const uint32_t W[6][9] = {
    { 5, 9, 2, 0, 0, 0, 0, 0, 0 }, { 3, 0, 1, 4, 8, 0, 0, 0, 0 }, { 3, 0, 1, 0, 0, 6, 6, 3, 0 },
    { 6, 6, 1, 1, 0, 0, 0, 0, 0 }, { 4, 0, 1, 0, 0, 0, 0, 0, 8 }, { 4, 6, 2, 0, 0, 0, 0, 0, 2 } };
  const uint32_t *w = W[P_round ? 0 : P_torn ? 1 : P_short ? 2 : P_contain ? 3 : P_det ? 4 : 5];
  uint32_t ops = g_long ? 40 + ch(360) : 2 + ch(10); if (g_long) stat_add("ops:long-running-process", 1);
  A_in.last = A_out.last = A_dec.last = NULL; g_nStick = 0;
  if (hot) { g_nStick = 1; g_stick[0] = g_hot[ch((uint32_t)g_nHot)]; if (g_stick[0] >= XI && (P_torn || P_short)) g_stick[0] = XM; }
  else if (ch_p(1, 2)) { int k = 1 + (int)ch(2); for (int i = 0; i < k; i++) g_stick[i] = pick_codec_(); g_nStick = k; }
  g_envFaults = P_env ? ch_p(1, 2) : 0;
  if (op_put() < 0) { stat_add("ops:compress-refused", 1); return; }
  for (uint32_t k = 0; k < ops; k++)
  {
    g_sim_ns += 1e6 + ch(1000) * 1e3;
    g_envFaults = P_env ? ch_p(3, 4) : 0;
    obj_t *o = &g_obj[g_nObj > 1 ? ch((uint32_t)g_nObj) : 0];
    switch (ch_w(w, 9))
    {
      case 0: op_put(); break;
      case 1: op_get(o); break;
      case 2: if (g_long && !ch_p(1, 40)) break; boot((int)ch((uint32_t)g_nNodes), "restart/upgrade"); stat_add("fault:node-restart", 1); break;
      case 3: op_trailing(o); break;
      case 4: op_torn(o); break;
      case 5: op_short_out(o); break;
      case 6: op_short_compress(); break;
      case 7: op_misuse(o); break;
      case 8: op_recompress(o); break;
    }
  }
  if (P_round || P_contain || P_env) op_get(&g_obj[g_nObj - 1]);
  if (g_sim_ns && ch_count() % 97 == 0) sample_add(g_obj[0].desc);
}

const sim_t sim_fleet = { "fleet", fleet_init, fleet_run, 0 };

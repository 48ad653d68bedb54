#include "nodes.h"
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <fcntl.h>
#include <cpuid.h>
#include <sys/mman.h>

#define X(label, c, d, k, s) { label, #c, #d, k, s },
const codec_desc g_codecs[] = {
#include "codecs.inc"
};
#undef X
const int g_nCodecs = sizeof g_codecs / sizeof *g_codecs;
__thread node_t *g_node;
const char *g_buildDir;
const char *const g_levelNames[] = { "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f", "avx512-full" };
int g_host_avx512_ok;

/* ------------------------------------------------------------ simulated CPU */
static uint64_t host_xgetbv(void) { uint32_t a, d; __asm__ volatile("xgetbv" : "=a"(a), "=d"(d) : "c"(0)); return ((uint64_t)d << 32) | a; }

int cpu_host_max_level(void)
{
  static int r = -1; if (r >= 0) return r;
  unsigned a, b, c, d; __cpuid(0, a, b, c, d); unsigned maxl = a;
  __cpuid(1, a, b, c, d); int lv = LV_SSE2;
  if (c & 1) lv = LV_SSE3;
  if (lv == LV_SSE3 && (c & (1u << 9))) lv = LV_SSSE3;
  if (lv == LV_SSSE3 && (c & (1u << 19))) lv = LV_SSE41;
  if (lv == LV_SSE41 && (c & (1u << 20))) lv = LV_SSE42;
  uint64_t x = (c & (1u << 27)) ? host_xgetbv() : 0;
  if (lv == LV_SSE42 && (c & (1u << 28)) && (x & 6) == 6) lv = LV_AVX;
  if (maxl >= 7) { __cpuid_count(7, 0, a, b, c, d); if (lv == LV_AVX && (b & (1u << 5))) lv = LV_AVX2; if (lv == LV_AVX2 && (b & (1u << 16)) && (x & 0xE6) == 0xE6) { lv = LV_AVX512F; if ((b & (1u << 30)) && (b & (1u << 17)) && (b & (1u << 31))) lv = LV_AVX512FULL; } }
  g_host_avx512_ok = lv >= LV_AVX512F;
  return r = lv;
}

void cpu_level(cpu_t *c, int level)
{
  memset(c, 0, sizeof *c); c->level = level; c->maxLeaf = level >= LV_AVX ? 0x16 : 0xB;
  c->l1edx = (1u << 25) | (1u << 26) | (1u << 23) | (1u << 15);
  if (level >= LV_SSE3) c->l1ecx |= 1u;
  if (level >= LV_SSSE3) c->l1ecx |= 1u << 9;
  if (level >= LV_SSE41) c->l1ecx |= 1u << 19;
  if (level >= LV_SSE42) c->l1ecx |= (1u << 20) | (1u << 23);
  c->xcr0 = 3;
  if (level >= LV_SSE42) c->l1ecx |= (1u << 26) | (1u << 27) | (1u << 25);
  if (level >= LV_AVX) { c->l1ecx |= (1u << 28); c->xcr0 |= 4; }
  if (level >= LV_AVX2) { c->l1ecx |= (1u << 12); c->l7ebx |= (1u << 5) | (1u << 3) | (1u << 8); }
  if (level >= LV_AVX512F) { c->l7ebx |= (1u << 16) | (1u << 28); c->xcr0 |= 0xE0; }
  if (level >= LV_AVX512FULL) { c->l7ebx |= (1u << 17) | (1u << 30) | (1u << 31); }
  snprintf(c->name, sizeof c->name, "%s", g_levelNames[level]);
}

/* called from the register-preserving trampolines in insn.S; must not touch vector state */
typedef struct { uint64_t rdx, rcx, rbx, rax; } gpr4;
__attribute__((target("general-regs-only"))) void sim_do_cpuid(gpr4 *r)
{
  node_t *n = g_node; uint32_t leaf = (uint32_t)r->rax, sub = (uint32_t)r->rcx; uint32_t a = 0, b = 0, c = 0, d = 0;
  if (n)
  {
    n->cpuidCalls++;
    if (leaf == 0) { a = n->cpu.maxLeaf; b = 0x756e6547; d = 0x49656e69; c = 0x6c65746e; }
    else if (leaf == 1 && n->cpu.maxLeaf >= 1) { a = 0x000506E3; c = n->cpu.l1ecx; d = n->cpu.l1edx; }
    else if (leaf == 7 && n->cpu.maxLeaf >= 7) { if (sub == 0) { b = n->cpu.l7ebx; c = n->cpu.l7ecx; d = n->cpu.l7edx; } }
    else if (leaf == 7) { /* beyond max leaf: intel returns the data of the highest basic leaf; give junk */ a = b = c = d = 0xFFFFFFFFu; }
    else if (leaf == 0xD && n->cpu.maxLeaf >= 0xD && sub == 0) { a = (uint32_t)n->cpu.xcr0; b = 0x340; c = 0x340; }
  }
  r->rax = a; r->rbx = b; r->rcx = c; r->rdx = d;
}
__attribute__((target("general-regs-only"))) void sim_do_xgetbv(gpr4 *r)
{
  node_t *n = g_node;
  uint64_t x = n ? n->cpu.xcr0 : 3;
  if (n && !(n->cpu.l1ecx & (1u << 27))) __builtin_trap(); /* xgetbv without OSXSAVE is #UD on hardware */
  r->rax = (uint32_t)x; r->rdx = (uint32_t)(x >> 32);
}
uint64_t g_sim_tsc = 1000;
__attribute__((target("general-regs-only"))) void sim_do_rdtsc(gpr4 *r) { g_sim_tsc += 37; r->rax = (uint32_t)g_sim_tsc; r->rdx = (uint32_t)(g_sim_tsc >> 32); }

/* ------------------------------------------------------------ instances */
struct find_ctx { uint8_t *base; node_t *n; };
static int phdr_cb(struct dl_phdr_info *i, size_t sz, void *v)
{
  (void)sz; struct find_ctx *f = v;
  if ((uint8_t *)i->dlpi_addr != f->base) return 0;
  uintptr_t relroLo = 0, relroHi = 0; uintptr_t pg = 4096;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { relroLo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; relroHi = (relroLo + i->dlpi_phdr[k].p_memsz) & ~(pg - 1); relroLo &= ~(pg - 1); }
  for (int k = 0; k < i->dlpi_phnum; k++)
  {
    const ElfW(Phdr) *p = &i->dlpi_phdr[k];
    if (p->p_type != PT_LOAD || !(p->p_flags & PF_W)) continue;
    uintptr_t lo = i->dlpi_addr + p->p_vaddr, hi = lo + p->p_memsz;
    if (relroHi > lo && relroLo <= lo) lo = relroHi < hi ? relroHi : hi;
    if (lo < hi && f->n->nSeg < 8) { f->n->seg[f->n->nSeg].p = (uint8_t *)lo; f->n->seg[f->n->nSeg].n = hi - lo; f->n->nSeg++; }
  }
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS)
  { const ElfW(Phdr) *p = &i->dlpi_phdr[k]; f->n->tlsMod = i->dlpi_tls_modid; f->n->tlsN = p->p_memsz; f->n->tlsInitN = p->p_filesz; f->n->tlsInit = (uint8_t *)i->dlpi_addr + p->p_vaddr; }
  return 1;
}
typedef struct { unsigned long mod, off; } tls_at; extern void *__tls_get_addr(tls_at *);

static void *must_sym(node_t *n, const char *s) { void *p = dlsym(n->h, s); if (!p) { fprintf(stderr, "HARNESS: symbol %s missing from %s\n", s, n->flavour); exit(2); } return p; }

static uint8_t *slurp(const char *p, size_t *n)
{ FILE *f = fopen(p, "rb"); if (!f) { fprintf(stderr, "HARNESS: cannot open %s\n", p); exit(2); } fseek(f, 0, SEEK_END); *n = (size_t)ftell(f); rewind(f); uint8_t *b = malloc(*n); if (fread(b, 1, *n, f) != *n) exit(2); fclose(f); return b; }

node_t *node_load(const char *so, const char *flavour)
{
  static int ids; char path[600]; size_t n;
  if (!g_buildDir) { static char d[500]; ssize_t k = readlink("/proc/self/exe", d, sizeof d - 1); if (k > 4) d[k - 4] = 0; g_buildDir = d; } /* libraries lie beside the simulator */
  snprintf(path, sizeof path, "%s/%s", g_buildDir, so);
  uint8_t *img = slurp(path, &n);
  int fd = memfd_create(so, MFD_CLOEXEC); if (fd < 0 || write(fd, img, n) != (ssize_t)n) { perror("memfd"); exit(2); }
  free(img);
  snprintf(path, sizeof path, "/proc/self/fd/%d", fd);
  node_t *nd = calloc(1, sizeof *nd); nd->id = ids++; snprintf(nd->flavour, sizeof nd->flavour, "%s", flavour);
  nd->h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
  if (!nd->h) { fprintf(stderr, "HARNESS: dlopen %s: %s\n", so, dlerror()); exit(2); }
  struct link_map *lm; dlinfo(nd->h, RTLD_DI_LINKMAP, &lm); nd->base = (uint8_t *)lm->l_addr;
  struct find_ctx fc = { nd->base, nd }; dl_iterate_phdr(phdr_cb, &fc);
  for (int i = 0; i < nd->nSeg; i++) { nd->seg[i].snap = malloc(nd->seg[i].n); memcpy(nd->seg[i].snap, nd->seg[i].p, nd->seg[i].n); }
  cpu_level(&nd->cpu, LV_SSE2);
  nd->comp = calloc((size_t)g_nCodecs, sizeof(codec_fn)); nd->decomp = calloc((size_t)g_nCodecs, sizeof(codec_fn));
  for (int i = 0; i < g_nCodecs; i++) { nd->comp[i] = (codec_fn)must_sym(nd, g_codecs[i].cname); nd->decomp[i] = (codec_fn)must_sym(nd, g_codecs[i].dname); }
#define S(f, name) *(void **)&nd->f = must_sym(nd, name)
  S(rle_compress_bounds, "rle_compress_bounds"); S(rle_decompress_additional_size, "rle_decompress_additional_size"); S(mmtf_bounds, "mmtf_bounds"); S(bitmmtf_bounds, "bitmmtf_bounds");
  S(rle8_sh_bounds, "rle8_sh_bounds"); S(rle8_mmtf128_compress_bounds, "rle8_mmtf128_compress_bounds"); S(le_bounds, "rle8_low_entropy_compress_bounds"); S(les_bounds, "rle8_low_entropy_short_compress_bounds");
  S(rle8m_compress_bounds, "rle8m_compress_bounds"); S(rle8m_compress, "rle8m_compress"); S(rle8m_decompress, "rle8m_decompress"); S(le_decompressed_size, "rle8_low_entropy_decompressed_size");
  S(cli_main, "hsrlekit_main");
  S(le.get, "rle8_low_entropy_get_compress_info"); S(le.getMax, "rle8_low_entropy_get_compress_info_only_max_frequency"); S(le.write, "rle8_low_entropy_write_compress_info"); S(le.comp, "rle8_low_entropy_compress_with_info");
  S(le.read, "rle8_low_entropy_read_decompress_info"); S(le.dec, "rle8_low_entropy_decompress_with_info"); S(le.compS, "rle8_low_entropy_short_compress_with_info"); S(le.decS, "rle8_low_entropy_short_decompress_with_info");
  return nd;
}

uint8_t *node_tls(const node_t *n) { if (!n->tlsN) return NULL; tls_at a = { n->tlsMod, 0 }; return __tls_get_addr(&a); }
void node_restart(node_t *n)
{
  if (n->tlsN) { uint8_t *t = node_tls(n); memcpy(t, n->tlsInit, n->tlsInitN); memset(t + n->tlsInitN, 0, n->tlsN - n->tlsInitN); }
  for (int i = 0; i < n->nSeg; i++) memcpy(n->seg[i].p, n->seg[i].snap, n->seg[i].n); n->cpuidCalls = 0;
}
int node_owns_data(const node_t *n, uintptr_t a) { for (int i = 0; i < n->nSeg; i++) if (a - (uintptr_t)n->seg[i].p < n->seg[i].n) return 1; return 0; }

uint32_t node_bounds(node_t *n, int codec, uint32_t s)
{
  switch (g_codecs[codec].kind)
  {
    case K_SH: return n->rle8_sh_bounds(s);
    case K_RLEMMTF: return n->rle8_mmtf128_compress_bounds(s);
    case K_LE: return n->le_bounds(s);
    case K_LES: return n->les_bounds(s);
    case K_XFORM: return g_codecs[codec].sym <= 2 ? n->bitmmtf_bounds(s) : n->mmtf_bounds(s);
    default: return n->rle_compress_bounds(s);
  }
}

/* an application that codes sections of uneven size with one common description:
 * [total][block size][sections][flag][description] and per section [plain size][coded size][data] */
static uint32_t xi_section(uint32_t sub, uint32_t k, uint32_t left) { uint32_t rest = sub - k; if (rest <= 1) return left; uint32_t s = left / rest; s += k % 3 == 1 ? s / 2 : k % 3 == 2 ? 0 : s / 5; return s == 0 ? (left > rest ? 1 : 0) : s > left ? left : s; }
static uint32_t xi_compress(node_t *n, int x, uint32_t sub, const uint8_t *in, uint32_t len, uint8_t *out, uint32_t outSize)
{
  uint8_t info[1024]; uint32_t o = 16, t;
  if (outSize < x_bounds(n, XI, sub, len)) return 0;
  memset(info, 0xEE, sizeof info);
  if (!(sub & 1 ? n->le.get : n->le.getMax)(in, len, info)) return 0;
  t = n->le.write(info, out + o, outSize - o); if (t == 0) return 0; o += t;
  for (uint32_t k = 0, at = 0; k < sub; k++)
  {
    uint32_t s = xi_section(sub, k, len - at), c = 0;
    if (s) { c = (x == XS ? n->le.compS : n->le.comp)(in + at, s, info, out + o + 8, outSize - o - 8); if (c == 0) return 0; }
    memcpy(out + o, &s, 4); memcpy(out + o + 4, &c, 4); o += 8 + c; at += s;
  }
  uint32_t h[4] = { o, len, sub, 0 }; memcpy(out, h, 16); return o;
}
static uint32_t xi_decompress(node_t *n, int x, const uint8_t *in, uint32_t inSize, uint8_t *out, uint32_t outSize)
{
  uint32_t h[4], o = 16, at = 0, t; uint8_t info[1024];
  if (inSize < 16) return 0;
  memcpy(h, in, 16); if (h[0] > inSize || h[1] > outSize) return 0;
  memset(info, 0xDD, sizeof info);
  t = n->le.read(in + o, inSize - o, info); if (t == 0) return 0; o += t;
  for (uint32_t k = 0; k < h[2]; k++)
  {
    uint32_t s, c; memcpy(&s, in + o, 4); memcpy(&c, in + o + 4, 4); o += 8;
    if (s && (x == XS ? n->le.decS : n->le.dec)(in + o, in + o + c, info, out + at, s) != s) return 0;
    o += c; at += s;
  }
  return at == h[1] ? at : 0;
}
const char *x_cname(int c) { return c == XM ? "rle8m_compress" : c == XI ? "rle8_low_entropy_compress_with_info" : c == XS ? "rle8_low_entropy_short_compress_with_info" : g_codecs[c].cname; }
const char *x_dname(int c) { return c == XM ? "rle8m_decompress" : c == XI ? "rle8_low_entropy_decompress_with_info" : c == XS ? "rle8_low_entropy_short_decompress_with_info" : g_codecs[c].dname; }
uint32_t x_bounds(node_t *n, int c, uint32_t sub, uint32_t size) { return c == XM ? n->rle8m_compress_bounds(sub, size) : c >= XI ? 16 + 289 + 16 * sub + 2 * size + 600 : node_bounds(n, c, size); }
uint32_t x_compress(node_t *n, int c, uint32_t sub, const uint8_t *in, uint32_t inSize, uint8_t *out, uint32_t outSize) { return c == XM ? n->rle8m_compress(sub, in, inSize, out, outSize) : c >= XI ? xi_compress(n, c, sub, in, inSize, out, outSize) : n->comp[c](in, inSize, out, outSize); }
uint32_t x_decompress(node_t *n, int c, const uint8_t *in, uint32_t inSize, uint8_t *out, uint32_t outSize) { return c == XM ? n->rle8m_decompress(in, inSize, out, outSize) : c >= XI ? xi_decompress(n, c, in, inSize, out, outSize) : n->decomp[c](in, inSize, out, outSize); }

void arena_make(arena_t *a, size_t size)
{
  size = (size + 4095) & ~(size_t)4095; a->size = size;
  int fd = memfd_create("arena", MFD_CLOEXEC); if (fd < 0 || ftruncate(fd, (off_t)size)) { perror("memfd"); exit(2); }
  size_t g = 1 << 20;
  for (int k = 0; k < 2; k++)
  {
    uint8_t *r = mmap(NULL, size + 2 * g, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r == MAP_FAILED) { perror("mmap"); exit(2); }
    uint8_t *m = mmap(r + g, size, k ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
    if (m == MAP_FAILED) { perror("mmap"); exit(2); }
    if (k) a->ro = m; else a->rw = m;
  }
  close(fd);
}

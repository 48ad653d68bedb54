#ifndef SIM_NODES_H
#define SIM_NODES_H
#include "core.h"
typedef uint32_t (*codec_fn)(const uint8_t *, uint32_t, uint8_t *, uint32_t);
enum { K_RLE, K_SH, K_RLEMMTF, K_LE, K_LES, K_XFORM };
typedef struct { const char *label, *cname, *dname; int kind; int sym; } codec_desc;
extern const codec_desc g_codecs[];
extern const int g_nCodecs;

/* simulated CPU + operating system feature state */
typedef struct
{
  uint32_t maxLeaf;
  uint32_t l1ecx, l1edx, l7ebx, l7ecx, l7edx;
  uint64_t xcr0;
  int level;            /* LV_* */
  char name[64];
} cpu_t;
enum { LV_SSE2, LV_SSE3, LV_SSSE3, LV_SSE41, LV_SSE42, LV_AVX, LV_AVX2, LV_AVX512F, LV_AVX512FULL, LV_COUNT };
extern const char *const g_levelNames[];
int  cpu_host_max_level(void);
void cpu_level(cpu_t *c, int level);
extern int g_host_avx512_ok;

typedef _Bool bool_t;
typedef struct
{
  void *h; char flavour[16]; int id;
  uint8_t *base;
  struct { uint8_t *p; size_t n; uint8_t *snap; } seg[8]; int nSeg;
  size_t tlsMod, tlsN, tlsInitN; uint8_t *tlsInit;
  cpu_t cpu;
  uint64_t cpuidCalls;
  codec_fn *comp, *decomp;
  uint32_t (*rle_compress_bounds)(uint32_t), (*rle_decompress_additional_size)(void), (*mmtf_bounds)(uint32_t), (*bitmmtf_bounds)(uint32_t), (*rle8_sh_bounds)(uint32_t), (*rle8_mmtf128_compress_bounds)(uint32_t),
    (*le_bounds)(uint32_t), (*les_bounds)(uint32_t), (*rle8m_compress_bounds)(uint32_t, uint32_t), (*le_decompressed_size)(const uint8_t *, uint32_t);
  uint32_t (*rle8m_compress)(uint32_t, const uint8_t *, uint32_t, uint8_t *, uint32_t);
  uint32_t (*rle8m_decompress)(const uint8_t *, uint32_t, uint8_t *, uint32_t);
  int (*cli_main)(int, char **);
  struct { bool_t (*get)(const uint8_t *, uint32_t, void *), (*getMax)(const uint8_t *, uint32_t, void *); uint32_t (*write)(void *, uint8_t *, uint32_t), (*comp)(const uint8_t *, uint32_t, const void *, uint8_t *, uint32_t), (*compS)(const uint8_t *, uint32_t, const void *, uint8_t *, uint32_t), (*decS)(const uint8_t *, const uint8_t *, const void *, uint8_t *, uint32_t), (*read)(const uint8_t *, uint32_t, void *), (*dec)(const uint8_t *, const uint8_t *, const void *, uint8_t *, uint32_t); } le;
} node_t;

/* formats that are not in the codec table: multi-section streams, and sections coded with the two-step interface (one description for all sections) */
#define XM 1000
#define XI 1001
#define XS 1002   /* as XI, with the short format */
const char *x_cname(int codec);
const char *x_dname(int codec);
uint32_t x_bounds(node_t *n, int codec, uint32_t sub, uint32_t size);
uint32_t x_compress(node_t *n, int codec, uint32_t sub, const uint8_t *in, uint32_t inSize, uint8_t *out, uint32_t outSize);
uint32_t x_decompress(node_t *n, int codec, const uint8_t *in, uint32_t inSize, uint8_t *out, uint32_t outSize);

node_t *node_load(const char *so, const char *flavour);   /* fresh, independent instance   */
void    node_restart(node_t *n);                          /* as if the process was restarted: globals pristine */
uint8_t *node_tls(const node_t *n);                       /* its thread-local data for the calling thread */
uint32_t node_bounds(node_t *n, int codec, uint32_t inSize);
int     node_owns_data(const node_t *n, uintptr_t a);     /* address in the library's writable data? */
extern __thread node_t *g_node;                           /* node the calling thread is executing on */
extern const char *g_buildDir;

/* arenas: guard pages on both sides, read-only alias for inputs */
typedef struct { uint8_t *rw, *ro; size_t size; uint8_t *last; } arena_t;
void arena_make(arena_t *a, size_t size);

/* workload data */
uint32_t gen_block(uint8_t *out, uint32_t cap, int symHint, char *desc, size_t descN);
#endif

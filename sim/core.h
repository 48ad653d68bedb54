/* Deterministic-simulation core: seeded choice stream, history hash, statistics,
 * violation reporting.  Every decision of a run goes through ch(); a run is a pure
 * function of its choice list, so a recorded list replays exactly. */
#ifndef SIM_CORE_H
#define SIM_CORE_H
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>

/* ---- choices ---- */
void     ch_start_seed(uint64_t seed);
void     ch_start_list(const uint32_t *p, size_t n);
uint32_t ch(uint32_t n);                 /* uniform in [0,n); 0 is the simplest value   */
uint32_t ch_range(uint32_t lo, uint32_t hi); /* inclusive                              */
int      ch_p(uint32_t num, uint32_t den);   /* 1 with probability num/den            */
uint32_t ch_w(const uint32_t *w, uint32_t n);/* weighted index                         */
uint64_t ch_count(void);
const uint32_t *ch_list(void);
/* memory for the recorded list can be put in shared memory (forked sims) */
void     ch_use_storage(uint32_t *p, size_t cap, volatile uint64_t *pn);

/* ---- cheap sub generator, seeded by one choice (bulk data) ---- */
typedef struct { uint64_t s; } prng_t;
static inline uint64_t prng_next(prng_t *p)
{ uint64_t z = (p->s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }

/* ---- history ---- */
void     hist_reset(void);
void     hist_u64(uint64_t v);
void     hist_mem(const void *p, size_t n);
uint64_t hist_value(void);
uint64_t hash_mem(const void *p, size_t n, uint64_t seed);

extern int g_verbose;
void     tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

/* ---- statistics ---- */
void     stat_add(const char *name, uint64_t v);   /* counters; names starting with fault: are fault kinds */
void     distinct_add(uint64_t sig);
void     distinct_state(uint64_t sig);
void     sample_add(const char *s);
extern double g_sim_ns;                            /* simulated time covered */

/* ---- violations ---- */
void     violation(const char *sig, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
extern char g_op[256];                             /* what is running now (used by signal handler) */
void     op_set(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* recoverable crash handling: if g_crash_jmp_on, a fatal signal jumps there instead of reporting */
extern int g_expect_crash;
extern sigjmp_buf g_crash_jmp;
extern volatile int g_crash_sig;
extern volatile uintptr_t g_crash_ip;

extern const char *g_prop;
extern uint64_t g_seed;

/* ---- sim entry points ---- */
typedef struct { const char *name; void (*init)(void); void (*run)(void); int forked; } sim_t;
extern const sim_t *const g_sims[];
int core_main(int argc, char **argv);
#endif

#ifndef SIM_WRAPS_H
#define SIM_WRAPS_H
#include "core.h"
/* environment calls made by the code under test go to the active environment */
typedef struct
{
  int   (*fail_alloc)(size_t n);      /* 1: fail this allocation */
  void *(*alloc)(size_t n, size_t align);
  void  (*release)(void *p);
  size_t (*alloc_size)(void *p);
  FILE *(*open)(const char *path, const char *mode);
  uint64_t (*clock_ns)(int clk);
  void  (*sleep_ns)(uint64_t ns);
  uint32_t (*codec)(int codec, int isDecomp, const uint8_t *i, uint32_t in, uint8_t *o, uint32_t on);
  void  (*do_exit)(int code, int how);
  void  (*touch)(const void *p, size_t n, int write); /* memcpy & co in the scheduled flavour */
} env_t;
extern env_t *g_env;
extern uint64_t g_envCalls;  /* environment calls seen since reset */
#endif

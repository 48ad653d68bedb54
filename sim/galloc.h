#ifndef SIM_GALLOC_H
#define SIM_GALLOC_H
#include "core.h"
/* guarded heap for the code under test: every block ends at an inaccessible page, freed blocks become inaccessible */
void   ga_reset(uint32_t junkSeed);
void  *ga_alloc(size_t n, size_t align);
void   ga_free(void *p);             /* reports a violation on a double or wild free */
size_t ga_size(void *p);
int    ga_live(void);
size_t ga_room(const void *p, size_t *pAvail); /* 1 if p lies in a live block; bytes from p to its end */
void   ga_check(void);               /* canaries in alignment gaps */
#endif

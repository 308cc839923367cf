/* Link-time wrapper (-Wl,--wrap) of the pool alloc/free entry points: separately malloc'ed slots
   (so ASan sees overruns between slots), live accounting, and failure injection. */
#ifndef VMEM_H
#define VMEM_H
#include <stddef.h>
extern long vmem_fail_at;       /* fail the n-th allocation from now (0 = next); -1 none */
extern long vmem_fail_from;     /* fail every allocation whose index >= this; -1 none */
extern long vmem_allocs;        /* successful+failed allocation attempts since reset */
extern long vmem_bad_frees;     /* frees of pointers that are not live in that pool (NULL excepted) */
extern int (*vmem_fail_fn)(long idx);
void vmem_reset(void);          /* counters only */
long vmem_live(void);           /* total live buffers */
long vmem_live_pool(int pool);  /* 0 small, 1 medium, 2 large */
void vmem_drop_all(void);       /* free all (after a reported leak) */
#endif

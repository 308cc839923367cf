/* Heap monitor: counts what the code under test allocates and frees, and can make an allocation fail. */
#ifndef VHEAP_H
#define VHEAP_H
extern volatile int vh_on;          /* allocations are tracked (and may fail) while nonzero */
extern volatile long vh_fail_at;      /* the allocation to fail, counted from vh_begin (1 = first); 0: none */
extern volatile long vh_num;          /* allocations since vh_begin */
extern volatile long vh_failed;       /* failures injected since vh_begin */
void vh_begin(long fail_at); /* start tracking */
void vh_pause(void);
void vh_resume(void);
long vh_live(void);          /* tracked blocks not freed yet */
void vh_forget(void);        /* drop what is tracked */
#endif

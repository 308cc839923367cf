/* force-included into harness sources whose own memory the heap monitor must not see */
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
#define malloc __real_malloc
#define calloc __real_calloc
#define realloc __real_realloc
#define free __real_free
#define pthread_create __real_pthread_create

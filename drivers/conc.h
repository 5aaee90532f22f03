/* U08: every locking primitive util/fifo.c uses becomes a scheduling point */
#ifndef CONC_H
#define CONC_H
#include <pthread.h>
#include <string.h>
#include <sched.h>
#include <stdlib.h>
int vs_lock(pthread_mutex_t*);
int vs_trylock(pthread_mutex_t*);
int vs_unlock(pthread_mutex_t*);
int vs_minit(pthread_mutex_t*, const pthread_mutexattr_t*);
int vs_mdestroy(pthread_mutex_t*);
int vs_cinit(pthread_cond_t*, const pthread_condattr_t*);
int vs_cdestroy(pthread_cond_t*);
int vs_wait(pthread_cond_t*, pthread_mutex_t*);
int vs_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int vs_signal(pthread_cond_t*);
int vs_broadcast(pthread_cond_t*);
int vs_yield(void);
void* vs_memcpy(void*, const void*, size_t);
void* vs_memmove(void*, const void*, size_t);
#define pthread_mutex_lock vs_lock
#define pthread_mutex_trylock vs_trylock
#define pthread_mutex_unlock vs_unlock
#define pthread_mutex_init vs_minit
#define pthread_mutex_destroy vs_mdestroy
#define pthread_cond_init vs_cinit
#define pthread_cond_destroy vs_cdestroy
#define pthread_cond_wait vs_wait
#define pthread_cond_timedwait vs_timedwait
#define pthread_cond_signal vs_signal
#define pthread_cond_broadcast vs_broadcast
#define sched_yield vs_yield
#undef memcpy
#undef memmove
#define memcpy vs_memcpy
#define memmove vs_memmove
#endif

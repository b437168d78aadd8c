/*
  Controlled scheduler: runs the threads of a small program as coroutines and
  explores their interleavings up to a preemption bound.

  The library objects are compiled with thread-access instrumentation and call
  the hooks below; pthread, heap and string calls reach the seam_ functions.  A
  thread may be switched at every lock operation and at every access to an
  address that several threads touch and at least one writes.
*/
#ifndef SCHED_H
#define SCHED_H

#include <stddef.h>
#include <stdint.h>

#define SCHED_THREADS 4
#define SCHED_OPS 4
#define SCHED_TEXT 512

typedef struct
{
  uint64_t id;                  /* identifies the scenario within the harness */
  int threads;
  int ops[SCHED_THREADS];
  int bound;                    /* preemptions */
  int sequential;               /* 1: compare with one-at-a-time orders */
  int relaxed;                  /* 1: orders need not respect real time */
  void (*setup)(void);
  void (*op)(int thread,int index,char *result);
  void (*final)(char *result);  /* observe the final state and release it */
} sched_program;

void sched_explore(const sched_program *p);

int sched_self(void);           /* 0 outside, 1.. for the program's threads */
int sched_active(void);         /* inside the concurrent phase */
void sched_point(const char *what);     /* a place where a switch may happen */
void sched_yield_now(void);     /* run others first, if any can run */
void sched_block(int (*ready)(void *),void *arg,const char *what);
long sched_step(void);
size_t sched_live(void);        /* live heap blocks of the library */
const char *sched_result(int thread,int index);
extern int sched_text_limit;
#define SCHED_APPEND(r,...) \
  snprintf((r)+strlen(r),SCHED_TEXT-strlen(r),__VA_ARGS__)

#endif

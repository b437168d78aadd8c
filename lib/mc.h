/*
  Choice explorer: runs a body once for every sequence of choices.

  The body asks mc_choose() for each decision.  The explorer enumerates all
  choice sequences depth first; the first choice of a run selects the shard and
  is handed out to worker processes.  mc_deviate() is a choice whose non-zero
  answers are charged against the deviation budget.
*/
#ifndef MC_H
#define MC_H

#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

typedef struct
{
  const char *property;     /* property id */
  const char *name;         /* harness name, for messages */
  const char *rule;         /* how cases are made, what makes one non-trivial */
  void (*init)(void);       /* once per worker, before the first run */
  void (*body)(void);       /* one run */
  int watchdog;             /* seconds before a run counts as hung (0: 20) */
  int time_cap;             /* seconds for the exploration (0: 600) */
} mc_harness;

int mc_main(int argc,char **argv,const mc_harness *h);

int mc_choose(int n,const char *what);
int mc_deviate(int n,const char *what);
void mc_budget(int deviations);       /* call at the start of the body */
int mc_deviations(void);              /* deviations used so far in this run */
void mc_fail(const char *fmt,...)
  __attribute__((noreturn,format(printf,1,2)));
int mc_known(const char *key);        /* 1: listed as known finding, counted */
void mc_skip(void) __attribute__((noreturn)); /* end this run silently (jmp) */
void mc_nontrivial(void);
void mc_observe(const void *data,size_t length);
void mc_observe_int(long value);
void mc_note(const char *fmt,...) __attribute__((format(printf,1,2)));
int mc_noting(void);                  /* is a trace being recorded? */
int mc_thorough(void);
int mc_replaying(void);
void mc_count(int counter,long amount); /* shared counters 0..7 */
void mc_counter_name(int counter,const char *name);
void mc_transition(void);             /* counts one step of the code under test */
uint64_t mc_hash(uint64_t h,const void *data,size_t length);

/* Compare helpers */
#define MC_CHECK(cond,...) do { if (!(cond)) mc_fail(__VA_ARGS__); } while (0)

#endif

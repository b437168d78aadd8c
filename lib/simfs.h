/*
  Simulated files and processes.

  Code under test compiled in a "sim" variant calls seam_open(), seam_write()
  and so on.  Paths under /sim live in shared memory; all others go to the
  system.  Every call on a simulated file is announced first: in the process
  itself to sim_hook, or, for a process made with sim_spawn(), to the parent,
  which answers when and how the call proceeds.
*/
#ifndef SIMFS_H
#define SIMFS_H

#include <stddef.h>
#include <sys/types.h>

#define SIM_PROCS 4
#define SIM_PATH 200
#define SIM_RESULT 65536

typedef enum
{
  SIM_OPEN, SIM_CLOSE, SIM_READ, SIM_WRITE, SIM_SEEK, SIM_STAT, SIM_UNLINK,
  SIM_RENAME, SIM_LINK, SIM_TRUNCATE, SIM_SYNC, SIM_MAP, SIM_MKDIR, SIM_SLEEP,
  SIM_KILL, SIM_OTHER, SIM_ENTROPY
} sim_op;

typedef struct
{
  sim_op op;
  char path[SIM_PATH];
  size_t size;              /* bytes of a transfer, microseconds of a sleep */
  int create;               /* open: creates; mmap: writable */
  int pid;
} sim_call;

typedef struct
{
  int error;                /* errno the call fails with, 0: none */
  size_t limit;             /* most bytes to transfer (SIZE_MAX: all) */
  int crash;                /* process stops after the (partial) transfer */
} sim_answer;

extern const char *sim_op_name[];

void sim_reset(void);                     /* empty file system, clock at start */
void sim_put(const char *path,const void *data,size_t length);
unsigned char *sim_get(const char *path,size_t *length);  /* NULL: absent */
int sim_remove(const char *path);
int sim_files(void);                      /* number of files */
const char *sim_name(int file);
int sim_open_descriptors(void);           /* of this process */
void sim_pipe(const char *path,int pipe); /* file cannot be positioned */

/* in-process: asked before each call (NULL: all succeed) */
extern void (*sim_hook)(const sim_call *call,sim_answer *answer);
extern int sim_announce_entropy;          /* announce the entropy call as well */
extern int sim_announce_memory;           /* announce anonymous maps and aligned memory as well */
extern long sim_ticks,sim_user_ticks;     /* what times() reports */
extern long sim_calls;                    /* calls announced in this process */

/* simulated processes */
extern unsigned char *sim_result;         /* in a process: its result area */
int sim_spawn(void (*run)(void *),void *context,int pid,int tid);
int sim_wait(int proc);                   /* until it announces or ends; 1: announced */
const sim_call *sim_pending(int proc);    /* NULL: ended */
void sim_go(int proc,const sim_answer *answer); /* let its call proceed, then wait */
void sim_stop(int proc);                  /* kill */
unsigned char *sim_output(int proc);      /* its result area */
int sim_status(int proc);                 /* wait status after the end */
int sim_asleep(int proc);                 /* pending call is a sleep not over yet */
void sim_advance(void);                   /* clock to the end of the earliest sleep */
void sim_end(void);                       /* kill and reap all */
int sim_alive(int pid);

/* Run one process to its end; decide may be NULL. Fails the run if the process
   dies on its own or does not end within "most" calls. */
int sim_run(void (*run)(void *),void *context,int pid,
  void (*decide)(int index,const sim_call *,sim_answer *),long most,const char *what);

/* Run all spawned processes under every schedule within the deviation budget.
   decide (may be NULL) is asked about the outcome of each call. */
void sim_schedule(int procs,void (*decide)(int proc,const sim_call *,sim_answer *),
  void (*step)(int proc,const sim_call *),long most);

#endif

#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

/* The explorer must not go through the seams a harness puts in front of libc. */
extern ssize_t __write(int,const void *,size_t);

#define MAXCHOICES 20000
#define MAXWORKERS 32
#define NOTES (64*1024)
#define SETBITS 24
#define MAXSAMPLES 6
#define MAXJOBS 64
#define MAXKNOWN 64

typedef struct
{
  volatile pid_t pid;
  volatile int depth;           /* choices made in the current run */
  volatile int prefix;          /* choices fixed before the current run */
  volatile int floor;           /* choices below this are another's */
  volatile int resume;          /* continue the job a predecessor left */
  volatile double started;      /* start of the current run, 0 when idle */
  volatile long evaluations;
  int val[MAXCHOICES],n[MAXCHOICES];
  unsigned char dev[MAXCHOICES];
} worker;

typedef struct
{
  volatile int queue_lock;
  volatile int queued;          /* jobs in the queue */
  volatile int idle;            /* workers waiting for a job */
  volatile int workers;
  struct { int length,floor; int val[MAXCHOICES]; } job[MAXJOBS];
  volatile int stop;
  volatile int capped;
  volatile int failed;          /* 1: violation recorded */
  volatile int fail_lock;
  int fail_depth;
  int fail_val[MAXCHOICES];
  char message[4096];
  volatile long evaluations,nontrivial,distinct,transitions,maxdepth,set_full;
  volatile long counter[8];
  char counter_name[8][40];
  volatile long known[MAXKNOWN];
  volatile int samples;
  char sample[MAXSAMPLES][2048];
  worker w[MAXWORKERS];
  volatile uint64_t set[1UL << SETBITS];
} shared;

static shared *S;
static worker *W;
static const mc_harness *H;
static int thorough,replaying,budget,used,noting,nontrivial_run;
static uint64_t observation;
static char *notes;
static size_t notes_len;
static jmp_buf skip_env;
static double deadline;
static char *known_list,*known_key[MAXKNOWN];
static int known_count;
static int replay_val[MAXCHOICES],replay_len;

static double now(void)
{
  struct timespec t;
  extern int __clock_gettime(clockid_t,struct timespec *);
  syscall(228 /* clock_gettime */,CLOCK_MONOTONIC,&t);
  return t.tv_sec+t.tv_nsec*1e-9;
}

uint64_t mc_hash(uint64_t h,const void *data,size_t length)
{
  const unsigned char *p=data;
  size_t i;
  for (i=0; i < length; i++)
    h=(h ^ p[i])*0x100000001b3ULL;
  h^=h >> 29;
  return h;
}

int mc_thorough(void) { return thorough; }
int mc_replaying(void) { return replaying; }
int mc_noting(void) { return noting; }
void mc_budget(int deviations) { budget=deviations; }
int mc_deviations(void) { return used; }
void mc_nontrivial(void) { nontrivial_run=1; }
void mc_transition(void) { __sync_fetch_and_add(&S->transitions,1); }
void mc_observe(const void *data,size_t length)
{ observation=mc_hash(observation,data,length); }
void mc_observe_int(long value) { mc_observe(&value,sizeof(value)); }
void mc_count(int counter,long amount)
{ __sync_fetch_and_add(&S->counter[counter],amount); }
void mc_counter_name(int counter,const char *name)
{ strncpy(S->counter_name[counter],name,39); }

void mc_note(const char *fmt,...)
{
  va_list ap;
  int n;
  if (!noting)
    return;
  va_start(ap,fmt);
  n=vsnprintf(notes+notes_len,NOTES-notes_len,fmt,ap);
  va_end(ap);
  if (n > 0)
    {
      if (replaying)
        __write(2,notes+notes_len,strlen(notes+notes_len));
      notes_len+=n;
      if (notes_len >= NOTES)
        notes_len=NOTES-1;
    }
}

static int pick(int n,int is_dev,const char *what)
{
  int d=W->depth,v;
  if (n < 1)
    n=1;
  if (is_dev && used >= budget)
    n=1;
  if (d >= MAXCHOICES)
    {
      fprintf(stderr,"mc: too many choices\n");
      _exit(70);
    }
  if (replaying)
    v=d < replay_len ? replay_val[d] : 0;
  else
    if (d < W->prefix)
      v=W->val[d];
    else
      v=0;
  if (v < 0 || v >= n)
    {
      fprintf(stderr,"mc: choice %d out of range at %d (%s): replay diverged\n",
        v,d,what);
      _exit(71);
    }
  if (!replaying && d < W->prefix && W->n[d] != 0 && W->n[d] != n)
    {
      fprintf(stderr,"mc: branching changed at %d (%s): %d was %d\n",d,what,n,
        W->n[d]);
      _exit(71);
    }
  W->val[d]=v;
  W->n[d]=n;
  W->dev[d]=is_dev;
  W->depth=d+1;
  if (is_dev && v != 0)
    used++;
  return v;
}

int mc_choose(int n,const char *what) { return pick(n,0,what); }
int mc_deviate(int n,const char *what) { return pick(n,1,what); }

static void record_failure(worker *w,const char *message)
{
  if (__sync_lock_test_and_set(&S->fail_lock,1) != 0)
    return;
  S->fail_depth=w->depth;
  memcpy(S->fail_val,w->val,sizeof(int)*w->depth);
  strncpy(S->message,message,sizeof(S->message)-1);
  __sync_synchronize();
  S->failed=1;
  S->stop=1;
}

void mc_fail(const char *fmt,...)
{
  char message[4096];
  va_list ap;
  va_start(ap,fmt);
  vsnprintf(message,sizeof(message),fmt,ap);
  va_end(ap);
  if (replaying)
    {
      fprintf(stderr,"FAILED: %s\n",message);
      fflush(stderr);
    }
  record_failure(W,message);
  _exit(3);
}

int mc_known(const char *key)
{
  int i;
  for (i=0; i < known_count; i++)
    if (strcmp(known_key[i],key) == 0)
      {
        __sync_fetch_and_add(&S->known[i],1);
        return 1;
      }
  return 0;
}

void mc_skip(void) { longjmp(skip_env,1); }

static void run_once(void)
{
  W->depth=0;
  used=0;
  budget=1 << 30;
  observation=0xcbf29ce484222325ULL;
  nontrivial_run=0;
  notes_len=0;
  noting=replaying;
  if (!replaying)
    {
      long e=W->evaluations;
      if (S->samples < MAXSAMPLES && (e == 777 || e == 34567 || e == 412345 || e == 3))
        noting=1;
    }
  W->started=now();
  if (setjmp(skip_env) == 0)
    H->body();
  else
    nontrivial_run=0;
  W->started=0;
  W->evaluations++;
  __sync_fetch_and_add(&S->evaluations,1);
  if (W->depth > S->maxdepth)
    S->maxdepth=W->depth;
  if (nontrivial_run)
    {
      uint64_t h=observation ? observation : 1;
      unsigned long i=h & ((1UL << SETBITS)-1),probes;
      __sync_fetch_and_add(&S->nontrivial,1);
      for (probes=0; probes < 64; probes++)
      {
        uint64_t x=S->set[i];
        if (x == h)
          break;
        if (x == 0 && __sync_bool_compare_and_swap(&S->set[i],0,h))
          {
            __sync_fetch_and_add(&S->distinct,1);
            break;
          }
        if (S->set[i] == h)
          break;
        i=(i+1) & ((1UL << SETBITS)-1);
      }
      if (probes == 64)
        S->set_full=1;
    }
  if (noting && !replaying && notes_len != 0)
    {
      int k=__sync_fetch_and_add(&S->samples,1);
      if (k < MAXSAMPLES)
        strncpy(S->sample[k],notes,sizeof(S->sample[k])-1);
    }
}

static void lock_queue(void)
{
  while (__sync_lock_test_and_set(&S->queue_lock,1) != 0)
  {
    if (S->stop)
      _exit(0);
    usleep(1);
  }
}

static void unlock_queue(void) { __sync_lock_release(&S->queue_lock); }

#define floor_ W->floor         /* choices below this index are not ours */

/* Wait for a job: a prefix whose last choice and all later ones are ours. */
static int take_job(void)
{
  int waiting=0;
  for ( ; ; )
  {
    lock_queue();
    if (S->queued > 0)
      {
        int k=--S->queued;
        W->prefix=S->job[k].length;
        floor_=S->job[k].floor;
        memcpy(W->val,S->job[k].val,sizeof(int)*W->prefix);
        memset(W->n,0,sizeof(int)*W->prefix);   /* not known yet */
        if (waiting)
          S->idle--;
        unlock_queue();
        return 1;
      }
    if (!waiting)
      {
        waiting=1;
        S->idle++;
      }
    if (S->idle == S->workers || S->stop)
      {
        unlock_queue();
        return 0;
      }
    unlock_queue();
    usleep(200);
  }
}

/* Give the remaining alternatives of our shallowest open choice away. */
static void donate(void)
{
  int i;
  for (i=floor_; i < W->depth; i++)
    if (W->val[i]+1 < W->n[i])
      break;
  if (i >= W->depth)
    return;
  lock_queue();
  if (S->queued < MAXJOBS)
    {
      int k=S->queued++;
      S->job[k].length=i+1;
      S->job[k].floor=i;
      memcpy(S->job[k].val,W->val,sizeof(int)*(i+1));
      S->job[k].val[i]++;
      floor_=i+1;
    }
  unlock_queue();
}

/* Code under test may leak: a worker that has grown is replaced. */
static int oversized(void)
{
  static int countdown=256;
  static long base;
  char text[100];
  long rss=0,size;
  int fd;
  if (--countdown > 0)
    return 0;
  countdown=256;
  fd=syscall(2 /* open */,"/proc/self/statm",O_RDONLY,0);
  if (fd < 0)
    return 0;
  memset(text,0,sizeof(text));
  if (syscall(0 /* read */,fd,text,sizeof(text)-1) > 0)
    sscanf(text,"%ld %ld",&size,&rss);
  syscall(3 /* close */,fd);
  if (base == 0)
    base=rss;
  return rss-base > 700*256;    /* 700 MB */
}

/* the library keeps a random reservoir in the home directory: give each process its own */
static void home(void)
{
  const char *base=getenv("MC_HOME");
  char path[4096];
  snprintf(path,sizeof(path),"%s/%d",base ? base : "/tmp/mc-home",(int) getpid());
  if (!base)
    mkdir("/tmp/mc-home",0700);
  mkdir(path,0700);
  setenv("HOME",path,1);
  setenv("WIZARD_HOME",path,1);
}

static void work(int index)
{
  W=&S->w[index];
  notes=malloc(NOTES);
  home();
  if (H->init)
    H->init();
  while (W->resume || take_job())
  {
    W->resume=0;
    for ( ; ; )
    {
      int i;
      if (S->stop)
        _exit(0);
      if (now() > deadline)
        {
          S->capped=1;
          S->stop=1;
          _exit(0);
        }
      run_once();
      if (S->idle > S->queued)
        donate();
      for (i=W->depth-1; i >= floor_; i--)
        if (W->val[i]+1 < W->n[i])
          break;
      if (i < floor_)
        break;
      W->val[i]++;
      W->prefix=i+1;
      if (oversized())
        {
          W->resume=1;
          _exit(4);     /* the parent starts a successor */
        }
    }
  }
  _exit(0);
}

static void json_string(FILE *f,const char *s)
{
  fputc('"',f);
  for ( ; *s; s++)
  {
    unsigned char c=*s;
    if (c == '"' || c == '\\')
      fprintf(f,"\\%c",c);
    else if (c == '\n')
      fprintf(f,"\\n");
    else if (c < 32 || c > 126)
      fprintf(f,"\\u%04x",c);
    else
      fputc(c,f);
  }
  fputc('"',f);
}

static int do_replay(const char *file)
{
  FILE *f=fopen(file,"r");
  char line[1 << 16];
  pid_t pid;
  int status;
  double start;
  if (!f)
    {
      fprintf(stderr,"mc: cannot read %s\n",file);
      return 2;
    }
  while (fgets(line,sizeof(line),f))
  {
    if (strncmp(line,"tier ",5) == 0)
      thorough=strncmp(line+5,"thorough",8) == 0;
    if (strncmp(line,"choices",7) == 0)
      {
        char *p=line+7;
        for ( ; ; )
        {
          char *e;
          long v=strtol(p,&e,10);
          if (e == p)
            break;
          replay_val[replay_len++]=v;
          p=e;
        }
      }
  }
  fclose(f);
  replaying=1;
  pid=fork();
  if (pid == 0)
    {
      W=&S->w[0];
      notes=malloc(NOTES);
      home();
      if (H->init)
        H->init();
      run_once();
      _exit(0);
    }
  start=now();
  for ( ; ; )
  {
    pid_t r=waitpid(pid,&status,WNOHANG);
    if (r == pid)
      break;
    if (now()-start > 3*(H->watchdog ? H->watchdog : 20))
      {
        kill(pid,SIGKILL);
        waitpid(pid,&status,0);
        fprintf(stderr,"replay: does not terminate\n");
        return 1;
      }
    usleep(2000);
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && S->w[0].started == 0)
    {
      fprintf(stderr,"replay: property held\n");
      return 0;
    }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 71)
    return 2;
  if (WIFEXITED(status))
    fprintf(stderr,"replay: failed (exit %d)\n",WEXITSTATUS(status));
  else
    fprintf(stderr,"replay: failed (signal %d)\n",WTERMSIG(status));
  return 1;
}

static void spawn(int i)
{
  pid_t pid=fork();
  if (pid == 0)
    {
      int fd=open("/dev/null",O_WRONLY);
      prctl(PR_SET_PDEATHSIG,SIGKILL);
      if (fd >= 0 && !getenv("MC_VERBOSE"))
        {
          dup2(fd,1);
          dup2(fd,2);
        }
      work(i);
    }
  S->w[i].pid=pid;
}

int mc_main(int argc,char **argv,const mc_harness *h)
{
  const char *evidence=NULL,*replay=NULL,*replay_out="replay.txt";
  int i,workers=8,alive,watchdog,errors=0;
  double start;
  char *env;

  H=h;
  for (i=1; i < argc; i++)
  {
    if (!strcmp(argv[i],"--tier") && i+1 < argc)
      thorough=!strcmp(argv[++i],"thorough");
    else if (!strcmp(argv[i],"--evidence") && i+1 < argc)
      evidence=argv[++i];
    else if (!strcmp(argv[i],"--replay-out") && i+1 < argc)
      replay_out=argv[++i];
    else if (!strcmp(argv[i],"--replay") && i+1 < argc)
      replay=argv[++i];
    else if (!strcmp(argv[i],"--workers") && i+1 < argc)
      workers=atoi(argv[++i]);
  }
  env=getenv("VERIF_KNOWN");
  if (env)
    {
      char *p;
      known_list=strdup(env);
      for (p=strtok(known_list,"\n"); p && known_count < MAXKNOWN;
           p=strtok(NULL,"\n"))
        known_key[known_count++]=p;
    }
  S=mmap(NULL,sizeof(*S),PROT_READ | PROT_WRITE,MAP_SHARED | MAP_ANONYMOUS |
    MAP_NORESERVE,-1,0);
  if (S == MAP_FAILED)
    {
      perror("mc: mmap");
      return 2;
    }
  S->queued=1;      /* the empty prefix */
  if (replay)
    return do_replay(replay);
  watchdog=h->watchdog ? h->watchdog : 20;
  start=now();
  S->workers=workers;
  deadline=start+(h->time_cap ? h->time_cap : 600);
  fflush(stdout);
  fflush(stderr);
  for (i=0; i < workers; i++)
    spawn(i);
  alive=workers;
  while (alive > 0)
  {
    int status;
    pid_t pid=waitpid(-1,&status,WNOHANG);
    if (pid > 0)
      {
        int k;
        for (k=0; k < workers; k++)
          if (S->w[k].pid == pid)
            break;
        if (k == workers)
          continue;
        S->w[k].pid=0;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 4 && !S->stop &&
            S->w[k].started == 0)
          {
            spawn(k);
            continue;
          }
        alive--;
        if (WIFEXITED(status) && (S->stop || S->w[k].started == 0) &&
            (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 3 ||
             WEXITSTATUS(status) == 4))
          continue;     /* else the code under test called exit */
        if (WIFEXITED(status) && (WEXITSTATUS(status) == 70 ||
            WEXITSTATUS(status) == 71))
          {
            errors++;
            S->stop=1;
            continue;
          }
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL && S->stop)
          continue;
        {
          char message[200];
          if (WIFSIGNALED(status))
            snprintf(message,sizeof(message),"the code under test died with "
              "signal %d (%s)",WTERMSIG(status),strsignal(WTERMSIG(status)));
          else
            snprintf(message,sizeof(message),"the code under test ended the "
              "process with exit status %d%s",WEXITSTATUS(status),
              WEXITSTATUS(status) == 77 ? " (memory error)" : "");
          record_failure(&S->w[k],message);
        }
        continue;
      }
    for (i=0; i < workers; i++)
    {
      double s=S->w[i].started;
      if (S->w[i].pid && s != 0 && now()-s > watchdog)
        {
          if (!S->failed)
            record_failure(&S->w[i],"the call does not terminate");
          kill(S->w[i].pid,SIGKILL);
        }
    }
    usleep(3000);
  }
  if (evidence)
    {
      FILE *f=fopen(evidence,"w");
      int first=1;
      if (!f)
        {
          perror(evidence);
          return 2;
        }
      fprintf(f,"{\"harness\":\"%s\",\"evaluations\":%ld,\"nontrivial\":%ld,"
        "\"distinct\":%ld,\"transitions\":%ld,\"maxdepth\":%ld,\"capped\":%d,"
        "\"wall\":%.2f,\"set_full\":%ld,\"rule\":",h->name,
        S->evaluations,S->nontrivial,S->distinct,S->transitions,S->maxdepth,
        S->capped,now()-start,S->set_full);
      json_string(f,h->rule);
      fprintf(f,",\"counters\":{");
      for (i=0; i < 8; i++)
        if (S->counter_name[i][0])
          {
            fprintf(f,"%s\"%s\":%ld",first ? "" : ",",S->counter_name[i],
              S->counter[i]);
            first=0;
          }
      fprintf(f,"},\"known\":[");
      first=1;
      for (i=0; i < known_count; i++)
        if (S->known[i])
          {
            if (!first)
              fputc(',',f);
            json_string(f,known_key[i]);
            first=0;
          }
      fprintf(f,"],\"samples\":[");
      for (i=0; i < S->samples && i < MAXSAMPLES; i++)
      {
        if (i)
          fputc(',',f);
        json_string(f,S->sample[i]);
      }
      fprintf(f,"],\"failed\":%d,\"message\":",S->failed);
      json_string(f,S->message);
      fprintf(f,"}\n");
      fclose(f);
    }
  fprintf(stderr,"%s: %ld runs, %ld non-trivial, %ld distinct, depth %ld%s, "
    "%.1f s\n",h->name,S->evaluations,S->nontrivial,S->distinct,S->maxdepth,
    S->capped ? ", CAPPED" : "",now()-start);
  if (errors)
    return 2;
  if (S->failed)
    {
      FILE *f=fopen(replay_out,"w");
      if (!f)
        {
          perror(replay_out);
          return 2;
        }
      fprintf(f,"property %s\nharness %s\ntier %s\nmessage %s\nchoices",
        h->property,h->name,thorough ? "thorough" : "quick",S->message);
      for (i=0; i < S->fail_depth; i++)
        fprintf(f," %d",S->fail_val[i]);
      fprintf(f,"\n");
      fclose(f);
      fprintf(stderr,"%s: %s\n",h->name,S->message);
      return 1;
    }
  return 0;
}

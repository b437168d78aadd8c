#define _GNU_SOURCE
#include "sched.h"
#include "mc.h"
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/mman.h>
#include <unistd.h>

/* Library data, collected in these sections when the objects were made. */
extern char __start_wizdata[] __attribute__((weak));
extern char __stop_wizdata[] __attribute__((weak));
extern char __start_wizbss[] __attribute__((weak));
extern char __stop_wizbss[] __attribute__((weak));

/* ---- heap ---------------------------------------------------------------- */

#define ARENA ((char *) 0x100000000000)
#define ARENA_SHADOW ((unsigned char *) 0x110000000000)
#define ARENA_EXTENT (64UL << 20)
#define ARENAS (SCHED_THREADS+1)
#define REDZONE 16

enum { DEAD=0, LIVE=1, FREED=2 };

static size_t arena_used[ARENAS],live_blocks;
static int arena_ready;

static int in_arena(const void *p)
{
  return (const char *) p >= ARENA && (const char *) p < ARENA+ARENAS*ARENA_EXTENT;
}

static unsigned char *shadow(const void *p)
{
  return ARENA_SHADOW+((const char *) p-ARENA);
}

static void arena_init(void)
{
  if (arena_ready)
    return;
  if (mmap(ARENA,ARENAS*ARENA_EXTENT,PROT_READ | PROT_WRITE,MAP_PRIVATE |
      MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE,-1,0) != ARENA ||
      mmap(ARENA_SHADOW,ARENAS*ARENA_EXTENT,PROT_READ | PROT_WRITE,MAP_PRIVATE |
      MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE,-1,0) !=
      (void *) ARENA_SHADOW)
    {
      fprintf(stderr,"sched: cannot map the arena\n");
      _exit(70);
    }
  arena_ready=1;
}

static void arena_reset(void)
{
  int i;
  for (i=0; i < ARENAS; i++)
  {
    memset(shadow(ARENA+i*ARENA_EXTENT),DEAD,arena_used[i]);
    arena_used[i]=0;
  }
  live_blocks=0;
}

/* ---- state --------------------------------------------------------------- */

#define STACK (512*1024)
#define MAXMUTEX 256
#define MAXPICKS 20000

typedef struct
{
  void *sp;
  char *stack;
  int finished,started,saved_errno;
  void *waits;                  /* mutex this thread waits for */
  int (*ready)(void *);
  void *ready_arg;
  const char *what;
} thread;

typedef struct { void *address; int owner,depth,recursive,live; } mutex;

static thread T[SCHED_THREADS+1];       /* 0 is the controlling context */
static int current,active,threads_n;
static const sched_program *P;
static mutex M[MAXMUTEX];
static int mutexes;
static long steps;
static char results[SCHED_THREADS+1][SCHED_OPS][SCHED_TEXT];
static long invoked[SCHED_THREADS+1][SCHED_OPS],returned[SCHED_THREADS+1][SCHED_OPS];
static long stamp;

/* accesses */
#define TABLE (1 << 16)
typedef struct { uintptr_t granule; unsigned gen; unsigned char rmask,wmask; } slot;
static slot table[TABLE];
static unsigned gen;
#define SHAREDSET (1 << 13)
static uintptr_t shared_set[SHAREDSET];
static int shared_count;
static int recording,discovering;

/* discovery's own choice stack */
static int d_val[MAXPICKS],d_n[MAXPICKS],d_depth,d_prefix,d_used,d_bound;

int sched_self(void) { return current; }
int sched_active(void) { return active; }
long sched_step(void) { return steps; }
size_t sched_live(void) { return live_blocks; }
const char *sched_result(int thread,int index) { return results[thread][index]; }

static int choose(int n,int preemption,const char *what)
{
  int v;
  if (!discovering)
    return preemption ? mc_deviate(n,what) : mc_choose(n,what);
  if (preemption && d_used >= d_bound)
    n=1;
  if (d_depth >= MAXPICKS)
    {
      fprintf(stderr,"sched: too many choices\n");
      _exit(70);
    }
  v=d_depth < d_prefix ? d_val[d_depth] : 0;
  if (v >= n)
    v=0;
  d_val[d_depth]=v;
  d_n[d_depth]=n;
  d_depth++;
  if (preemption && v)
    d_used++;
  return v;
}

static void *switch_stack(void **from,void *to);
asm(
  ".text\n.type switch_stack,@function\nswitch_stack:\n"
  "  pushq %rbx\n  pushq %rbp\n  pushq %r12\n  pushq %r13\n  pushq %r14\n"
  "  pushq %r15\n"
  "  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
  "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbp\n"
  "  popq %rbx\n  ret\n.size switch_stack,.-switch_stack\n");

static mutex *find_mutex(void *address)
{
  int i;
  for (i=0; i < mutexes; i++)
    if (M[i].address == address)
      return M+i;
  if (mutexes == MAXMUTEX)
    {
      fprintf(stderr,"sched: too many mutexes\n");
      _exit(70);
    }
  M[mutexes].address=address;
  M[mutexes].owner=-1;
  M[mutexes].depth=0;
  M[mutexes].recursive=0;
  M[mutexes].live=1;
  return M+mutexes++;
}

static int enabled(int t)
{
  if (T[t].finished)
    return 0;
  if (T[t].waits)
    return find_mutex(T[t].waits)->owner < 0;
  if (T[t].ready)
    return T[t].ready(T[t].ready_arg);
  return 1;
}

static void switch_to(int t)
{
  int from=current;
  if (t == from)
    return;
  T[from].saved_errno=errno;
  current=t;
  switch_stack(&T[from].sp,T[t].sp);
  /* back in `from` */
  errno=T[from].saved_errno;
}

/* The current thread cannot continue (or has finished): pick another. */
static void switch_away(int allow_self)
{
  int list[SCHED_THREADS+1],n=0,t;
  for (t=1; t <= threads_n; t++)
    if (t != current && enabled(t))
      list[n++]=t;
  if (n == 0 && allow_self)
    return;
  if (n == 0)
    {
      int unfinished=0;
      char text[400]="";
      for (t=1; t <= threads_n; t++)
        if (!T[t].finished)
          {
            unfinished=1;
            snprintf(text+strlen(text),sizeof(text)-strlen(text),
              " thread %d waits for %s;",t,T[t].waits ? "a lock" :
              T[t].what ? T[t].what : "?");
          }
      if (unfinished)
        mc_fail("deadlock:%s",text);
      switch_to(0);
      return;
    }
  t=list[choose(n,0,"next thread")];
  if (mc_noting() && !discovering)
    mc_note("  [thread %d runs]\n",t);
  switch_to(t);
}

void sched_point(const char *what)
{
  int list[SCHED_THREADS+1],n=0,t,k;
  if (!active || current == 0)
    return;
  steps++;
  if (steps > 200000)
    mc_fail("no progress: a thread does not finish");
  list[n++]=current;
  for (t=1; t <= threads_n; t++)
    if (t != current && enabled(t))
      list[n++]=t;
  if (n == 1)
    return;
  k=choose(n,1,what);
  if (k)
    {
      if (mc_noting() && !discovering)
        mc_note("  [thread %d is preempted at %s, thread %d runs]\n",current,
          what,list[k]);
      switch_to(list[k]);
    }
}

void sched_yield_now(void)
{
  if (!active || current == 0)
    return;
  steps++;
  if (steps > 200000)
    mc_fail("no progress: the threads only wait");
  switch_away(1);
}

void sched_block(int (*ready)(void *),void *arg,const char *what)
{
  if (!active || current == 0)
    return;
  while (!ready(arg))
  {
    T[current].ready=ready;
    T[current].ready_arg=arg;
    T[current].what=what;
    switch_away(0);
    T[current].ready=NULL;
  }
}

/* ---- accesses ------------------------------------------------------------ */

static unsigned hash_granule(uintptr_t g)
{
  return (unsigned) ((g*0x9e3779b97f4a7c15ULL) >> 48);
}

static int is_shared(uintptr_t g)
{
  unsigned i=hash_granule(g) & (SHAREDSET-1);
  while (shared_set[i])
  {
    if (shared_set[i] == g)
      return 1;
    i=(i+1) & (SHAREDSET-1);
  }
  return 0;
}

static void add_shared(uintptr_t g)
{
  unsigned i=hash_granule(g) & (SHAREDSET-1);
  while (shared_set[i])
  {
    if (shared_set[i] == g)
      return;
    i=(i+1) & (SHAREDSET-1);
  }
  if (++shared_count > SHAREDSET/2)
    {
      fprintf(stderr,"sched: too many shared addresses\n");
      _exit(70);
    }
  shared_set[i]=g;
}

static void record(uintptr_t g,int write)
{
  unsigned i=hash_granule(g) & (TABLE-1),probes=0;
  while (table[i].gen == gen && table[i].granule != g)
  {
    i=(i+1) & (TABLE-1);
    if (++probes > TABLE/2)
      return;
  }
  if (table[i].gen != gen)
    {
      table[i].gen=gen;
      table[i].granule=g;
      table[i].rmask=table[i].wmask=0;
    }
  if (write)
    table[i].wmask|=1 << current;
  else
    table[i].rmask|=1 << current;
}

static void check_memory(const void *address,size_t extent,int write)
{
  const unsigned char *s;
  size_t i;
  if (!in_arena(address))
    return;
  s=shadow(address);
  for (i=0; i < extent; i++)
    if (s[i] != LIVE)
      mc_fail("%s of %s memory (thread %d)",write ? "write" : "read",
        s[i] == FREED ? "released" : "unallocated",current);
}

static void on_access(const void *address,size_t extent,int write)
{
  uintptr_t g,last;
  if (extent == 0 || !arena_ready)
    return;
  if (!active || current == 0)
    {
      check_memory(address,extent,write);
      return;
    }
  if (!in_arena(address) &&
      !((const char *) address >= __start_wizdata &&
        (const char *) address < __stop_wizdata) &&
      !((const char *) address >= __start_wizbss &&
        (const char *) address < __stop_wizbss))
    return;
  g=(uintptr_t) address >> 3;
  last=((uintptr_t) address+extent-1) >> 3;
  if (last-g > 64)
    last=g+64;
  if (shared_count)
    {
      uintptr_t x;
      for (x=g; x <= last; x++)
        if (is_shared(x))
          {
            sched_point(write ? "a write" : "a read");
            break;
          }
    }
  check_memory(address,extent,write);
  if (recording)
    for ( ; g <= last; g++)
      record(g,write);
}

/* ---- seams: heap --------------------------------------------------------- */

void *seam_malloc(size_t extent)
{
  size_t total=((extent+15) & ~15UL)+2*REDZONE;
  char *p;
  if (!arena_ready)
    return malloc(extent);
  if (extent > ARENA_EXTENT/2 || arena_used[current]+total > ARENA_EXTENT)
    {
      errno=ENOMEM;
      return NULL;
    }
  p=ARENA+current*ARENA_EXTENT+arena_used[current];
  arena_used[current]+=total;
  *(size_t *) p=extent;
  p+=REDZONE;
  memset(p,0xbe,extent);
  memset(shadow(p),LIVE,extent ? extent : 1);
  live_blocks++;
  return p;
}

void seam_free(void *p)
{
  size_t extent;
  if (p == NULL)
    return;
  if (!in_arena(p))
    {
      free(p);
      return;
    }
  if (*shadow(p) != LIVE)
    mc_fail("memory was released twice (thread %d)",current);
  extent=*(size_t *) ((char *) p-REDZONE);
  if (recording && active && current)
    {
      uintptr_t g=(uintptr_t) p >> 3,last=((uintptr_t) p+extent) >> 3;
      if (last-g > 64)
        last=g+64;
      for ( ; g <= last; g++)
        record(g,1);
    }
  if (active && current && is_shared((uintptr_t) p >> 3))
    {
      sched_point("a release");
      if (*shadow(p) != LIVE)
        mc_fail("memory was released twice (thread %d)",current);
    }
  memset(shadow(p),FREED,extent ? extent : 1);
  memset(p,0xdd,extent);
  live_blocks--;
}

void *seam_calloc(size_t n,size_t size)
{
  void *p;
  if (size && n > (size_t) -1/size)
    return NULL;
  p=seam_malloc(n*size);
  if (p)
    memset(p,0,n*size);
  return p;
}

void *seam_realloc(void *old,size_t extent)
{
  void *p;
  size_t before;
  if (old == NULL)
    return seam_malloc(extent);
  if (!in_arena(old))
    return realloc(old,extent);
  if (*shadow(old) != LIVE)
    mc_fail("released memory was resized (thread %d)",current);
  p=seam_malloc(extent);
  if (p == NULL)
    return NULL;
  before=*(size_t *) ((char *) old-REDZONE);
  memcpy(p,old,before < extent ? before : extent);
  seam_free(old);
  return p;
}

int seam_posix_memalign(void **out,size_t alignment,size_t extent)
{
  char *p;
  size_t total;
  char *block;
  if (alignment <= 16)
    {
      p=seam_malloc(extent);
      if (p == NULL)
        return ENOMEM;
      *out=p;
      return 0;
    }
  total=extent+2*REDZONE+2*alignment;
  if (!arena_ready)
    return posix_memalign(out,alignment,extent);
  if (extent > ARENA_EXTENT/2 || arena_used[current]+total > ARENA_EXTENT)
    return ENOMEM;
  block=ARENA+current*ARENA_EXTENT+arena_used[current];
  arena_used[current]+=(total+15) & ~15UL;
  p=(char *) (((uintptr_t) block+REDZONE+alignment-1) & ~(alignment-1));
  *(size_t *) (p-REDZONE)=extent;
  memset(p,0xbe,extent);
  memset(shadow(p),LIVE,extent ? extent : 1);
  live_blocks++;
  *out=p;
  return 0;
}

void *seam_memalign(size_t alignment,size_t extent)
{
  void *p=NULL;
  return seam_posix_memalign(&p,alignment,extent) == 0 ? p : NULL;
}
void *seam_aligned_alloc(size_t alignment,size_t extent)
{ return seam_memalign(alignment,extent); }

/* ---- seams: strings ------------------------------------------------------ */

void *seam_memcpy(void *d,const void *s,size_t n)
{ on_access(s,n,0); on_access(d,n,1); return memcpy(d,s,n); }
void *seam_memmove(void *d,const void *s,size_t n)
{ on_access(s,n,0); on_access(d,n,1); return memmove(d,s,n); }
void *seam_memset(void *d,int c,size_t n)
{ on_access(d,n,1); return memset(d,c,n); }
int seam_memcmp(const void *a,const void *b,size_t n)
{ on_access(a,n,0); on_access(b,n,0); return memcmp(a,b,n); }
size_t seam_strlen(const char *s)
{
  on_access(s,1,0);
  on_access(s,strlen(s)+1,0);
  return strlen(s);
}
#define STR(s) do { on_access(s,1,0); on_access(s,strlen(s)+1,0); } while (0)
#define STRN(s,n) do { if (n) { on_access(s,1,0); size_t l_=strnlen(s,n); \
  on_access(s,l_ < (n) ? l_+1 : l_,0); } } while (0)
int seam_strcmp(const char *a,const char *b) { STR(a); STR(b); return strcmp(a,b); }
int seam_strcasecmp(const char *a,const char *b)
{ STR(a); STR(b); return strcasecmp(a,b); }
int seam_strncmp(const char *a,const char *b,size_t n)
{ STRN(a,n); STRN(b,n); return strncmp(a,b,n); }
int seam_strncasecmp(const char *a,const char *b,size_t n)
{ STRN(a,n); STRN(b,n); return strncasecmp(a,b,n); }
char *seam_strcpy(char *d,const char *s)
{ STR(s); on_access(d,strlen(s)+1,1); return strcpy(d,s); }
char *seam_strncpy(char *d,const char *s,size_t n)
{ STRN(s,n); on_access(d,n,1); return strncpy(d,s,n); }
char *seam_strcat(char *d,const char *s)
{ STR(s); STR(d); on_access(d+strlen(d),strlen(s)+1,1); return strcat(d,s); }
char *seam_strchr(const char *s,int c) { STR(s); return strchr(s,c); }
char *seam_strrchr(const char *s,int c) { STR(s); return strrchr(s,c); }
char *seam_strdup(const char *s)
{
  char *p;
  STR(s);
  p=seam_malloc(strlen(s)+1);
  return p ? strcpy(p,s) : NULL;
}
char *seam_strndup(const char *s,size_t n)
{
  size_t l=strnlen(s,n);
  char *p=seam_malloc(l+1);
  if (p)
    {
      memcpy(p,s,l);
      p[l]=0;
    }
  return p;
}

/* ---- seams: pthread ------------------------------------------------------ */

int seam_pthread_mutex_init(pthread_mutex_t *m,const pthread_mutexattr_t *attr)
{
  mutex *x=find_mutex(m);
  int type=PTHREAD_MUTEX_DEFAULT;
  if (attr)
    pthread_mutexattr_gettype(attr,&type);
  x->owner=-1;
  x->depth=0;
  x->live=1;
  x->recursive=type == PTHREAD_MUTEX_RECURSIVE;
  memset(m,0,sizeof(*m));
  return 0;
}

int seam_pthread_mutex_lock(pthread_mutex_t *m)
{
  mutex *x;
  check_memory(m,sizeof(*m),0);
  sched_point("a lock");
  check_memory(m,sizeof(*m),0);
  x=find_mutex(m);
  if (!x->live)
    mc_fail("a destroyed lock was locked (thread %d)",current);
  if (x->owner == current)
    {
      if (x->recursive)
        {
          x->depth++;
          return 0;
        }
      if (!active)
        mc_fail("deadlock: a lock was locked twice by its owner");
    }
  if (!active && x->owner >= 0)
    mc_fail("deadlock: a lock is still held by thread %d",x->owner);
  while (x->owner >= 0)
  {
    T[current].waits=m;
    switch_away(0);
    T[current].waits=NULL;
    check_memory(m,sizeof(*m),0);
    x=find_mutex(m);
  }
  if (!x->live)
    mc_fail("a destroyed lock was locked (thread %d)",current);
  x->owner=current;
  x->depth=1;
  return 0;
}

int seam_pthread_mutex_trylock(pthread_mutex_t *m)
{
  mutex *x;
  sched_point("a lock attempt");
  check_memory(m,sizeof(*m),0);
  x=find_mutex(m);
  if (x->owner == current && x->recursive)
    {
      x->depth++;
      return 0;
    }
  if (x->owner >= 0)
    return EBUSY;
  x->owner=current;
  x->depth=1;
  return 0;
}

int seam_pthread_mutex_unlock(pthread_mutex_t *m)
{
  mutex *x;
  check_memory(m,sizeof(*m),0);
  sched_point("an unlock");
  check_memory(m,sizeof(*m),0);
  x=find_mutex(m);
  if (x->owner != current)
    mc_fail("a lock was unlocked by a thread that does not hold it (thread %d)",
      current);
  if (--x->depth == 0)
    x->owner=-1;
  return 0;
}

int seam_pthread_mutex_destroy(pthread_mutex_t *m)
{
  mutex *x;
  check_memory(m,sizeof(*m),0);
  sched_point("a lock destruction");
  x=find_mutex(m);
  if (x->owner >= 0)
    return EBUSY;
  if (in_arena(m))
    x->live=0;
  else
    *x=M[--mutexes];
  return 0;
}

pthread_t seam_pthread_self(void) { return (pthread_t) (1000+current); }
int seam_pthread_equal(pthread_t a,pthread_t b) { return a == b; }

#define KEYS 32
static int keys;
static void *specific[KEYS][SCHED_THREADS+1];
static void (*key_destructor[KEYS])(void *);
int seam_pthread_key_create(pthread_key_t *key,void (*destructor)(void *))
{
  if (keys == KEYS)
    return EAGAIN;
  key_destructor[keys]=destructor;
  memset(specific[keys],0,sizeof(specific[keys]));
  *key=keys++;
  return 0;
}
int seam_pthread_key_delete(pthread_key_t key) { return 0; }
void *seam_pthread_getspecific(pthread_key_t key)
{ return key < KEYS ? specific[key][current] : NULL; }
int seam_pthread_setspecific(pthread_key_t key,const void *value)
{
  if (key >= KEYS)
    return EINVAL;
  specific[key][current]=(void *) value;
  return 0;
}
int seam_pthread_once(pthread_once_t *once,void (*routine)(void))
{
  sched_point("a once");
  if (*once == 0)
    {
      *once=1;
      routine();
    }
  return 0;
}

/* ---- seams: instrumentation ---------------------------------------------- */

void __tsan_init(void) { }
void __tsan_func_entry(void *pc) { }
void __tsan_func_exit(void) { }
void __tsan_vptr_update(void **p,void *v) { on_access(p,8,1); }
void __tsan_vptr_read(void **p) { on_access(p,8,0); }
#define RW(n) \
  void __tsan_read##n(void *p) { on_access(p,n,0); } \
  void __tsan_write##n(void *p) { on_access(p,n,1); } \
  void __tsan_unaligned_read##n(void *p) { on_access(p,n,0); } \
  void __tsan_unaligned_write##n(void *p) { on_access(p,n,1); } \
  void __tsan_volatile_read##n(void *p) { on_access(p,n,0); } \
  void __tsan_volatile_write##n(void *p) { on_access(p,n,1); } \
  void __tsan_unaligned_volatile_read##n(void *p) { on_access(p,n,0); } \
  void __tsan_unaligned_volatile_write##n(void *p) { on_access(p,n,1); } \
  void __tsan_read_write##n(void *p) { on_access(p,n,1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p,size_t n) { on_access(p,n,0); }
void __tsan_write_range(void *p,size_t n) { on_access(p,n,1); }
#define ATOMIC(bits,type) \
  type __tsan_atomic##bits##_load(const volatile type *p,int mo) \
  { on_access((void *) p,sizeof(*p),0); return *p; } \
  void __tsan_atomic##bits##_store(volatile type *p,type v,int mo) \
  { on_access((void *) p,sizeof(*p),1); *p=v; } \
  type __tsan_atomic##bits##_exchange(volatile type *p,type v,int mo) \
  { type o; on_access((void *) p,sizeof(*p),1); o=*p; *p=v; return o; } \
  type __tsan_atomic##bits##_fetch_add(volatile type *p,type v,int mo) \
  { type o; on_access((void *) p,sizeof(*p),1); o=*p; *p=o+v; return o; } \
  type __tsan_atomic##bits##_fetch_sub(volatile type *p,type v,int mo) \
  { type o; on_access((void *) p,sizeof(*p),1); o=*p; *p=o-v; return o; } \
  type __tsan_atomic##bits##_fetch_and(volatile type *p,type v,int mo) \
  { type o; on_access((void *) p,sizeof(*p),1); o=*p; *p=o&v; return o; } \
  type __tsan_atomic##bits##_fetch_or(volatile type *p,type v,int mo) \
  { type o; on_access((void *) p,sizeof(*p),1); o=*p; *p=o|v; return o; } \
  type __tsan_atomic##bits##_fetch_xor(volatile type *p,type v,int mo) \
  { type o; on_access((void *) p,sizeof(*p),1); o=*p; *p=o^v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type *p,type *e, \
    type v,int mo,int fmo) \
  { on_access((void *) p,sizeof(*p),1); if (*p == *e) { *p=v; return 1; } \
    *e=*p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type *p,type *e, \
    type v,int mo,int fmo) \
  { return __tsan_atomic##bits##_compare_exchange_strong(p,e,v,mo,fmo); } \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type *p,type e, \
    type v,int mo,int fmo) \
  { type o; on_access((void *) p,sizeof(*p),1); o=*p; if (o == e) *p=v; return o; }
ATOMIC(8,uint8_t) ATOMIC(16,uint16_t) ATOMIC(32,uint32_t) ATOMIC(64,uint64_t)
void __tsan_atomic_thread_fence(int mo) { }
void __tsan_atomic_signal_fence(int mo) { }

/* ---- running a program --------------------------------------------------- */

static char *data_copy,*bss_copy;

static void globals_save(void)
{
  if (data_copy)
    return;
  data_copy=malloc(__stop_wizdata-__start_wizdata+1);
  bss_copy=malloc(__stop_wizbss-__start_wizbss+1);
  memcpy(data_copy,__start_wizdata,__stop_wizdata-__start_wizdata);
  memcpy(bss_copy,__start_wizbss,__stop_wizbss-__start_wizbss);
}

static void globals_restore(void)
{
  memcpy(__start_wizdata,data_copy,__stop_wizdata-__start_wizdata);
  memcpy(__start_wizbss,bss_copy,__stop_wizbss-__start_wizbss);
}

static void thread_main(void)
{
  int i,me=current;
  for (i=0; i < P->ops[me-1]; i++)
  {
    invoked[me][i]=++stamp;
    P->op(me,i,results[me][i]);
    returned[me][i]=++stamp;
    if (mc_noting() && !discovering)
      mc_note("  thread %d: %s\n",me,results[me][i]);
    sched_point("the end of a call");
  }
  T[me].finished=1;
  switch_away(0);
  abort();
}

static void prepare(void)
{
  static int first=1;
  if (first)
    {
      int t;
      arena_init();
      globals_save();
      for (t=1; t <= SCHED_THREADS; t++)
        T[t].stack=mmap(NULL,STACK,PROT_READ | PROT_WRITE,MAP_PRIVATE |
          MAP_ANONYMOUS,-1,0);
      first=0;
    }
  arena_reset();
  globals_restore();
  mutexes=0;
  keys=0;
  current=0;
  active=0;
  steps=0;
  stamp=0;
  memset(results,0,sizeof(results));
}

static void run_concurrent(const sched_program *p,char *outcome)
{
  int t;
  prepare();
  P=p;
  p->setup();
  threads_n=p->threads;
  for (t=1; t <= threads_n; t++)
  {
    void **sp=(void **) (T[t].stack+STACK-64);
    *--sp=NULL;
    *--sp=(void *) thread_main;
    *--sp=0; *--sp=0; *--sp=0; *--sp=0; *--sp=0; *--sp=0;
    T[t].sp=sp;
    T[t].finished=0;
    T[t].waits=NULL;
    T[t].ready=NULL;
    T[t].saved_errno=0;
  }
  active=1;
  switch_away(0);
  active=0;
  current=0;
  outcome[0]=0;
  p->final(outcome);
}

/* One-at-a-time orders: which thread makes each call. */
#define MAXORDERS 2000
typedef struct { unsigned char order[SCHED_THREADS*SCHED_OPS]; uint64_t hash; } seqrun;
static seqrun *orders;
static int orders_n;
static uint64_t scenario_id;
static int scenario_valid;
static uint64_t outcome_hash(const sched_program *p,const char *final)
{
  uint64_t h=0xcbf29ce484222325ULL;
  int t,i;
  for (t=1; t <= p->threads; t++)
    for (i=0; i < p->ops[t-1]; i++)
    {
      h=mc_hash(h,results[t][i],strlen(results[t][i]));
      h=mc_hash(h,"|",1);
    }
  return mc_hash(h,final,strlen(final));
}

static char explain[8192];

static void run_orders(const sched_program *p,unsigned char *order,int length,
  int *done)
{
  int t,total=0;
  for (t=0; t < p->threads; t++)
    total+=p->ops[t];
  if (length == total)
    {
      int i,next[SCHED_THREADS+1];
      char final[SCHED_TEXT];
      prepare();
      p->setup();
      memset(next,0,sizeof(next));
      for (i=0; i < total; i++)
      {
        t=order[i];
        current=t;      /* own arena and identity, but no switching */
        p->op(t,next[t],results[t][next[t]]);
        next[t]++;
        current=0;
      }
      final[0]=0;
      p->final(final);
      if (orders_n == MAXORDERS)
        {
          fprintf(stderr,"sched: too many orders\n");
          _exit(70);
        }
      memcpy(orders[orders_n].order,order,total);
      orders[orders_n++].hash=outcome_hash(p,final);
      if (mc_replaying())
        {
          size_t l=strlen(explain);
          l+=snprintf(explain+l,sizeof(explain)-l,"  order");
          for (i=0; i < total && l < sizeof(explain)-100; i++)
            l+=snprintf(explain+l,sizeof(explain)-l," %d",order[i]);
          for (t=1; t <= p->threads && l < sizeof(explain)-1000; t++)
            for (i=0; i < p->ops[t-1]; i++)
              l+=snprintf(explain+l,sizeof(explain)-l," %s;",results[t][i]);
          if (l < sizeof(explain)-1000)
            snprintf(explain+l,sizeof(explain)-l," final %s\n",final);
        }
      return;
    }
  for (t=1; t <= p->threads; t++)
    if (done[t] < p->ops[t-1])
      {
        order[length]=t;
        done[t]++;
        run_orders(p,order,length+1,done);
        done[t]--;
      }
}

static int respects(const sched_program *p,const unsigned char *order)
{
  int total=0,t,i,j,next[SCHED_THREADS+1];
  long inv[SCHED_THREADS*SCHED_OPS],ret[SCHED_THREADS*SCHED_OPS];
  for (t=0; t < p->threads; t++)
    total+=p->ops[t];
  memset(next,0,sizeof(next));
  for (i=0; i < total; i++)
  {
    t=order[i];
    inv[i]=invoked[t][next[t]];
    ret[i]=returned[t][next[t]];
    next[t]++;
  }
  for (i=0; i < total; i++)
    for (j=i+1; j < total; j++)
      if (ret[j] < inv[i])      /* the later one had finished before */
        return 0;
  return 1;
}

static void collect_conflicts(int *grown)
{
  int i;
  for (i=0; i < TABLE; i++)
    if (table[i].gen == gen)
      {
        unsigned w=table[i].wmask,all=w | table[i].rmask;
        if (w && (all & (all-1)) && !is_shared(table[i].granule))
          {
            add_shared(table[i].granule);
            *grown=1;
          }
      }
}

static void discover(const sched_program *p)
{
  char final[SCHED_TEXT];
  int rounds,grown=1;
  memset(shared_set,0,sizeof(shared_set));
  shared_count=0;
  discovering=1;
  for (rounds=0; rounds < 6 && grown; rounds++)
  {
    int runs=0;
    grown=0;
    recording=1;
    gen++;
    d_bound=1;
    d_prefix=0;
    for ( ; ; )
    {
      int i;
      d_depth=d_used=0;
      run_concurrent(p,final);
      runs++;
      for (i=d_depth-1; i >= 0; i--)
        if (d_val[i]+1 < d_n[i])
          break;
      if (i < 0 || runs > 3000)
        break;
      d_val[i]++;
      d_prefix=i+1;
    }
    collect_conflicts(&grown);
    recording=0;
  }
  discovering=0;
}

void sched_explore(const sched_program *p)
{
  char final[SCHED_TEXT];
  uint64_t h;
  int i;
  if (!scenario_valid || scenario_id != p->id)
    {
      unsigned char order[SCHED_THREADS*SCHED_OPS];
      int done[SCHED_THREADS+1];
      scenario_valid=0;
      if (!orders)
        orders=malloc(sizeof(*orders)*MAXORDERS);
      orders_n=0;
      explain[0]=0;
      memset(done,0,sizeof(done));
      if (p->sequential)
        run_orders(p,order,0,done);
      discover(p);
      scenario_id=p->id;
      scenario_valid=1;
    }
  mc_budget(p->bound+mc_deviations());
  run_concurrent(p,final);
  h=outcome_hash(p,final);
  mc_observe(&h,sizeof(h));
  mc_observe(&p->id,sizeof(p->id));
  if (mc_deviations() > 0)
    mc_nontrivial();
  mc_note("  final: %s\n",final);
  if (!p->sequential)
    return;
  for (i=0; i < orders_n; i++)
    if (orders[i].hash == h && (p->relaxed || respects(p,orders[i].order)))
      return;
  {
    char text[2000]="";
    int t;
    for (t=1; t <= p->threads; t++)
      for (i=0; i < p->ops[t-1]; i++)
        snprintf(text+strlen(text),sizeof(text)-strlen(text)," thread %d: %s;",t,
          results[t][i]);
    if (mc_replaying())
      fprintf(stderr,"one-at-a-time outcomes:\n%s",explain);
    mc_fail("no one-at-a-time order of the calls gives this outcome:%s final %s",
      text,final);
  }
}

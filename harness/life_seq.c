/*
  Starting, using and stopping the toolkit any number of times, with the program
  ended by a signal at any point: temporary files never stay behind, and the
  program's own signal handlers are left alone.
*/
#include "common.h"
#include "wizard/mime.h"
#include "wizard/resource_.h"
#include "wizard/random_.h"
#include "wizard/semaphore.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static const int signals[]={ SIGTERM,SIGQUIT,SIGHUP,SIGINT,SIGABRT,SIGFPE,SIGSEGV,SIGXCPU,SIGXFSZ };
#define SIGNALS 9
#define OPS 8
#define IDLE (-1)
#define SURVEY (-2)
#define POINTS 100000

enum { START, STOP, TEMP, RELEASE, RANDOM, MIME, CONFIGURE, KINDS };
static const char *const op_names[]={ "start","stop","temporary file","release","random",
  "mime","configure" };

/* what the child says, seen by its parent */
static struct report
{
  int crossings,op,delivered,handled,deadlock,done,live;
  char wrong[300],names[OPS][WizardPathExtent];
  uint64_t at[POINTS];
} *report;

static int ops[OPS],count;
static int in_child,signal_at,signal_sent,second_at,second_sent,own;
static char scratch[300];

/* locks held by the only thread */
static void *held[64];
static int holds;

static int entries(void)
{
  DIR *d=opendir(scratch);
  struct dirent *e;
  int n=0;
  if (d == NULL)
    return(-1);
  while ((e=readdir(d)) != NULL)
    n+=e->d_name[0] != '.';
  closedir(d);
  return(n);
}

/* locks are named by the order in which they are first seen */
static void *seen[8192];
static int locks;

static int lock_name(void *m)
{
  static int old,op=-1;
  int i;
  if (op != report->op)
    {
      /* those of this step alone are not told apart */
      op=report->op;
      old=locks;
    }
  for (i=0; i < locks; i++)
    if (seen[i] == m)
      return(i < old ? i : -2);
  if (locks < 8192)
    seen[locks++]=m;
  return(-2);
}

/* a point where the signal may arrive; what tells it from others is kept */
static void cross(int what,void *lock)
{
  if (!in_child)
    return;
  if (signal_at == SURVEY && report->crossings < POINTS)
    {
      uint64_t h=0;
      int i,n[3];
      for (i=0; i < holds; i++)
        h+=mc_hash(17,&(int){ lock_name(held[i]) },sizeof(int));
      n[0]=report->op*16+what;
      n[1]=lock != NULL ? lock_name(lock) : -1;
      n[2]=entries();
      report->at[report->crossings]=mc_hash(h,n,sizeof(n));
    }
  report->crossings++;
  if (signal_sent && (report->crossings == signal_at || (signal_at == IDLE && report->op == count)))
    {
      if (signal_at == IDLE)
        signal_at=report->crossings;
      report->delivered++;
      raise(signal_sent);
    }
  if (second_sent && report->delivered && report->crossings == signal_at+second_at)
    raise(second_sent);
}

int seam_pthread_mutex_lock(pthread_mutex_t *m)
{
  int i;
  cross(0,m);
  if (in_child)
    {
      for (i=0; i < holds; i++)
        if (held[i] == m)
          {
            report->deadlock=1;
            _exit(99);
          }
      if (holds < 64)
        held[holds++]=m;
    }
  return(pthread_mutex_lock(m));
}

int seam_pthread_mutex_unlock(pthread_mutex_t *m)
{
  int i,r;
  r=pthread_mutex_unlock(m);
  if (in_child)
    {
      for (i=0; i < holds; i++)
        if (held[i] == m)
          {
            held[i]=held[--holds];
            break;
          }
      cross(1,m);
    }
  return(r);
}

int seam_pthread_mutex_destroy(pthread_mutex_t *m)
{
  int i;
  for (i=0; i < locks; i++)
    if (seen[i] == m)
      seen[i]=NULL;
  return(pthread_mutex_destroy(m));
}

int seam_open(const char *path,int flags,...)
{
  va_list list;
  int mode,fd;
  va_start(list,flags);
  mode=va_arg(list,int);
  va_end(list);
  cross(2,NULL);
  fd=open(path,flags,mode);
  cross(3,NULL);
  return(fd);
}

int seam_open64(const char *path,int flags,...)
{
  va_list list;
  int mode,fd;
  va_start(list,flags);
  mode=va_arg(list,int);
  va_end(list);
  cross(2,NULL);
  fd=open(path,flags,mode);
  cross(3,NULL);
  return(fd);
}

/* only files of the scratch home are ever removed */
static int inside(const char *path)
{
  const char *home=getenv("WIZARD_HOME");
  return(strncmp(path,home,strlen(home)) == 0 && strstr(path,"..") == NULL);
}

int seam_unlink(const char *path)
{
  int r;
  cross(4,NULL);
  if (!inside(path))
    {
      if (in_child)
        snprintf(report->wrong,sizeof(report->wrong),"removal of %.200s",path);
      return(0);
    }
  r=unlink(path);
  cross(5,NULL);
  return(r);
}

int seam_remove(const char *path)
{
  return(seam_unlink(path));
}

static void by_user(int s)
{
  (void) s;
  report->handled++;
}

static void wrong(const char *what,int op)
{
  if (report->wrong[0] == '\0')
    snprintf(report->wrong,sizeof(report->wrong),"step %d (%s): %s",op,op >= 0 && op < count ?
      op_names[ops[op]] : "end",what);
}

static void child(void)
{
  char (*names)[WizardPathExtent]=report->names;
  ExceptionInfo *exception=NULL;
  int i,live=0,started=0,k;

  in_child=1;
  for (i=0; i < count; i++)
  {
    report->op=i;
    switch (ops[i])
    {
      case START:
        WizardsToolkitGenesis("/usr/bin/life");
        if (exception == NULL)
          exception=AcquireExceptionInfo();
        started=1;
        break;
      case STOP:
        report->live=0;
        WizardsToolkitTerminus();
        started=0;
        live=0;
        break;
      case TEMP:
        {
          int fd=AcquireUniqueFileResource("",names[live],exception);
          if (fd < 0)
            wrong("no temporary file",i);
          else
            {
              if (!inside(names[live]) || access(names[live],F_OK) != 0)
                wrong("the temporary file is not there",i);
              for (k=0; k < live; k++)
                if (strcmp(names[k],names[live]) == 0)
                  wrong("the same temporary file twice",i);
              close(fd);
              live++;
            }
          break;
        }
      case RELEASE:
        report->live=0;
        if (RelinquishUniqueFileResource(names[0],WizardTrue) == WizardFalse)
          wrong("a temporary file is not released",i);
        if (access(names[0],F_OK) == 0)
          wrong("a released temporary file is still there",i);
        live--;
        memmove(names[0],names[1],sizeof(names[0])*live);
        break;
      case RANDOM:
        {
          RandomInfo *random_info=AcquireRandomInfo(SHA2256Hash);
          StringInfo *key=GetRandomKey(random_info,8);
          if (key == NULL || GetStringInfoLength(key) != 8)
            wrong("no random key",i);
          DestroyStringInfo(key);
          DestroyRandomInfo(random_info);
          break;
        }
      case MIME:
        {
          const MimeInfo *info=GetMimeInfo((char *) "a.png",(unsigned char *) "\x89PNG\r\n\x1a\n",8,exception);
          if (info == NULL || strcmp(GetMimeType(info),"image/png") != 0)
            wrong("a picture is not recognized",i);
          break;
        }
      case CONFIGURE:
        {
          const char *value=GetConfigureValue(GetConfigureInfo("version",exception));
          if (value == NULL || strcmp(value,"9.9") != 0)
            wrong("a setting is not found",i);
          break;
        }
    }
    if (started && GetWizardResource(FileResource) != (WizardSizeType) live)
      wrong("the number of open temporary files is wrong",i);
    if (entries() != live)
      wrong("the files do not match those in use",i);
    report->live=live;
  }
  report->op=count;
  cross(6,NULL);
  if (!signal_sent)
    {
      WizardsToolkitTerminus();
      if (entries() != 0)
        wrong("a temporary file outlives the toolkit",count);
    }
  report->done=1;
  in_child=0;
  _exit(0);
}

static int run(int at,int sig,int at2,int sig2)
{
  pid_t pid;
  int status=0;
  memset(report,0,sizeof(*report));
  signal_at=at;
  signal_sent=sig;
  second_at=at2;
  second_sent=sig2;
  pid=fork();
  if (pid == 0)
    {
      int i;
      for (i=0; i < SIGNALS; i++)
        signal(signals[i],SIG_DFL);
      if (own == 1)
        signal(sig,SIG_IGN);
      if (own == 2)
        signal(sig,by_user);
      signal(SIGALRM,SIG_DFL);
      alarm(10);
      child();
    }
  MC_CHECK(pid > 0,"no child");
  while (waitpid(pid,&status,0) < 0 && errno == EINTR)
    ;
  return(status);
}

static void clean_directory(const char *directory)
{
  DIR *d=opendir(directory);
  struct dirent *e;
  char path[700];
  while (d != NULL && (e=readdir(d)) != NULL)
    if (e->d_name[0] != '.' && strstr(e->d_name,".xml") == NULL)
      {
        snprintf(path,sizeof(path),"%s/%s",directory,e->d_name);
        unlink(path);
      }
  if (d != NULL)
    closedir(d);
}

/* the home is left with the two files that belong there */
static void clean(void)
{
  clean_directory(scratch);
  clean_directory(getenv("WIZARD_HOME"));
}

static void text(const char *path,const char *what)
{
  FILE *f=fopen(path,"w");
  MC_CHECK(f != NULL,"cannot write %s",path);
  fputs(what,f);
  fclose(f);
}

static void prepare(void)
{
  char path[400];
  static int ready;
  if (ready)
    return;
  ready=1;
  snprintf(scratch,sizeof(scratch),"%s/tmp",getenv("WIZARD_HOME"));
  mkdir(getenv("WIZARD_HOME"),0700);
  mkdir(scratch,0700);
  setenv("WIZARD_TMPDIR",scratch,1);
  setenv("WIZARD_CONFIGURE_PATH",getenv("WIZARD_HOME"),1);
  snprintf(path,sizeof(path),"%s/configure.xml",getenv("WIZARD_HOME"));
  text(path,"<?xml version=\"1.0\"?>\n<configuremap>\n<configure name=\"version\" value=\"9.9\"/>\n</configuremap>\n");
  snprintf(path,sizeof(path),"%s/mime.xml",getenv("WIZARD_HOME"));
  text(path,"<?xml version=\"1.0\"?>\n<mimemap>\n<mime type=\"image/png\" acronym=\"PNG\" description=\"x\" "
    "data-type=\"string\" offset=\"1\" magic=\"PNG\" priority=\"50\" pattern=\"*.png\" />\n</mimemap>\n");
  report=mmap(NULL,sizeof(*report),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  MC_CHECK(report != MAP_FAILED,"no shared memory");
}

static void describe(void)
{
  int i;
  for (i=0; i < count; i++)
    mc_note("%s; ",op_names[ops[i]]);
}

static void body(void)
{
  static int last[OPS],last_count=-1,last_points,points[POINTS];
  int depth=mc_thorough() ? 6 : 5,started,live=0,i,status,ending,sig,at,before,after,kept=0,second=0,sig2=0;

  prepare();
  clean();
  count=0;
  own=0;
  ops[count++]=START;
  started=1;
  while (count < depth)
  {
    static const int on[]={ TEMP,STOP,START,RANDOM,MIME,CONFIGURE,RELEASE };
    int k=mc_choose(1+(started ? 6+(live > 0) : 1),"step");
    if (k == 0)
      break;
    k=started ? on[k-1] : START;
    if (k == START)
      started=1;
    if (k == STOP)
      started=live=0;
    live+=(k == TEMP)-(k == RELEASE);
    ops[count++]=k;
  }
  describe();
  ending=mc_choose(3+(live > 0 && count <= 3),"ending");
  if (ending == 0)
    {
      /* the program stops the toolkit and ends */
      status=run(0,0,0,0);
      MC_CHECK(report->wrong[0] == '\0',"%s",report->wrong);
      MC_CHECK(report->deadlock == 0,"step %d waits for itself",report->op);
      MC_CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0 && report->done,"ended with status %x in step %d",status,
        report->op);
      mc_nontrivial();
      mc_observe_int(entries());
      return;
    }
  if (last_count != count || memcmp(last,ops,sizeof(int)*count) != 0)
    {
      /* the points up to the end; of those alike the first two and the last */
      int k,n;
      run(SURVEY,SIGTERM,0,0);
      clean();
      MC_CHECK(report->crossings < POINTS,"too many points");
      last_count=count;
      memcpy(last,ops,sizeof(int)*count);
      last_points=0;
      for (i=0; i < report->crossings; i++)
      {
        for (k=i-1,n=0; k >= 0 && n < 2; k--)
          n+=report->at[k] == report->at[i];
        if (n == 2)
          {
            for (k=i+1; k < report->crossings && report->at[k] != report->at[i]; k++)
              ;
            if (k < report->crossings)
              continue;
          }
        points[last_points++]=i+1;
      }
    }
  if (ending == 1)
    {
      /* each signal finds the program idle, with its own handler or none */
      int full=mc_thorough() ? 4 : 3;
      if (count > full+1)
        mc_skip();
      sig=signals[mc_choose(count > full ? 2 : SIGNALS,"signal")];
      own=mc_choose(3,"handler");
      at=IDLE;
    }
  else if (ending == 2)
    {
      if (count > (mc_thorough() ? 4 : 3))
        mc_skip();
      sig=signals[mc_choose(count > (mc_thorough() ? 3 : 2) ? 1 : 2,"signal")];
      at=points[mc_choose(last_points,"point")];
    }
  if (ending == 3)
    {
      /* a second signal finds the program ending */
      sig=SIGTERM;
      at=IDLE;
      second=1+mc_choose(1+6*live,"second point");
      sig2=signals[mc_choose(4,"second signal")];
    }
  status=run(at,sig,second,sig2);
  MC_CHECK(report->wrong[0] == '\0',"%s",report->wrong);
  before=report->op;
  after=entries();
  /* the files handed out; one being made or given back may stay */
  for (i=0; i < report->live; i++)
    kept+=access(report->names[i],F_OK) == 0;
  mc_note("signal %d at point %d of %d (step %d)\n",sig,at,last_points,before);
  clean();
  if (own != 0)
    {
      MC_CHECK(report->done && WIFEXITED(status) && WEXITSTATUS(status) == 0,"signal %d ends the program that %s it: %x",sig,
        own == 1 ? "ignores" : "handles",status);
      MC_CHECK(report->handled == (own == 2),"the handler of signal %d ran %d times",sig,report->handled);
      mc_nontrivial();
      return;
    }
  MC_CHECK(report->delivered == 1,"the signal is not delivered");
  if ((report->deadlock || WTERMSIG(status) == SIGABRT) && before < count && (ops[before] == TEMP || ops[before] == RELEASE || ops[before] == STOP) &&
      mc_known("signal-in-request"))
    return;
  MC_CHECK(!report->deadlock,"signal %d in step %d: the program waits for itself",sig,before);
  MC_CHECK(!(WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM),"signal %d in step %d: the program hangs",sig,before);
  MC_CHECK(!report->done && (WIFSIGNALED(status) || WEXITSTATUS(status) != 0),"signal %d does not end the program",sig);
  if (ending == 3 && (WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status)) == sig2)
    sig=sig2;
  MC_CHECK(WIFSIGNALED(status) ? WTERMSIG(status) == sig : WEXITSTATUS(status) == sig,
    "signal %d ends the program with status %x",sig,status);
  MC_CHECK(kept == 0,"signal %d in step %d leaves %d of %d temporary files",sig,before,kept,report->live);
  MC_CHECK(after == 0 || (before < count && (ops[before] == TEMP || ops[before] == RELEASE || ops[before] == STOP)),
    "signal %d in step %d leaves a temporary file",sig,before);
  mc_observe_int(sig);
  mc_nontrivial();
}

int main(int argc,char **argv)
{
  static mc_harness h={ .property="C56",.name="life_seq",.rule="a stopped or ended program leaves no temporary files",
    .body=body,.watchdog=30 };
  return(mc_main(argc,argv,&h));
}

/*
  Memory requests that are refused.

  A history first runs undisturbed, then in a process of its own with one
  request refused.  The process may end with a fatal error; otherwise every
  outcome up to the first reported failure is the undisturbed one.
*/
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "histories.h"

static char (*shared)[sizeof(told)];

static void body(void)
{
  static char expected[sizeof(told)];
  const char *p,*q;
  static uint64_t known;
  static long n;
  uint64_t key;
  long first,which;
  pid_t child;
  int i,status;
  if (shared == NULL)
    shared=mmap(NULL,sizeof(told),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  choose(1);
  which=mc_choose(mc_thorough() ? 1000 : 300,"refused request")+1;
  key=mc_hash(mc_hash(kind*10+config+1,step,steps*sizeof(*step)),input,strlen(input)+1);
  if (key == known && which > n)
    mc_skip();
  for (i=0; i < 2; i++)
  {
    /* the first time fills caches */
    fresh();
    exception=AcquireExceptionInfo();
    first=requests;
    kinds[kind].run();
    n=requests-first;
    DestroyExceptionInfo(exception);
  }
  known=key;
  strcpy(expected,told);
  if (which > n)
    mc_skip();
  fresh();
  shared[0][0]='\0';
  fflush(NULL);
  child=fork();
  if (child == 0)
    {
      alarm(60);
      exception=AcquireExceptionInfo();
      refused=requests+which;
      kinds[kind].run();
      refused=0;
      if (GetExceptionSeverity(exception) >= ErrorException)
        say("-");
      strcpy(*shared,told);
      DestroyExceptionInfo(exception);
      _exit(0);
    }
  MC_CHECK(child > 0,"fork");
  while (waitpid(child,&status,0) == -1);
  mc_transition();
  mc_nontrivial();
  MC_CHECK(!WIFSIGNALED(status),"request %ld refused: the program ends with signal %d",which,WTERMSIG(status));
  mc_observe_int(kind*1000+WEXITSTATUS(status));
  if (WEXITSTATUS(status) != 0)
    return;
  for (p=expected, q=*shared; *p && *p == *q; p++, q++);
  while (q > *shared && q[-1] != '\n')
    q--;
  if (strcmp(expected,*shared) != 0)
    MC_CHECK(strncmp(q,"-\n",2) == 0,"request %ld refused: outcomes\n%s instead of\n%s",which,*shared,expected);
}

/* configurations are read once by a process */
static void prepare(void)
{
  init();
  fresh();
  exception=AcquireExceptionInfo();
  config=8;
  texts();
  config=0;
  DestroyExceptionInfo(exception);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C59", .name="refuse_seq",
    .rule="every history of calls up to the depth bound on every kind of object with every single memory request "
      "refused; non-trivial when a request was refused",
    .init=prepare, .body=body
  };
  return(mc_main(argc,argv,&h));
}

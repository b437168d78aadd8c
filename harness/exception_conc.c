/*
  All interleavings of threads that throw, inherit, clear and catch.
*/
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "mc.h"
#include "sched.h"

static ExceptionInfo *x[2];
static int pre[2],op_of[SCHED_THREADS+1][SCHED_OPS];
static char *where[SCHED_THREADS+1];

enum { THROW_A, THROW_B, THROW_C, INHERIT01, INHERIT10, CATCH0, CLEAR0, CATCH1, OPS };

static const char *op_name[]={ "throw a","throw b","throw other","0<-1","1<-0","catch 0","clear 0","catch 1" };

static void deliver(const char *class,const ExceptionType s,const char *r,const char *d)
{
  SCHED_APPEND(where[sched_self()],"%s%d%s%s,",class,(int) s,r == NULL ? "-" : r,d == NULL ? "" : d);
}

static void on_warning(const ExceptionType s,const char *r,const char *d) { deliver("w",s,r,d); }
static void on_error(const ExceptionType s,const char *r,const char *d) { deliver("e",s,r,d); }
static void on_fatal(const ExceptionType s,const char *r,const char *d) { deliver("f",s,r,d); }

static void setup(void)
{
  int i;
  SetWarningHandler(on_warning);
  SetErrorHandler(on_error);
  SetFatalErrorHandler(on_fatal);
  for (i=0; i < 2; i++)
  {
    x[i]=AcquireExceptionInfo();
    if (pre[i] > 0)
      ThrowException(x[i],i == 0 ? OptionWarning : HashError,i == 0 ? "p" : "q",NULL);
    if (pre[i] > 1)
      ThrowException(x[i],OptionFatalError,i == 0 ? "r" : "s","t");
  }
}

static void op(int thread,int index,char *r)
{
  int k=op_of[thread][index];
  SCHED_APPEND(r,"%s ",op_name[k]);
  where[sched_self()]=r;
  switch (k)
  {
    case THROW_A: ThrowException(x[0],OptionWarning,"a",NULL); break;
    case THROW_B: ThrowException(x[0],BlobFatalError,"b","d"); break;
    case THROW_C: ThrowException(x[1],BlobError,"c",NULL); break;
    case INHERIT01: InheritException(x[0],x[1]); break;
    case INHERIT10: InheritException(x[1],x[0]); break;
    case CATCH0: CatchException(x[0]); break;
    case CLEAR0: ClearWizardException(x[0]); break;
    case CATCH1: CatchException(x[1]); break;
  }
}

static void final(char *r)
{
  int i;
  for (i=0; i < 2; i++)
  {
    SCHED_APPEND(r,"%d: %d ",i,(int) GetExceptionSeverity(x[i]));
    where[0]=r;
    CatchException(x[i]);
    x[i]=DestroyExceptionInfo(x[i]);
  }
}

static void body(void)
{
  sched_program p;
  int i,t,shape,n;
  memset(&p,0,sizeof(p));
  shape=mc_choose(3,"shape");
  pre[0]=shape == 0 ? mc_choose(3,"pending in 0") : 1;
  pre[1]=shape == 0 ? mc_choose(3,"pending in 1") : 1;
  p.sequential=1;
  p.setup=setup;
  p.op=op;
  p.final=final;
  p.threads=shape == 2 ? 3 : 2;
  p.bound=shape == 0 || mc_thorough() ? 2 : 1;
  if (shape == 0 && (mc_thorough() || (pre[0] < 2 && pre[1] < 2)))
    p.bound=3;
  n=0;
  for (t=1; t <= p.threads; t++)
  {
    p.ops[t-1]=shape == 1 ? 2 : 1;
    for (i=0; i < p.ops[t-1]; i++)
      op_of[t][i]=mc_choose(OPS,"call");
  }
  for (t=1; t <= p.threads; t++)
    for (i=0; i < p.ops[t-1]; i++)
      n=n*OPS+op_of[t][i];
  p.id=n*1000+shape+10*pre[0]+100*pre[1];
  mc_note("%d pending in 0, %d in 1\n",pre[0],pre[1]);
  sched_explore(&p);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C09", .name="exception_conc",
    .rule="every interleaving up to the preemption bound of 2-3 threads making 1-2 throws, inheritances, clears or "
      "catches on two shared objects; non-trivial when a thread was preempted",
    .time_cap=420, .body=body
  };
  return(mc_main(argc,argv,&h));
}

/*
  All interleavings of threads that activate and lock semaphores.
*/
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "wizard/semaphore.h"
#include "wizard/semaphore-private.h"
#include "mc.h"
#include "sched.h"

static int unset,op_of[SCHED_THREADS+1][SCHED_OPS];
static SemaphoreInfo *a,*b,*seen_a[16],*seen_b[16];
static int seen,inside[2],counter[2],entered[2];
static size_t live;

enum { ACTIVATE, LOCK_A, LOCK_B, LOCK_BOTH, LOCK_TWICE, ACTIVATE_BOTH, OPS };

static const char *op_name[]={ "activate","lock A","lock B","lock A and B","lock A twice","activate both" };

static void touch(int which)
{
  int n;
  if (inside[which])
    mc_fail("thread %d owns semaphore %c while thread %d owns it",sched_self(),'A'+which,inside[which]);
  inside[which]=sched_self();
  n=counter[which];
  sched_point("inside");
  if (inside[which] != sched_self())
    mc_fail("ownership of semaphore %c of thread %d was broken",'A'+which,sched_self());
  counter[which]=n+1;
  entered[which]++;
  sched_point("inside");
  inside[which]=0;
}

static void setup(void)
{
  live=sched_live();
  a=b=NULL;
  if (!unset)
    {
      a=AcquireSemaphoreInfo();
      b=AcquireSemaphoreInfo();
    }
  seen=0;
  memset(inside,0,sizeof(inside));
  memset(counter,0,sizeof(counter));
  memset(entered,0,sizeof(entered));
}

static void need(SemaphoreInfo **s)
{
  if (*s == NULL)
    ActivateSemaphoreInfo(s);
}

static void op(int thread,int index,char *r)
{
  int k=op_of[thread][index],n;
  SCHED_APPEND(r,"%s",op_name[k]);
  switch (k)
  {
    case ACTIVATE:
      ActivateSemaphoreInfo(&a);
      break;
    case ACTIVATE_BOTH:
      ActivateSemaphoreInfo(&b);
      ActivateSemaphoreInfo(&a);
      break;
    case LOCK_A:
    case LOCK_TWICE:
      for (n=0; n < (k == LOCK_A ? 1 : 2); n++)
      {
        need(&a);
        LockSemaphoreInfo(a);
        touch(0);
        UnlockSemaphoreInfo(a);
      }
      break;
    case LOCK_B:
      need(&b);
      LockSemaphoreInfo(b);
      touch(1);
      UnlockSemaphoreInfo(b);
      break;
    case LOCK_BOTH:
      need(&a);
      need(&b);
      LockSemaphoreInfo(a);
      LockSemaphoreInfo(b);
      touch(1);
      UnlockSemaphoreInfo(b);
      touch(0);
      UnlockSemaphoreInfo(a);
      break;
  }
  if (((k == ACTIVATE) || (k == LOCK_A)) && (a == NULL))
    mc_fail("thread %d has no semaphore after activating it",thread);
  if (seen < 16)
    {
      seen_a[seen]=a;
      seen_b[seen++]=b;
    }
}

static void final(char *r)
{
  int i;
  for (i=0; i < 2; i++)
  {
    if (counter[i] != entered[i])
      mc_fail("semaphore %c was entered %d times and %d changes were kept",'A'+i,entered[i],counter[i]);
    if (inside[i])
      mc_fail("semaphore %c is still owned",'A'+i);
  }
  for (i=0; i < seen; i++)
    if ((seen_a[i] && (seen_a[i] != a)) || (seen_b[i] && (seen_b[i] != b)))
      mc_fail("two threads activated different semaphores");
  SCHED_APPEND(r,"%d %d",entered[0],entered[1]);
  /* both can still be locked */
  if (a)
    {
      LockSemaphoreInfo(a);
      UnlockSemaphoreInfo(a);
      RelinquishSemaphoreInfo(&a);
      if (a)
        mc_fail("a released semaphore keeps its address");
    }
  if (b)
    {
      LockSemaphoreInfo(b);
      UnlockSemaphoreInfo(b);
      RelinquishSemaphoreInfo(&b);
    }
  if (sched_live() != live)
    mc_fail("%zu more blocks are live than before: a semaphore was made twice",sched_live()-live);
}

static void body(void)
{
  sched_program p;
  int i,t,shape;
  memset(&p,0,sizeof(p));
  shape=mc_choose(3,"shape");
  unset=mc_choose(2,"unset");
  p.sequential=1;
  p.setup=setup;
  p.op=op;
  p.final=final;
  p.threads=shape == 2 ? 3 : 2;
  p.bound=(shape == 2 ? 2 : 3)+(mc_thorough() ? 1 : 0);
  for (t=1; t <= p.threads; t++)
  {
    p.ops[t-1]=shape == 1 ? 2 : 1;
    for (i=0; i < p.ops[t-1]; i++)
      op_of[t][i]=mc_choose(OPS,"call");
  }
  p.id=shape+10*unset+100*p.bound;
  for (t=1; t <= p.threads; t++)
    for (i=0; i < p.ops[t-1]; i++)
      p.id=p.id*OPS+op_of[t][i];
  mc_note("semaphores %s\n",unset ? "not yet active" : "active");
  sched_explore(&p);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C07", .name="semaphore_conc",
    .rule="every interleaving up to the preemption bound of 2-3 threads that activate, lock and "
      "unlock two semaphores; non-trivial when a thread was preempted",
    .body=body
  };
  return(mc_main(argc,argv,&h));
}

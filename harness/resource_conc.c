/*
  All interleavings of threads that acquire and release resources.
*/
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "wizard/resource_.h"
#include "mc.h"
#include "sched.h"

extern WizardSizeType GetWizardResourceLimit(const ResourceType);

static const ResourceType kinds[]={ MemoryResource,FileResource,MapResource,DiskResource };
static ResourceType kind;
static int threads,fresh,op_of[SCHED_THREADS+1][SCHED_OPS],got[SCHED_THREADS+1];

enum { ACQUIRE2, ACQUIRE3, RELEASE2, LIMIT4, LIMIT9, USED, LIMIT, OPS };

static const char *op_name[]={ "acquire 2","acquire 3","release 2","lower limit","higher limit","in use","limit" };

static void setup(void)
{
  int t;
  SetWizardResourceLimit(kind,2*threads+4);
  while (GetWizardResource(kind) > 0)
    RelinquishWizardResource(kind,1);
  memset(got,0,sizeof(got));
  for (t=1; t <= threads; t++)
  {
    AcquireWizardResource(kind,2);
    got[t]=2;
  }
  if (fresh)
    ResourceComponentTerminus();
}

static void op(int thread,int index,char *r)
{
  int k=op_of[thread][index],g;
  SCHED_APPEND(r,"%s ",op_name[k]);
  switch (k)
  {
    case ACQUIRE2:
    case ACQUIRE3:
      g=AcquireWizardResource(kind,k == ACQUIRE2 ? 2 : 3) != WizardFalse;
      if (g)
        got[thread]+=k == ACQUIRE2 ? 2 : 3;
      SCHED_APPEND(r,"%d",g);
      break;
    case RELEASE2:
      if (got[thread] < 2)
        break;
      got[thread]-=2;
      RelinquishWizardResource(kind,2);
      break;
    case LIMIT4: SetWizardResourceLimit(kind,2*threads+2); break;
    case LIMIT9: SetWizardResourceLimit(kind,2*threads+7); break;
    case USED: SCHED_APPEND(r,"%d",(int) GetWizardResource(kind)); break;
    case LIMIT: SCHED_APPEND(r,"%d",(int) GetWizardResourceLimit(kind)); break;
  }
}

static void final(char *r)
{
  int i,n=0,used=(int) GetWizardResource(kind);
  for (i=0; i <= SCHED_THREADS; i++)
    n+=got[i];
  if (used != n)
    mc_fail("%d in use, %d were granted and not released",used,n);
  SCHED_APPEND(r,"%d of %d",used,(int) GetWizardResourceLimit(kind));
  for (; n > 0; n--)
    RelinquishWizardResource(kind,1);
}

static void body(void)
{
  sched_program p;
  int i,t,shape;
  memset(&p,0,sizeof(p));
  shape=mc_choose(3,"shape");
  fresh=mc_choose(2,"fresh");
  kind=kinds[shape == 0 ? mc_choose(4,"resource") : 0];
  p.sequential=1;
  p.setup=setup;
  p.op=op;
  p.final=final;
  threads=p.threads=shape == 2 ? 3 : 2;
  p.bound=(shape == 0 ? 3 : 2)+(mc_thorough() ? 1 : 0);
  for (t=1; t <= p.threads; t++)
  {
    p.ops[t-1]=shape == 1 ? 2 : 1;
    for (i=0; i < p.ops[t-1]; i++)
      op_of[t][i]=mc_choose(shape == 1 ? 5 : OPS,"call");
  }
  p.id=shape+10*fresh+100*p.bound+1000*kind;
  for (t=1; t <= p.threads; t++)
    for (i=0; i < p.ops[t-1]; i++)
      p.id=p.id*OPS+op_of[t][i];
  mc_note("%s\n",fresh ? "lock not yet made" : "lock made");
  sched_explore(&p);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C08", .name="resource_conc",
    .rule="every interleaving up to the preemption bound of 2-3 threads making 1-2 requests, releases or "
      "limit changes; non-trivial when a thread was preempted",
    .body=body
  };
  return(mc_main(argc,argv,&h));
}

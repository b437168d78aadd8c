/*
  All interleavings of threads that draw from one generator, or make their own.
*/
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "wizard/random_.h"
#include "mc.h"
#include "sched.h"
#include "simfs.h"

int seam_mkdir(const char *,mode_t);

static int op_of[SCHED_THREADS+1][SCHED_OPS],start;
static RandomInfo *shared;
static unsigned char made[16][16];
static int generators;

enum { BYTES3, BYTES32, BYTES37, BYTES8, VALUE, PSEUDO, OPS, OWN=OPS };

static const char *op_name[]={ "3 bytes","32 bytes","37 bytes","8 bytes","value","pseudo-random value","own generator" };

static void setup(void)
{
  unsigned char skip[64];
  sim_reset();
  seam_mkdir("/sim/home",0700);
  shared=AcquireRandomInfo(SHA2256Hash);
  if (shared == NULL)
    mc_fail("no generator");
  if (start)
    SetRandomKey(shared,start,skip);
  generators=0;
}

static void op(int thread,int index,char *r)
{
  static const int sizes[]={ 3,32,37,8 };
  int k=op_of[thread][index],i;
  unsigned char p[64];
  SCHED_APPEND(r,"%s ",op_name[k]);
  switch (k)
  {
    case VALUE: SCHED_APPEND(r,"%.17g",GetRandomValue(shared)); break;
    case PSEUDO: SCHED_APPEND(r,"%.17g",GetPseudoRandomValue(shared)); break;
    case OWN:
    {
      RandomInfo *own=AcquireRandomInfo(SHA2256Hash);
      if (own == NULL)
        {
          SCHED_APPEND(r,"refused");
          break;
        }
      SetRandomKey(own,16,p);
      own=DestroyRandomInfo(own);
      i=generators++;
      memcpy(made[i],p,16);
      break;
    }
    default:
      memset(p,0,sizeof(p));
      SetRandomKey(shared,sizes[k],p);
      for (i=0; i < sizes[k]; i++)
        SCHED_APPEND(r,"%02x",p[i]);
      break;
  }
}

static void final(char *r)
{
  unsigned char p[16];
  int i,j;
  SetRandomKey(shared,16,p);
  for (i=0; i < 16; i++)
    SCHED_APPEND(r,"%02x",p[i]);
  SCHED_APPEND(r," %.17g",GetPseudoRandomValue(shared));
  shared=DestroyRandomInfo(shared);
  for (i=0; i < generators; i++)
  {
    if (memcmp(made[i],p,16) == 0)
      mc_fail("two generators hand out the same bytes");
    for (j=0; j < i; j++)
      if (memcmp(made[i],made[j],16) == 0)
        mc_fail("two generators hand out the same bytes");
  }
}

static void body(void)
{
  static const int starts[]={ 0,1,30 },few[]={ BYTES3,BYTES37,VALUE,PSEUDO };
  sched_program p;
  int i,t,shape;
  memset(&p,0,sizeof(p));
  setenv("WIZARD_HOME","/sim/home",1);
  setenv("HOME","/sim/home",1);
  shape=mc_choose(4,"shape");
  start=starts[(shape == 0) || ((shape == 1) && mc_thorough()) ? mc_choose(3,"bytes drawn before") : 0];
  p.sequential=shape != 3;
  p.setup=setup;
  p.op=op;
  p.final=final;
  p.threads=shape == 2 ? 3 : 2;
  p.bound=shape == 0 ? 2 : 1;
  for (t=1; t <= p.threads; t++)
  {
    p.ops[t-1]=shape == 1 ? 2 : 1;
    for (i=0; i < p.ops[t-1]; i++)
      op_of[t][i]=shape == 3 ? (t == 1 ? OWN : OWN-mc_choose(2,"call")) :
        shape && !mc_thorough() ? few[mc_choose(4,"call")] : mc_choose(OPS,"call");
  }
  p.id=shape+10*start+1000*p.bound;
  for (t=1; t <= p.threads; t++)
    for (i=0; i < p.ops[t-1]; i++)
      p.id=p.id*(OPS+1)+op_of[t][i];
  mc_note("%d bytes drawn before\n",start);
  sched_explore(&p);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C15", .name="random_conc",
    .rule="every interleaving up to the preemption bound of 2-3 threads that draw from one generator or "
      "make their own; non-trivial when a thread was preempted",
    .body=body, .time_cap=420
  };
  return(mc_main(argc,argv,&h));
}

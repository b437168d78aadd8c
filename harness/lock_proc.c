/*
  Locked files opened by several processes and threads, under every order of
  their system calls, with processes stopped at any call.
*/
#include "common.h"
#include "simfs.h"
#include <errno.h>
#include <unistd.h>

#define PROCS 3

enum { TRYING=1, HOLDING=2, GONE=3, REFUSED=4 };

typedef struct
{
  int rounds, mode, linger;
} plan;

static plan plans[PROCS];
static int killed[PROCS],count,seen,refused,may_kill,stale;
extern int seam_access(const char *,int);
extern unsigned int seam_sleep(unsigned int);

static void run(void *context)
{
  plan *p=context;
  int i;
  for (i=0; i < p->rounds; i++)
  {
    ExceptionInfo *exception=AcquireExceptionInfo();
    FileInfo *file;
    sim_result[0]=TRYING;
    file=AcquireFileInfo("/sim/data","x",p->mode ? WriteFileMode : ReadFileMode,exception);
    if (file == NULL)
      {
        sim_result[0]=REFUSED;
        sim_result[1]++;
      }
    else
      {
        sim_result[0]=HOLDING;
        sim_result[2]++;
        if (p->linger)
          seam_sleep(p->linger);
        else
          seam_access("/sim/held",0);
        sim_result[0]=GONE;
        DestroyFileInfo(file,exception);
      }
    DestroyExceptionInfo(exception);
  }
}

static int holding(int i)
{
  return(!killed[i] && sim_output(i)[0] == HOLDING && sim_pending(i));
}

static void decide(int proc,const sim_call *c,sim_answer *a)
{
  if (may_kill && mc_deviate(2,"stop the process here"))
    {
      size_t n=0;
      a->crash=1;
      a->limit=c->op == SIM_WRITE && mc_choose(2,"part written") ? c->size/2 : 0;
      if (mc_choose(2,"the call itself done"))
        a->limit=SIZE_MAX;
      killed[proc]=1;
      may_kill=0;
      (void) n;
    }
}

static void step(int proc,const sim_call *c)
{
  int i,n=0;
  (void) proc;
  (void) c;
  for (i=0; i < count; i++)
    n+=holding(i);
  MC_CHECK(n <= 1,"two hold the lock at the same time");
  if (n)
    seen=1;
}

static void init(void)
{
  static const char *names[]={ "two","threads","stale","death","three","three_stale","long","long_death" };
  int i;
  for (i=0; i < 8; i++)
    mc_counter_name(i,names[i]);
  sim_reset();
}

static void body(void)
{
  static const char dead[16]={ 0x39,0x30 };
  int i,shape=mc_choose(8,"shape"),pid[PROCS],total=0;
  size_t n;
  sim_reset();
  sim_put("/sim/data","content",7);
  memset(killed,0,sizeof(killed));
  memset(plans,0,sizeof(plans));
  seen=refused=may_kill=stale=0;
  count=2;
  for (i=0; i < PROCS; i++)
  {
    plans[i].rounds=1;
    plans[i].mode=i & 1;
    pid[i]=100+i;
  }
  mc_budget(mc_thorough() ? 4 : 3);
  switch (shape)
  {
    case 0:                                            /* two processes */
      plans[0].rounds=2;
      mc_budget(mc_thorough() ? 5 : 4);
      break;
    case 1:                                            /* two threads */
      pid[1]=pid[0];
      mc_budget(mc_thorough() ? 5 : 4);
      break;
    case 2: stale=1; break;                            /* holder died before */
    case 3: may_kill=1; break;                         /* one dies */
    case 4: count=3; mc_budget(mc_thorough() ? 3 : 2); break;
    case 5: count=3; mc_budget(mc_thorough() ? 3 : 2); stale=1; break;
    case 6:                                            /* held longer than anyone waits */
      plans[0].linger=30;
      plans[1].rounds=2;
      mc_budget(mc_thorough() ? 2 : 1);
      break;
    case 7:
      count=3;
      may_kill=1;
      plans[0].linger=30;
      mc_budget(mc_thorough() ? 2 : 1);
      break;
  }
  if (stale)
    sim_put("/sim/data.lck",dead,mc_choose(2,"lock complete") ? mc_choose(2,"empty") ? 0 : 9 :
      sizeof(dead));
  for (i=0; i < count; i++)
    sim_spawn(run,&plans[i],pid[i],200+i);
  sim_schedule(count,decide,step,3000);
  for (i=0; i < count; i++)
  {
    total+=sim_output(i)[2];
    if (killed[i])
      continue;
    if (shape < 6)
      {
        MC_CHECK(sim_output(i)[1] == 0,"a free lock was refused");
        MC_CHECK(sim_output(i)[2] == plans[i].rounds,"not every round got the lock");
      }
  }
  MC_CHECK(total > 0 || may_kill == 0,"nobody got the lock");
  for (i=n=0; i < count; i++)
    n+=killed[i];
  if (n == 0)
    MC_CHECK(sim_files() == 1,"a lock is left behind");
  else
      {
        /* whatever the dead left, the next one gets in */
        plan again={ 1,0,0 };
        int proc=sim_run(run,&again,150,NULL,400,"opening after a death");
        MC_CHECK(sim_output(proc)[2] == 1,"the lock of a dead process is never given away");
      }
  sim_end();
  mc_nontrivial();
  mc_count(shape,1);
  mc_observe_int(shape*100+total*10+n);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C23", .name="lock_proc",
    .rule="2 or 3 processes or threads that open one file one or two times; every order of "
      "their system calls within 3 (4) preemptions, a death at any call, stale locks",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

/*
  Processes that store and look up keys in one keyring at the same time.
*/
#include "ring.h"

typedef struct
{
  int store,id,key;
} job;

static job jobs[3];
static int count,started[3],done[3],must[3],dead[3],may_stop;

static void run(void *context)
{
  job *j=context;
  int r=j->store ? ring_import(j->id,j->key) : ring_export(j->id);
  sim_result[0]=1;
  sim_result[1]=r+2;
}

static void decide(int proc,const sim_call *c,sim_answer *a)
{
  int i;
  if (!started[proc])
    {
      started[proc]=1;
      /* what a look-up that starts now must find */
      for (i=0; i < count; i++)
        if (done[i] && !dead[i] && jobs[i].store && jobs[i].id == jobs[proc].id &&
            sim_output(i)[1]-2 == 1)
          must[proc]=1;
    }
  if (may_stop && mc_deviate(2,"stop the process here"))
    {
      may_stop=0;
      dead[proc]=1;
      a->crash=1;
      a->limit=mc_choose(2,"call done") ? SIZE_MAX : c->size/2;
    }
}

static void step(int proc,const sim_call *c)
{
  (void) c;
  if (!sim_pending(proc))
    done[proc]=1;
}

static void body(void)
{
  static const job pairs[][3]=
  {
    { { 1,0,0 },{ 1,0,1 } },            /* the same identifier */
    { { 1,0,2 },{ 1,3,0 } },            /* different ones */
    { { 1,0,0 },{ 0,0,0 } },            /* look up what is being stored */
    { { 1,3,2 },{ 0,1,0 } },            /* look up what was there */
    { { 1,0,0 },{ 1,0,1 },{ 0,0,0 } },
    { { 1,0,1 },{ 1,3,0 },{ 1,4,1 } },
    { { 1,0,1 },{ 1,0,0 },{ 1,0,2 } },
  };
  int shape=mc_choose(7,"jobs"),i,r,k,winners[IDS],key[IDS],listed[IDS],others;
  sim_reset();
  ring_path=ring_file;
  count=shape < 4 ? 2 : 3;
  mc_budget(count == 2 ? mc_thorough() ? 3 : 2 : mc_thorough() ? 2 : 1);
  may_stop=mc_choose(2,"one stops");
  for (i=0; i < IDS; i++)
  {
    winners[i]=0;
    key[i]=-1;
  }
  if (mc_choose(2,"keyring exists") || shape == 3)
    {
      MC_CHECK(ring_import(1,1),"storing a key failed");
      key[1]=1;
    }
  for (i=0; i < count; i++)
  {
    jobs[i]=pairs[shape][i];
    started[i]=done[i]=must[i]=dead[i]=0;
  }
  for (i=0; i < count; i++)
    sim_spawn(run,&jobs[i],100+i,100+i);
  sim_schedule(count,decide,step,6000);
  for (i=0; i < count; i++)
  {
    r=sim_output(i)[1]-2;
    if (dead[i] || !jobs[i].store)
      continue;
    if (r == 1)
      {
        MC_CHECK(winners[jobs[i].id] == 0,"identifier %d was stored twice",jobs[i].id);
        winners[jobs[i].id]=1;
        key[jobs[i].id]=jobs[i].key;
      }
  }
  for (i=0; i < count; i++)
  {
    r=sim_output(i)[1]-2;
    if (dead[i])
      continue;
    if (jobs[i].store)
      {
        int rival=0;
        for (k=0; k < count; k++)
          rival|=k != i && jobs[k].store && jobs[k].id == jobs[i].id &&
            (dead[k] || sim_output(k)[1]-2 == 1);
        MC_CHECK(r == 1 || rival,"storing identifier %d failed for no reason",
          jobs[i].id);
      }
    else
      {
        int good=r == -1;
        if (jobs[i].id == 1)
          good=r == 1;
        for (k=0; k < count; k++)
          if (jobs[k].store && jobs[k].id == jobs[i].id && jobs[k].key == r)
            good=1;
        MC_CHECK(good,"a look-up of %d gives %d",jobs[i].id,r);
        MC_CHECK(!must[i] || r >= 0,"a look-up missed a key stored before it began");
      }
  }
  for (i=0; i < IDS; i++)
  {
    r=ring_export(i);
    for (k=0; k < count; k++)
      if (r >= 0 && key[i] == -1 && dead[k] && jobs[k].store && jobs[k].id == i &&
          jobs[k].key == r)
        key[i]=r;           /* stored completely by the one that stopped */
    MC_CHECK(r == key[i],"identifier %d gives key %d instead of %d",i,r,key[i]);
  }
  r=ring_list(listed,&others);
  for (i=0; i < IDS; i++)
    MC_CHECK(listed[i] == (key[i] >= 0),"identifier %d is listed %d times",i,listed[i]);
  mc_nontrivial();
  mc_observe_int(shape);
  mc_observe(key,sizeof(key));
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C21", .name="keyring_proc",
    .rule="seven sets of 2 or 3 processes that store or look up equal or different keys, in an "
      "absent or existing keyring; every order of their system calls within 2 (3) preemptions, "
      "one process stopped at any call",
    .init=sim_reset, .body=body
  };
  return(mc_main(argc,argv,&h));
}

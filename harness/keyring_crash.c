/*
  Processes that stop while storing a key.
*/
#include "ring.h"

static int identifier,material,stopped;

static void store(void *context)
{
  (void) context;
  sim_result[0]=1+ring_import(identifier,material);
}

static void decide(int index,const sim_call *c,sim_answer *a)
{
  int n=c->op == SIM_WRITE ? 5 : 2,kind;
  (void) index;
  if (stopped)
    return;
  kind=mc_deviate(1+n,"stop here");
  if (kind == 0)
    return;
  stopped=1;
  a->crash=1;
  a->limit=kind == 1 ? 0 : kind == 2 ? SIZE_MAX : kind == 3 ? 1 : kind == 4 ? c->size/2 :
    c->size-1;
}

static void check(const int *model,const char *when)
{
  int i,r;
  for (i=0; i < IDS; i++)
  {
    r=ring_export(i);
    MC_CHECK(r == model[i],"%s identifier %d gives key %d instead of %d",when,i,r,model[i]);
  }
}

static void body(void)
{
  int model[IDS],i,r,round,proc,rounds;
  size_t n;
  const unsigned char *lock;
  sim_reset();
  ring_path=ring_file;
  for (i=0; i < IDS; i++)
    model[i]=-1;
  for (i=mc_choose(3,"stored keys"); i > 0; i--)
  {
    MC_CHECK(ring_import(i-1,i-1),"storing a key failed");
    model[i-1]=i-1;
  }
  rounds=mc_thorough() ? 2 : 1;
  mc_budget(rounds);
  for (round=0; round < rounds; round++)
  {
    identifier=3+round;
    material=mc_choose(2,"key") ? 2 : 0;
    stopped=0;
    mc_note("store %d under %d\n",material,identifier);
    proc=sim_run(store,NULL,100+round,decide,2000,"storing a key");
    mc_transition();
    if (!stopped)
      {
        MC_CHECK(sim_output(proc)[0] == 2,"storing a key failed");
        model[identifier]=material;
      }
    r=ring_export(identifier);
    MC_CHECK(r == material || (stopped && r == -1),
      "the key being stored is returned as %d",r);
    if (r >= 0)
      model[identifier]=r;
    check(model,"after the stop");
    if (model[identifier] < 0 && mc_choose(2,"store it again"))
      {
        MC_CHECK(ring_import(identifier,material),"the key cannot be stored again");
        model[identifier]=material;
        check(model,"after storing again");
      }
  }
  MC_CHECK(ring_import(2,1),"no further key can be stored");
  model[2]=1;
  check(model,"after one more store");
  mc_nontrivial();
  mc_observe(model,sizeof(model));
  {
    const unsigned char *p=sim_get(ring_file,&n);
    mc_observe(p,n);
  }
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C18", .name="keyring_crash",
    .rule="a process that stores a key into a keyring of 0 to 2 keys stops before or after any "
      "system call or with a part of any write done; then every look-up, a repeated store, one "
      "more store and every look-up again (thorough: two such stops in a row)",
    .init=sim_reset, .body=body
  };
  return(mc_main(argc,argv,&h));
}

/*
  Storing and looking up keys while system calls fail.
*/
#include "ring.h"

static int calls;

static void hook(const sim_call *c,sim_answer *a)
{
  int kind=0,n=2;
  if (++calls > 5000)
    mc_fail("the call does not end");
  switch (c->op)
  {
    case SIM_READ: n=c->size > 1 ? 4 : 3; break;
    case SIM_WRITE: n=c->size > 1 ? 5 : 3; break;
    case SIM_SLEEP: case SIM_KILL: case SIM_MKDIR: return;
    default: break;
  }
  kind=mc_deviate(n,sim_op_name[c->op]);
  if (kind == 0)
    return;
  if (kind == 1)
    a->error=c->op == SIM_WRITE ? ENOSPC : c->op == SIM_OPEN ? EMFILE : EIO;
  if (kind == 2)
    a->error=EINTR;
  if (kind == 3)
    a->limit=1;
  if (kind == 4)
    a->limit=c->size-1;
  mc_note("  %s %s %zu: %s\n",sim_op_name[c->op],c->path,c->size,
    kind == 1 ? "fails" : kind == 2 ? "interrupted" : kind == 3 ? "one byte" : "one byte less");
}

static void body(void)
{
  int model[IDS],i,r,store,id,key=2,ops,step;
  sim_reset();
  ring_path=ring_file;
  for (i=0; i < IDS; i++)
    model[i]=-1;
  for (i=mc_choose(3,"stored keys"); i > 0; i--)
  {
    MC_CHECK(ring_import(i-1,i-1),"storing a key failed");
    model[i-1]=i-1;
  }
  mc_budget(mc_thorough() ? 2 : 1);
  ops=mc_thorough() ? 1 : 2;
  for (step=0; step < ops; step++)
  {
    store=mc_choose(2,"call");
    id=(int []) { 0,3,4 } [mc_choose(3,"identifier")];
    calls=0;
    sim_hook=hook;
    mc_note("%s %d\n",store ? "store" : "look up",id);
    r=store ? ring_import(id,key) : ring_export(id);
    sim_hook=NULL;
    mc_transition();
    if (store)
      {
        if (r)
          {
            MC_CHECK(model[id] < 0,"a present identifier was stored again");
            model[id]=key;
          }
        else
          if (model[id] < 0)
            {
              /* reported as failed: there completely, or not at all */
              r=ring_export(id);
              MC_CHECK(r == -1 || r == key,"a failed store left a wrong key");
              if (r == key)
                model[id]=key;
            }
      }
    else
      MC_CHECK(r == -1 || r == model[id],"a look-up gives key %d instead of %d",r,model[id]);
    if (mc_deviations() == 0)
      MC_CHECK(r >= 0 || model[id] < 0,"failed without a failing system call");
    for (i=0; i < IDS; i++)
    {
      r=ring_export(i);
      MC_CHECK(r == model[i],"identifier %d gives key %d instead of %d",i,r,model[i]);
    }
  }
  MC_CHECK(ring_import(2,1),"no further key can be stored");
  model[2]=1;
  for (i=0; i < IDS; i++)
  {
    r=ring_export(i);
    MC_CHECK(r == model[i],"after one more store identifier %d gives key %d instead of %d",i,r,
      model[i]);
  }
  mc_nontrivial();
  mc_observe(model,sizeof(model));
  mc_observe_int(calls);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C19", .name="keyring_fault",
    .rule="store or look-up of a present or new key in a keyring of 0 to 2 keys, with every "
      "failing, interrupted or short system call at every place; then every look-up, one more "
      "store and every look-up again",
    .init=sim_reset, .body=body
  };
  return(mc_main(argc,argv,&h));
}

/*
  All interleavings of threads that use one splay tree.
*/
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "mc.h"
#include "sched.h"

typedef struct { int key,id,released; } Item;

static Item keys_[64],values_[64];
static int start,owned,op_of[SCHED_THREADS+1][SCHED_OPS];
static SplayTreeInfo *tree;

enum { ADD0, ADD1, ADD2, GET0, GET1, DELETE0, DELETE1, REMOVE0, REMOVE1,
  DELETE_VALUE0, REMOVE_VALUE1, NEXT_KEY, NEXT_VALUE, RESET_ITERATOR, RESET,
  CLONE, COUNT, OPS };

static const char *op_name[]={ "add0","add1","add2","get0","get1","delete0",
  "delete1","remove0","remove1","deletevalue0","removevalue1","nextkey",
  "nextvalue","resetiterator","reset","clone","count" };

static void use(const Item *p)
{
  if (p->released)
    mc_fail("an entry was used after its release");
}

static int compare(const void *a,const void *b)
{
  use(a);
  use(b);
  return(((const Item *) a)->key-((const Item *) b)->key);
}

static void *release(void *p)
{
  use(p);
  ((Item *) p)->released=1;
  return(NULL);
}

static int id(const void *p)
{
  if (p == NULL)
    return(-1);
  if (!((const Item *) p >= keys_ && (const Item *) p < keys_+64) &&
      !((const Item *) p >= values_ && (const Item *) p < values_+64))
    mc_fail("something was returned that was never stored");
  return(((const Item *) p)->id);
}

static void *clone_item(void *p)
{
  Item *o;
  use(p);
  o=malloc(sizeof(*o));
  *o=*(Item *) p;
  return(o);
}

static int add(int slot,int k)
{
  keys_[slot].key=k;
  keys_[slot].id=slot;
  values_[slot].key=k;
  values_[slot].id=slot;
  return(AddValueToSplayTree(tree,keys_+slot,values_+slot));
}

static void setup(void)
{
  int i;
  memset(keys_,0,sizeof(keys_));
  memset(values_,0,sizeof(values_));
  tree=NewSplayTree(compare,owned ? release : NULL,owned ? release : NULL);
  for (i=0; i < start; i++)
    add(i,i);
  ResetSplayTreeIterator(tree);
}

static void op(int thread,int index,char *r)
{
  static Item probe[3]={ { 0 }, { 1 }, { 2 } };
  int k=op_of[thread][index];
  SCHED_APPEND(r,"%s ",op_name[k]);
  switch (k)
  {
    case ADD0: SCHED_APPEND(r,"%d",add(thread*8+index,0)); break;
    case ADD1: SCHED_APPEND(r,"%d",add(thread*8+index,1)); break;
    case ADD2: SCHED_APPEND(r,"%d",add(thread*8+index,2)); break;
    case GET0: SCHED_APPEND(r,"%d",id(GetValueFromSplayTree(tree,probe))); break;
    case GET1: SCHED_APPEND(r,"%d",id(GetValueFromSplayTree(tree,probe+1))); break;
    case DELETE0: SCHED_APPEND(r,"%d",DeleteNodeFromSplayTree(tree,probe)); break;
    case DELETE1: SCHED_APPEND(r,"%d",DeleteNodeFromSplayTree(tree,probe+1)); break;
    case REMOVE0: SCHED_APPEND(r,"%d",id(RemoveNodeFromSplayTree(tree,probe))); break;
    case REMOVE1: SCHED_APPEND(r,"%d",id(RemoveNodeFromSplayTree(tree,probe+1))); break;
    case DELETE_VALUE0:
      SCHED_APPEND(r,"%d",DeleteNodeByValueFromSplayTree(tree,values_));
      break;
    case REMOVE_VALUE1:
      SCHED_APPEND(r,"%d",id(RemoveNodeByValueFromSplayTree(tree,values_+1)));
      break;
    case NEXT_KEY: SCHED_APPEND(r,"%d",id(GetNextKeyInSplayTree(tree))); break;
    case NEXT_VALUE: SCHED_APPEND(r,"%d",id(GetNextValueInSplayTree(tree))); break;
    case RESET_ITERATOR: ResetSplayTreeIterator(tree); break;
    case RESET: ResetSplayTree(tree); break;
    case CLONE:
    {
      SplayTreeInfo *copy=CloneSplayTree(tree,clone_item,clone_item);
      const Item *p;
      ResetSplayTreeIterator(copy);
      while ((p=GetNextValueInSplayTree(copy)) != NULL)
        SCHED_APPEND(r,"%d ",p->id);
      copy=DestroySplayTree(copy);
      break;
    }
    case COUNT: SCHED_APPEND(r,"%d",(int) GetNumberOfNodesInSplayTree(tree)); break;
  }
}

static void final(char *r)
{
  const void *p;
  int i,n=0;
  SCHED_APPEND(r,"%d: rest",(int) GetNumberOfNodesInSplayTree(tree));
  while ((p=GetNextKeyInSplayTree(tree)) != NULL && n++ < 40)
    SCHED_APPEND(r," %d",id(p));
  SCHED_APPEND(r," all");
  ResetSplayTreeIterator(tree);
  n=0;
  while ((p=GetNextValueInSplayTree(tree)) != NULL && n++ < 40)
    SCHED_APPEND(r," %d",id(p));
  tree=DestroySplayTree(tree);
  SCHED_APPEND(r," released");
  for (i=0; i < 64; i++)
    if (keys_[i].released || values_[i].released)
      SCHED_APPEND(r," %d%s%s",i,keys_[i].released ? "k" : "",
        values_[i].released ? "v" : "");
}

static void body(void)
{
  static const int pair_ops[]={ ADD0, ADD1, GET0, DELETE0, REMOVE1, NEXT_KEY,
    RESET };
  sched_program p;
  int shape,i,t;
  memset(&p,0,sizeof(p));
  shape=mc_choose(3,"shape");
  start=mc_choose(shape == 0 ? 4 : 3,"nodes");
  owned=shape == 0 ? mc_choose(2,"owned") : 1;
  p.sequential=1;
  p.setup=setup;
  p.op=op;
  p.final=final;
  p.bound=mc_thorough() ? 3 : 2;
  if (shape == 0)
    {
      p.threads=2;
      p.ops[0]=p.ops[1]=1;
      op_of[1][0]=mc_choose(OPS,"first call");
      op_of[2][0]=op_of[1][0]+mc_choose(OPS-op_of[1][0],"second call");
    }
  else if (shape == 1)
    {
      p.threads=2;
      p.ops[0]=2;
      p.ops[1]=mc_thorough() ? 2 : 1;
      for (t=1; t <= 2; t++)
        for (i=0; i < p.ops[t-1]; i++)
          op_of[t][i]=pair_ops[mc_choose(7,"call")];
    }
  else
    {
      p.threads=3;
      p.bound=mc_thorough() ? 2 : 1;
      for (t=1; t <= 3; t++)
      {
        p.ops[t-1]=1;
        op_of[t][0]=pair_ops[mc_choose(7,"call")];
      }
    }
  p.id=shape+10*start+100*owned+1000*p.bound;
  for (t=1; t <= p.threads; t++)
    for (i=0; i < p.ops[t-1]; i++)
      p.id=p.id*OPS+op_of[t][i];
  mc_note("%d nodes, %s\n",start,owned ? "owned" : "borrowed");
  sched_explore(&p);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C06", .name="tree_conc",
    .rule="every interleaving up to the preemption bound of 2-3 threads making "
      "1-2 calls on one splay tree, from 0-3 nodes; non-trivial when a thread "
      "was preempted; distinct by calls, results and final tree",
    .body=body
  };
  return(mc_main(argc,argv,&h));
}

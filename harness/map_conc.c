/*
  All interleavings of threads that use one hash map.
*/
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "mc.h"
#include "sched.h"

typedef struct { int key,id,released; } Item;

static Item keys_[64],values_[64];
static int used,start,capacity,owned,op_of[SCHED_THREADS+1][SCHED_OPS];
static HashmapInfo *map;

enum { PUT0, PUT1, PUT2, GET0, GET1, REMOVE0, REMOVE1, NEXT_KEY, NEXT_VALUE,
  RESET, COUNT, EMPTY, OPS };

static const char *op_name[]={ "put0","put1","put2","get0","get1","remove0",
  "remove1","nextkey","nextvalue","reset","count","empty" };

static void use(const Item *p)
{
  if (p->released)
    mc_fail("an entry was used after its release");
}

static size_t hash(const void *p)
{
  use(p);
  return(((const Item *) p)->key == 2 ? 6 : 5);
}

static WizardBooleanType compare(const void *a,const void *b)
{
  use(a);
  use(b);
  return(((const Item *) a)->key == ((const Item *) b)->key ? WizardTrue :
    WizardFalse);
}

static void *release(void *p)
{
  use(p);
  ((Item *) p)->released=1;
  return(NULL);
}

static int id(const void *p)
{
  if (p == NULL)
    return(-1);
  if (!((const Item *) p >= keys_ && (const Item *) p < keys_+64) &&
      !((const Item *) p >= values_ && (const Item *) p < values_+64))
    mc_fail("something was returned that was never stored");
  return(((const Item *) p)->id);
}

static void put(int slot,int k,char *r)
{
  keys_[slot].key=k;
  keys_[slot].id=slot;
  values_[slot].key=k;
  values_[slot].id=slot;
  if (r)
    SCHED_APPEND(r,"%d",PutEntryInHashmap(map,keys_+slot,values_+slot));
  else
    PutEntryInHashmap(map,keys_+slot,values_+slot);
}

static void setup(void)
{
  int i;
  memset(keys_,0,sizeof(keys_));
  memset(values_,0,sizeof(values_));
  map=NewHashmap(capacity,hash,compare,owned ? release : NULL,owned ? release :
    NULL);
  for (i=0; i < start; i++)
    put(i,i,NULL);
}

static void op(int thread,int index,char *r)
{
  static Item probe[3]={ { 0 }, { 1 }, { 2 } };
  int k=op_of[thread][index];
  SCHED_APPEND(r,"%s ",op_name[k]);
  switch (k)
  {
    case PUT0: put(thread*8+index,0,r); break;
    case PUT1: put(thread*8+index,1,r); break;
    case PUT2: put(thread*8+index,2,r); break;
    case GET0: SCHED_APPEND(r,"%d",id(GetValueFromHashmap(map,probe))); break;
    case GET1: SCHED_APPEND(r,"%d",id(GetValueFromHashmap(map,probe+1))); break;
    case REMOVE0: SCHED_APPEND(r,"%d",id(RemoveEntryFromHashmap(map,probe))); break;
    case REMOVE1: SCHED_APPEND(r,"%d",id(RemoveEntryFromHashmap(map,probe+1))); break;
    case NEXT_KEY: SCHED_APPEND(r,"%d",id(GetNextKeyInHashmap(map))); break;
    case NEXT_VALUE: SCHED_APPEND(r,"%d",id(GetNextValueInHashmap(map))); break;
    case RESET: ResetHashmapIterator(map); break;
    case COUNT: SCHED_APPEND(r,"%d",(int) GetNumberOfEntriesInHashmap(map)); break;
    case EMPTY: SCHED_APPEND(r,"%d",IsHashmapEmpty(map)); break;
  }
}

static void final(char *r)
{
  Item probe;
  void *p;
  int i,n=0,seen[64];
  memset(&probe,0,sizeof(probe));
  memset(seen,0,sizeof(seen));
  SCHED_APPEND(r,"%d:",(int) GetNumberOfEntriesInHashmap(map));
  for (i=0; i < 4; i++)
  {
    probe.key=i;
    SCHED_APPEND(r," %d",id(GetValueFromHashmap(map,&probe)));
  }
  SCHED_APPEND(r," rest");
  for (i=0; i < 40; i++)
  {
    p=GetNextKeyInHashmap(map);
    if (p == NULL)
      break;
    SCHED_APPEND(r," %d",id(p));
  }
  ResetHashmapIterator(map);
  while ((p=GetNextKeyInHashmap(map)) != NULL && n++ < 40)
    seen[id(p)]++;
  SCHED_APPEND(r," all");
  for (i=0; i < 64; i++)
    if (seen[i])
      SCHED_APPEND(r," %dx%d",seen[i],i);
  map=DestroyHashmap(map);
  SCHED_APPEND(r," released");
  for (i=0; i < 64; i++)
    if (keys_[i].released || values_[i].released)
      SCHED_APPEND(r," %d%s%s",i,keys_[i].released ? "k" : "",
        values_[i].released ? "v" : "");
}

static void body(void)
{
  static const int capacities[]={ 1, 2, 17 };
  static const int pair_ops[]={ PUT0, PUT1, PUT2, GET0, REMOVE0, NEXT_KEY };
  sched_program p;
  int shape,i,t;
  memset(&p,0,sizeof(p));
  shape=mc_choose(3,"shape");
  start=mc_choose(shape == 0 ? 4 : 3,"entries");
  capacity=capacities[mc_choose(3,"capacity")];
  owned=shape == 0 ? mc_choose(2,"owned") : 1;
  p.sequential=1;
  p.setup=setup;
  p.op=op;
  p.final=final;
  p.bound=mc_thorough() ? 3 : 2;
  if (shape == 0)
    {
      p.threads=2;
      p.ops[0]=p.ops[1]=1;
      op_of[1][0]=mc_choose(OPS,"first call");
      op_of[2][0]=op_of[1][0]+mc_choose(OPS-op_of[1][0],"second call");
    }
  else if (shape == 1)
    {
      p.threads=2;
      p.ops[0]=2;
      p.ops[1]=mc_thorough() ? 2 : 1;
      for (t=1; t <= 2; t++)
        for (i=0; i < p.ops[t-1]; i++)
          op_of[t][i]=pair_ops[mc_choose(6,"call")];
    }
  else
    {
      p.threads=3;
      p.bound=mc_thorough() ? 2 : 1;
      for (t=1; t <= 3; t++)
      {
        p.ops[t-1]=1;
        op_of[t][0]=pair_ops[mc_choose(6,"call")];
      }
    }
  p.id=shape+10*start+100*capacity+10000*owned+100000*p.bound;
  for (t=1; t <= p.threads; t++)
    for (i=0; i < p.ops[t-1]; i++)
      p.id=p.id*OPS+op_of[t][i];
  mc_note("%d entries, capacity %d, %s\n",start,capacity,owned ? "owned" :
    "borrowed");
  sched_explore(&p);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C05", .name="map_conc",
    .rule="every interleaving up to the preemption bound of 2-3 threads making "
      "1-2 calls on one hash map with colliding keys, from 0-3 entries and "
      "capacities that do and do not force growth; non-trivial when a thread was "
      "preempted; distinct by calls, results and final map",
    .body=body
  };
  return(mc_main(argc,argv,&h));
}

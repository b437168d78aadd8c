/*
  All interleavings of threads that use one linked list.
*/
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "mc.h"
#include "sched.h"

typedef struct { int key,id; } Item;

static Item pool[64];
static int start,capacity_kind,op_of[SCHED_THREADS+1][SCHED_OPS];
static LinkedListInfo *list;

enum { APPEND, INSERT0, INSERT1, SORTED, REPLACE, REMOVE0, REMOVE1, REMOVE_LAST,
  REMOVE_VALUE, NEXT, RESET, CLEAR, LAST, GET0, GET1, COUNT, ARRAY, OPS };

static const char *op_name[]={ "append","insert0","insert1","sorted","replace",
  "remove0","remove1","removelast","removevalue","next","reset","clear","last",
  "get0","get1","count","array" };

static int compare(const void *a,const void *b)
{
  return(((const Item *) a)->key-((const Item *) b)->key);
}

static void *relinquish(void *value) { return(NULL); }

static int id(const void *p)
{
  if (p == NULL)
    return(-1);
  if ((const Item *) p < pool || (const Item *) p >= pool+64)
    mc_fail("a value was returned that was never stored");
  return(((const Item *) p)->id);
}

static void setup(void)
{
  int i;
  list=NewLinkedList(capacity_kind == 0 ? 0 : start+1);
  for (i=0; i < start; i++)
    AppendValueToLinkedList(list,pool+i);
}

static void op(int thread,int index,char *r)
{
  Item *mine=pool+thread*8+index*2,*old=NULL;
  void *array[16];
  int k=op_of[thread][index],i;
  SCHED_APPEND(r,"%s ",op_name[k]);
  switch (k)
  {
    case APPEND: SCHED_APPEND(r,"%d",AppendValueToLinkedList(list,mine)); break;
    case INSERT0: SCHED_APPEND(r,"%d",InsertValueInLinkedList(list,0,mine)); break;
    case INSERT1: SCHED_APPEND(r,"%d",InsertValueInLinkedList(list,1,mine)); break;
    case SORTED:
      SCHED_APPEND(r,"%d",InsertValueInSortedLinkedList(list,compare,NULL,mine));
      break;
    case REPLACE:
      i=InsertValueInSortedLinkedList(list,compare,(void **) &old,mine);
      SCHED_APPEND(r,"%d %d",i,id(old));
      break;
    case REMOVE0: SCHED_APPEND(r,"%d",id(RemoveElementFromLinkedList(list,0))); break;
    case REMOVE1: SCHED_APPEND(r,"%d",id(RemoveElementFromLinkedList(list,1))); break;
    case REMOVE_LAST:
      SCHED_APPEND(r,"%d",id(RemoveLastElementFromLinkedList(list)));
      break;
    case REMOVE_VALUE:
      SCHED_APPEND(r,"%d",id(RemoveElementByValueFromLinkedList(list,pool)));
      break;
    case NEXT: SCHED_APPEND(r,"%d",id(GetNextValueInLinkedList(list))); break;
    case RESET: ResetLinkedListIterator(list); break;
    case CLEAR: ClearLinkedList(list,relinquish); break;
    case LAST: SCHED_APPEND(r,"%d",id(GetLastValueInLinkedList(list))); break;
    case GET0: SCHED_APPEND(r,"%d",id(GetValueFromLinkedList(list,0))); break;
    case GET1: SCHED_APPEND(r,"%d",id(GetValueFromLinkedList(list,1))); break;
    case COUNT:
      SCHED_APPEND(r,"%d",(int) GetNumberOfElementsInLinkedList(list));
      break;
    case ARRAY:
      memset(array,0,sizeof(array));
      LinkedListToArray(list,array);
      for (i=0; i < 16 && array[i]; i++)
        SCHED_APPEND(r,"%d ",id(array[i]));
      break;
  }
}

static void final(char *r)
{
  void *array[64];
  int i,n;
  n=GetNumberOfElementsInLinkedList(list);
  SCHED_APPEND(r,"%d:",n);
  if (n > 32)
    mc_fail("the list reports %d elements",n);
  memset(array,0,sizeof(array));
  LinkedListToArray(list,array);
  for (i=0; i < 64 && array[i]; i++)
    SCHED_APPEND(r," %d",id(array[i]));
  SCHED_APPEND(r," last %d cursor",id(GetLastValueInLinkedList(list)));
  for (i=0; i < 32; i++)
  {
    void *p=GetNextValueInLinkedList(list);
    SCHED_APPEND(r," %d",id(p));
    if (p == NULL)
      break;
  }
  AppendValueToLinkedList(list,pool+60);
  SCHED_APPEND(r," after append %d",id(GetLastValueInLinkedList(list)));
  list=DestroyLinkedList(list,relinquish);
}

static void body(void)
{
  static const int pair_ops[]={ APPEND, INSERT1, REPLACE, REMOVE0, REMOVE_LAST,
    CLEAR, NEXT };
  sched_program p;
  int shape,i,t;
  memset(&p,0,sizeof(p));
  for (i=0; i < 64; i++)
  {
    pool[i].id=i;
    pool[i].key=i < 8 ? 1+i : 2;
  }
  shape=mc_choose(3,"shape");
  start=mc_choose(shape == 0 ? 4 : 3,"elements");
  capacity_kind=shape == 0 ? mc_choose(2,"capacity") : 0;
  p.sequential=1;
  p.setup=setup;
  p.op=op;
  p.final=final;
  p.bound=mc_thorough() ? 4 : 3;
  if (shape == 0)
    {
      p.threads=2;
      p.ops[0]=p.ops[1]=1;
      op_of[1][0]=mc_choose(OPS,"first call");
      op_of[2][0]=op_of[1][0]+mc_choose(OPS-op_of[1][0],"second call");
    }
  else if (shape == 1)
    {
      p.threads=2;
      p.ops[0]=2;
      p.ops[1]=2;
      p.bound=mc_thorough() ? 3 : 2;
      for (t=1; t <= 2; t++)
        for (i=0; i < p.ops[t-1]; i++)
          op_of[t][i]=pair_ops[mc_choose(7,"call")];
    }
  else
    {
      p.threads=3;
      p.bound=mc_thorough() ? 3 : 2;
      for (t=1; t <= 3; t++)
      {
        p.ops[t-1]=1;
        op_of[t][0]=pair_ops[mc_choose(7,"call")];
      }
    }
  p.id=shape+10*start+100*capacity_kind+1000*p.bound;
  for (t=1; t <= p.threads; t++)
    for (i=0; i < p.ops[t-1]; i++)
      p.id=p.id*OPS+op_of[t][i];
  mc_note("%d elements, %s\n",start,capacity_kind ? "room for one" : "unbounded");
  sched_explore(&p);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C04", .name="list_conc",
    .rule="every interleaving up to the preemption bound of 2-3 threads making "
      "1-2 calls on one list, from lists of 0-3 elements; non-trivial when a "
      "thread was preempted; distinct by calls, results and final list",
    .body=body
  };
  return(mc_main(argc,argv,&h));
}

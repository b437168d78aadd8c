/*
  All operation sequences on one linked list against a plain sequence.
*/
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "mc.h"

#define MAXN 16

typedef struct { int key, serial, released; } Item;

static Item pool[64];
static int used;
static Item *model[MAXN];
static int count,capacity,cursor;      /* cursor -1: not determined */

static Item *item(int key)
{
  Item *p=pool+used;
  p->key=key;
  p->serial=used++;
  p->released=0;
  return(p);
}

static void *relinquish(void *value)
{
  Item *p=value;
  if (p < pool || p >= pool+used)
    mc_fail("the release method was given something never stored");
  if (p->released++ != 0)
    mc_fail("value %d was released or handed out twice",p->serial);
  return(NULL);
}

static void handed_out(Item *p)
{
  if (p->released++ != 0)
    mc_fail("value %d was handed out twice",p->serial);
}

static int compare(const void *a,const void *b)
{
  return(((const Item *) a)->key-((const Item *) b)->key);
}

static void model_insert(int index,Item *p)
{
  int i;
  for (i=count; i > index; i--)
    model[i]=model[i-1];
  model[index]=p;
  count++;
}

static void model_remove(int index)
{
  int i;
  for (i=index; i < count-1; i++)
    model[i]=model[i+1];
  count--;
  if (cursor > index)
    cursor--;
}

static int is_sorted(void)
{
  int i;
  for (i=1; i < count; i++)
    if (model[i-1]->key > model[i]->key)
      return(0);
  return(1);
}

static void observe(LinkedListInfo *list,const char *op)
{
  void *array[MAXN];
  int i;
  MC_CHECK(GetNumberOfElementsInLinkedList(list) == (size_t) count,
    "after %s the list reports %lu elements, %d were expected",op,
    (unsigned long) GetNumberOfElementsInLinkedList(list),count);
  MC_CHECK((IsLinkedListEmpty(list) != WizardFalse) == (count == 0),
    "after %s the list is wrong about being empty",op);
  for (i=0; i < MAXN; i++)
    array[i]=NULL;
  MC_CHECK(LinkedListToArray(list,array) != WizardFalse,"to-array failed");
  for (i=0; i < MAXN; i++)
    MC_CHECK(array[i] == (i < count ? model[i] : NULL),
      "after %s the array has the wrong value at position %d",op,i);
  for (i=0; i < count; i++)
    MC_CHECK(GetValueFromLinkedList(list,i) == model[i],
      "after %s the wrong value is at position %d",op,i);
  MC_CHECK(GetValueFromLinkedList(list,count) == NULL,
    "after %s there is a value past the end",op);
  MC_CHECK(GetLastValueInLinkedList(list) == (count ? model[count-1] : NULL),
    "after %s the last value is wrong",op);
  for (i=0; i < count; i++)
    MC_CHECK(model[i]->released == 0,"value %d is in the list after release",
      model[i]->serial);
  mc_observe_int(count);
  for (i=0; i < count; i++)
    mc_observe_int(model[i]->serial*8+model[i]->key);
  mc_observe_int(cursor);
}

enum { APPEND, INSERT, SORTED, REPLACE, REMOVE, REMOVE_VALUE, REMOVE_ABSENT,
  REMOVE_LAST, CLEAR, NEXT, RESET, INSERT_BAD, REMOVE_BAD, DUPLICATE };

static void do_next(LinkedListInfo *list)
{
  Item *got=GetNextValueInLinkedList(list);
  int i;
  mc_note("next -> %d\n",got ? got->serial : -1);
  mc_observe_int(got ? got->serial : -1);
  if (cursor < 0)
    {
      if (got == NULL)
        cursor=count;
      else
        {
          int hits=0,at=-1;
          for (i=0; i < count; i++)
            if (model[i] == got)
              {
                hits++;
                at=i;
              }
          MC_CHECK(hits != 0,"iteration returned a value not in the list");
          if (hits == 1)
            cursor=at+1;
        }
      return;
    }
  MC_CHECK(got == (cursor < count ? model[cursor] : NULL),
    "iteration returned the wrong value (position %d of %d)",cursor,count);
  if (cursor < count)
    cursor++;
}

static void body(void)
{
  LinkedListInfo *list;
  int start,depth,step,i,changed=0,dup=0;
  static const int capacities[]={ 0, 2, 4, 1 };

  used=count=cursor=0;
  start=mc_choose(10,"start");
  /* first choices double as shards: start state, then operations */
  capacity=start < 4 ? capacities[start] : start < 8 ? 0 : 4;
  list=NewLinkedList(capacity);
  if (capacity == 0)
    capacity=MAXN;
  if (start >= 4)
    {
      int n=start == 4 ? 2 : start == 5 ? 3 : start == 6 ? 3 : start == 7 ? 4 :
        start == 8 ? 3 : 4;
      for (i=0; i < n; i++)
      {
        Item *p=item(start == 6 ? 3-i : 1+i);
        MC_CHECK(AppendValueToLinkedList(list,p) != WizardFalse,"append failed");
        model_insert(count,p);
      }
      for (i=0; i < (start == 5 ? 1 : start == 7 ? 2 : 0); i++)
        do_next(list);
    }
  mc_note("capacity %d, %d values at the start, cursor %d\n",capacity,count,cursor);
  observe(list,"start");
  depth=mc_thorough() ? (start < 4 ? 6 : 5) : (start < 4 ? 5 : 4);
  for (step=0; step < depth; step++)
  {
    struct { int op, arg; } alphabet[64];
    int n=0,k;
    Item *p,*replaced;
    alphabet[n].op=APPEND; alphabet[n++].arg=2;
    for (i=0; i <= count; i++)
    { alphabet[n].op=INSERT; alphabet[n++].arg=i; }
    if (is_sorted())
      for (i=1; i <= 3; i++)
      {
        alphabet[n].op=SORTED; alphabet[n++].arg=i;
        alphabet[n].op=REPLACE; alphabet[n++].arg=i;
      }
    for (i=0; i < count; i++)
    {
      alphabet[n].op=REMOVE; alphabet[n++].arg=i;
      alphabet[n].op=REMOVE_VALUE; alphabet[n++].arg=i;
    }
    alphabet[n].op=NEXT; alphabet[n++].arg=0;
    alphabet[n].op=RESET; alphabet[n++].arg=0;
    alphabet[n].op=REMOVE_LAST; alphabet[n++].arg=0;
    alphabet[n].op=CLEAR; alphabet[n++].arg=0;
    alphabet[n].op=REMOVE_ABSENT; alphabet[n++].arg=0;
    if (step+1 == depth)
      {
        alphabet[n].op=INSERT_BAD; alphabet[n++].arg=0;
        alphabet[n].op=REMOVE_BAD; alphabet[n++].arg=0;
      }
    if (count != 0 && !dup)
      { alphabet[n].op=DUPLICATE; alphabet[n++].arg=0; }
    k=mc_choose(n,"operation");
    mc_transition();
    switch (alphabet[k].op)
    {
      case APPEND:
      {
        WizardBooleanType status;
        p=item(2);
        status=AppendValueToLinkedList(list,p);
        mc_note("append -> %d\n",status);
        MC_CHECK((status != WizardFalse) == (count < capacity),
          "append returned %d with %d of %d",status,count,capacity);
        if (status != WizardFalse)
          model_insert(count,p), changed++;
        else
          p->released=1;
        observe(list,"append");
        break;
      }
      case DUPLICATE:
      {
        WizardBooleanType status;
        status=AppendValueToLinkedList(list,model[0]);
        mc_note("append the first value again -> %d\n",status);
        MC_CHECK((status != WizardFalse) == (count < capacity),
          "append returned %d with %d of %d",status,count,capacity);
        if (status != WizardFalse)
          {
            model_insert(count,model[0]);
            dup=1;
          }
        observe(list,"append");
        if (status != WizardFalse)
          changed++;
        break;
      }
      case INSERT:
      {
        WizardBooleanType status;
        p=item(2);
        status=InsertValueInLinkedList(list,alphabet[k].arg,p);
        mc_note("insert at %d -> %d\n",alphabet[k].arg,status);
        MC_CHECK((status != WizardFalse) == (count < capacity),
          "insert returned %d with %d of %d",status,count,capacity);
        if (status != WizardFalse)
          {
            model_insert(alphabet[k].arg,p);
            if (cursor > alphabet[k].arg)
              cursor++;
            changed++;
          }
        else
          p->released=1;
        observe(list,"insert");
        break;
      }
      case SORTED:
      case REPLACE:
      {
        WizardBooleanType status;
        int at,hit=0;
        p=item(alphabet[k].arg);
        replaced=NULL;
        status=InsertValueInSortedLinkedList(list,compare,
          alphabet[k].op == REPLACE ? (void **) &replaced : NULL,p);
        mc_note("insert sorted key %d%s -> %d\n",p->key,
          alphabet[k].op == REPLACE ? " replacing" : "",status);
        for (at=0; at < count; at++)
        {
          int c=compare(p,model[at]);
          if (c < 0)
            break;
          if (c == 0 && alphabet[k].op == REPLACE)
            {
              hit=1;
              break;
            }
        }
        if (count >= capacity && status == WizardFalse)
          {
            p->released=1;
            MC_CHECK(replaced == NULL,"a refused insertion replaced a value");
            observe(list,"refused sorted insert");
            break;
          }
        MC_CHECK(status != WizardFalse ? (hit || count < capacity) : 0,
          "sorted insert returned %d with %d of %d",status,count,capacity);
        if (hit)
          {
            MC_CHECK(replaced == model[at],"the replaced value was not returned");
            model[at]=p;
            {
              int still=0;
              for (i=0; i < count; i++)
                if (model[i] == replaced)
                  still=1;
              if (!still)
                handed_out(replaced);
            }
          }
        else
          {
            MC_CHECK(replaced == NULL,"a value was reported as replaced");
            model_insert(at,p);
          }
        cursor=-1;
        changed++;
        observe(list,"sorted insert");
        break;
      }
      case REMOVE:
      case REMOVE_VALUE:
      case REMOVE_LAST:
      {
        Item *got;
        int at=alphabet[k].arg,still=0;
        if (alphabet[k].op == REMOVE)
          got=RemoveElementFromLinkedList(list,at);
        else if (alphabet[k].op == REMOVE_LAST)
          {
            at=count-1;
            got=RemoveLastElementFromLinkedList(list);
          }
        else
          {
            p=model[at];
            for (at=0; model[at] != p; at++)
              ;
            got=RemoveElementByValueFromLinkedList(list,p);
          }
        mc_note("remove (%d) at %d of %d -> %d\n",alphabet[k].op,at,count,
          got ? got->serial : -1);
        MC_CHECK(got == (at < 0 ? NULL : model[at]),
          "removing position %d of %d returned the wrong value",at,count);
        if (at >= 0)
          {
            model_remove(at);
            for (i=0; i < count; i++)
              if (model[i] == got)
                still=1;
            if (!still)
              handed_out(got);
            changed++;
          }
        observe(list,"remove");
        break;
      }
      case REMOVE_ABSENT:
      {
        Item absent;
        MC_CHECK(RemoveElementByValueFromLinkedList(list,&absent) == NULL,
          "a value not in the list was removed");
        MC_CHECK(RemoveElementByValueFromLinkedList(list,NULL) == NULL,
          "removing nothing returned something");
        observe(list,"remove absent");
        break;
      }
      case INSERT_BAD:
      {
        Item absent;
        MC_CHECK(InsertValueInLinkedList(list,count+1,&absent) == WizardFalse,
          "insertion past the end was accepted");
        MC_CHECK(InsertValueInLinkedList(list,0,NULL) == WizardFalse,
          "insertion of nothing was accepted");
        observe(list,"bad insert");
        break;
      }
      case REMOVE_BAD:
        MC_CHECK(RemoveElementFromLinkedList(list,count) == NULL,
          "removal past the end returned a value");
        observe(list,"bad remove");
        break;
      case CLEAR:
        if (dup)
          {
            /* drop the double reference first so each value is released once */
            int hits=0;
            for (i=0; i < count; i++)
            {
              int j;
              for (j=0; j < i; j++)
                if (model[j] == model[i])
                  hits=i;
            }
            if (hits)
              {
                MC_CHECK(RemoveElementFromLinkedList(list,hits) ==
                  model[hits],"removing the second copy failed");
                model_remove(hits);
              }
            dup=0;
          }
        ClearLinkedList(list,relinquish);
        mc_note("clear\n");
        for (i=0; i < count; i++)
          MC_CHECK(model[i]->released == 1,"clear did not release value %d",
            model[i]->serial);
        changed+=count;
        count=0;
        cursor=0;
        observe(list,"clear");
        break;
      case NEXT:
        do_next(list);
        break;
      case RESET:
        ResetLinkedListIterator(list);
        mc_note("reset\n");
        cursor=0;
        break;
    }
  }
  /* a full iteration from the start, then destruction */
  ResetLinkedListIterator(list);
  cursor=0;
  for (i=0; i <= count; i++)
    do_next(list);
  if (dup)
    {
      for (i=0; i < count; i++)
      {
        int j;
        for (j=0; j < i; j++)
          if (model[j] == model[i])
            {
              MC_CHECK(RemoveElementFromLinkedList(list,i) == model[i],
                "removing the second copy failed");
              model_remove(i);
              i=count;
              break;
            }
      }
    }
  MC_CHECK(DestroyLinkedList(list,relinquish) == NULL,"destroy returned a list");
  for (i=0; i < used; i++)
    MC_CHECK(pool[i].released == 1,"value %d was never released",i);
  if (changed >= 2)
    mc_nontrivial();
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C01", .name="list_seq",
    .rule="every sequence of list operations up to the depth from ten start "
      "states (capacities unbounded/1/2/4, preloaded lists, moved cursor); "
      "non-trivial when at least two operations changed the list; distinct by "
      "the sequence of list states and results",
    .body=body
  };
  return(mc_main(argc,argv,&h));
}

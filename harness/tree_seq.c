/*
  All operation sequences on one splay tree against a plain ordered map.
*/
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "mc.h"

#define MAXKEYS 2200
#define KEYS limit
#define MAXOBJ 32768

typedef struct { int id,is_key,released; void *object; } Obj;

static Obj object[MAXOBJ];
static int limit=8;
static int objects,kind,owned,entries;
static struct { int present; Obj *key,*value; } model[MAXKEYS];
static char (*key_name)[8];
static StringInfo *key_string[8];
static int iterating,last,pending;      /* pending KEYS: at the end */
static int shared_values;

static Obj *fresh(void *p,int id,int is_key)
{
  Obj *o=object+objects++;
  o->id=id;
  o->is_key=is_key;
  o->released=0;
  o->object=p;
  return(o);
}

static void *release(void *p,int is_key)
{
  int i;
  for (i=objects-1; i >= 0; i--)
    if (object[i].object == p && !object[i].released &&
        object[i].is_key == is_key)
      break;
  if (i < 0)
    mc_fail("a %s was released that is not held (or twice)",is_key ? "key" :
      "value");
  object[i].released=1;
  if (is_key && kind == 1)
    free(p);
  if (is_key && kind == 2)
    DestroyStringInfo(p);
  if (!is_key)
    free(p);
  return(NULL);
}
static void *release_key(void *p) { return(release(p,1)); }
static void *release_value(void *p) { return(release(p,0)); }

static Obj *fresh_key(int k)
{
  return(fresh(kind == 0 ? (void *) key_name[k] : kind == 1 ? (void *)
    strdup(key_name[k]) : (void *) CloneStringInfo(key_string[k]),k,1));
}

static const void *probe_key(int k)
{
  static char copy[8];
  if (kind == 0)
    return(key_name[k]);
  if (kind == 2)
    return(key_string[k]);
  strcpy(copy,key_name[k]);
  copy[0]^=0x20;        /* string keys compare without regard to case */
  return(copy);
}

static void *clone_key(void *p)
{
  int i;
  for (i=objects-1; i >= 0; i--)
    if (object[i].object == p && object[i].is_key)
      break;
  if (i < 0)
    mc_fail("an unknown key was cloned");
  return(fresh_key(object[i].id)->object);
}
static void *clone_value(void *p)
{
  int i;
  for (i=objects-1; i >= 0; i--)
    if (object[i].object == p && !object[i].is_key)
      break;
  if (i < 0)
    mc_fail("an unknown value was cloned");
  return(fresh(malloc(1),object[i].id,0)->object);
}

static int next_key(int k)
{
  for (k++; k < KEYS; k++)
    if (model[k].present)
      break;
  return(k);
}

static void check_count(SplayTreeInfo *tree,const char *op)
{
  MC_CHECK(GetNumberOfNodesInSplayTree(tree) == (size_t) entries,
    "after %s the tree reports %lu nodes, %d were expected",op,
    (unsigned long) GetNumberOfNodesInSplayTree(tree),entries);
}

static void retire(int k)
{
  if (owned)
    {
      MC_CHECK(model[k].key->released == 1,"the key was not released");
      MC_CHECK(model[k].value->released == 1,"the value was not released");
    }
  model[k].present=0;
  entries--;
  if (k == pending)
    pending=next_key(k);
}

static void add(SplayTreeInfo *tree,int k)
{
  Obj *key=fresh_key(k),*value;
  WizardBooleanType status;
  if (shared_values && model[k^1].present)
    value=model[k^1].value;
  else
    value=fresh(malloc(1),k,0);
  status=AddValueToSplayTree(tree,key->object,value->object);
  MC_CHECK(status != WizardFalse,"add failed");
  if (model[k].present)
    {
      if (owned)
        {
          if (kind == 0)
            {
              MC_CHECK(key->released+model[k].key->released == 1,
                "the replaced key was not released once");
              if (key->released)
                {
                  key->released=0;
                  model[k].key->released=1;
                }
            }
          MC_CHECK(model[k].key->released == 1,"the replaced key was not released");
          MC_CHECK(model[k].value->released == 1,
            "the replaced value was not released");
        }
    }
  else
    {
      model[k].present=1;
      entries++;
    }
  model[k].key=key;
  model[k].value=value;
}

static void get(SplayTreeInfo *tree,int k)
{
  const void *got=GetValueFromSplayTree(tree,probe_key(k));
  MC_CHECK(got == (model[k].present ? model[k].value->object : NULL),
    "key %d has the wrong value",k);
}

static void step_iterator(SplayTreeInfo *tree,int value)
{
  const void *got=value ? GetNextValueInSplayTree(tree) :
    GetNextKeyInSplayTree(tree);
  int k,hit=-1;
  if (!iterating)
    return;
  if (got == NULL)
    {
      /* a key added behind the position may or may not be seen */
      MC_CHECK(pending == KEYS,"iteration ended before key %d",pending);
      mc_note("next -> end\n");
      mc_observe_int(-1);
      return;
    }
  for (k=last+1; k <= pending && k < KEYS; k++)
    if (model[k].present && got == (value ? model[k].value->object :
        model[k].key->object))
      {
        hit=k;
        break;
      }
  mc_note("next %s -> %d\n",value ? "value" : "key",hit);
  MC_CHECK(hit >= 0,"iteration did not return key %d next",pending);
  mc_observe_int(hit);
  last=hit;
  pending=next_key(hit);
}

static void reset_iterator(SplayTreeInfo *tree)
{
  ResetSplayTreeIterator(tree);
  iterating=1;
  last=-1;
  pending=next_key(-1);
}

static void check_clone(SplayTreeInfo *tree,int keys)
{
  SplayTreeInfo *copy;
  int k,first=objects;
  copy=CloneSplayTree(tree,clone_key,clone_value);
  MC_CHECK(GetNumberOfNodesInSplayTree(copy) == (size_t) entries,
    "the clone has the wrong number of nodes");
  for (k=keys-1; k >= 0; k--)
  {
    const void *got=GetValueFromSplayTree(copy,probe_key(k));
    int i;
    MC_CHECK((got != NULL) == (model[k].present != 0),"the clone differs at %d",k);
    if (got == NULL)
      continue;
    for (i=first; i < objects; i++)
      if (object[i].object == got && !object[i].is_key)
        break;
    MC_CHECK(i < objects,"the clone shares a value with its source");
    MC_CHECK(object[i].id == model[k].value->id,"the clone has another value");
  }
  DestroySplayTree(copy);
  if (owned)
    for (k=first; k < objects; k++)
      MC_CHECK(object[k].released == 1,"the clone leaked an entry");
}

static void release_all(void)
{
  int i;
  for (i=0; i < objects; i++)
    if (!object[i].released)
      {
        object[i].released=1;
        if (!object[i].is_key || kind == 1)
          free(object[i].object);
        else if (kind == 2)
          DestroyStringInfo(object[i].object);
      }
}

static void body(void)
{
  SplayTreeInfo *tree;
  int mode,keys,depth,step,i,k,changed=0,big=0;
  char order[32];

  mode=mc_choose(3,"mode");             /* empty, permutation, degenerate */
  kind=mc_choose(mode == 2 ? 1 : 3,"kind");
  owned=mc_choose(2,"owned");
  shared_values=0;
  objects=entries=iterating=0;
  limit=mode == 2 ? MAXKEYS : 8;
  memset(model,0,sizeof(model[0])*limit);
  tree=NewSplayTree(kind == 0 ? NULL : kind == 1 ? CompareSplayTreeString :
    CompareSplayTreeStringInfo,owned ? release_key : NULL,owned ?
    release_value : NULL);
  if (mode == 2)
    {
      int n=1022+mc_choose(7,"size"),up=mc_choose(2,"direction");
      if (n == 1028)
        n=2100;
      for (i=0; i < n; i++)
        add(tree,up ? i : n-1-i);
      keys=n;
      big=n;
      depth=mc_thorough() ? 3 : 2;
      mc_note("%d keys, %s\n",n,up ? "ascending" : "descending");
    }
  else
    {
      keys=mode == 0 ? 3 : 4;
      if (!owned)
        shared_values=mc_choose(2,"shared values");
      if (mode == 1)
        {
          int left[4]={0,1,2,3},n=4;
          for (i=0; i < 4; i++)
          {
            k=mc_choose(n,"insertion order");
            order[2*i]='0'+left[k];
            order[2*i+1]=' ';
            add(tree,left[k]);
            memmove(left+k,left+k+1,sizeof(int)*(n-k-1));
            n--;
          }
          order[8]=0;
          mc_note("keys added: %s\n",order);
          depth=mc_thorough() ? 4 : 3;
        }
      else
        depth=mc_thorough() ? 5 : 4;
    }
  mc_note("kind %d, %s%s\n",kind,owned ? "owned" : "borrowed",shared_values ?
    ", shared values" : "");
  reset_iterator(tree);
  check_count(tree,"start");
  for (step=0; step < depth; step++)
  {
    int op,n;
    n=big ? 4 : keys;
    op=mc_choose(6*n+(big ? 3 : 5),"operation");
    mc_transition();
    if (op < 6*n)
      {
        k=op/6;
        if (big)
          k=k == 0 ? 0 : k == 1 ? big/2 : k == 2 ? big-1 : big/2+1;
        op%=6;
        switch (op)
        {
          case 0:
            mc_note("add %d\n",k);
            add(tree,k);
            changed++;
            break;
          case 1:
            mc_note("get %d\n",k);
            get(tree,k);
            break;
          case 2:
          {
            WizardBooleanType status=DeleteNodeFromSplayTree(tree,probe_key(k));
            mc_note("delete %d -> %d\n",k,status);
            MC_CHECK((status != WizardFalse) == (model[k].present != 0),
              "deleting key %d returned %d",k,status);
            if (status != WizardFalse)
              retire(k), changed++;
            break;
          }
          case 3:
          {
            void *got=RemoveNodeFromSplayTree(tree,probe_key(k));
            mc_note("remove %d -> %d\n",k,got != NULL);
            MC_CHECK(got == (model[k].present ? model[k].value->object : NULL),
              "removing key %d returned the wrong value",k);
            if (got != NULL)
              {
                int others=0;
                for (i=0; i < 4; i++)
                  if (i != k && model[i].present &&
                      model[i].value == model[k].value)
                    others=1;
                MC_CHECK(model[k].value->released == 0,
                  "the removed value had been released");
                if (!others)
                  {
                    model[k].value->released=1;
                    free(got);
                  }
                retire(k);
                changed++;
              }
            break;
          }
          case 4:
          case 5:
          {
            const void *value;
            void *got;
            int victim;
            if (!model[k].present)
              {
                char absent;
                if (op == 4)
                  MC_CHECK(DeleteNodeByValueFromSplayTree(tree,&absent) ==
                    WizardFalse,"an absent value was deleted");
                else
                  MC_CHECK(RemoveNodeByValueFromSplayTree(tree,&absent) ==
                    NULL,"an absent value was removed");
                mc_note("delete/remove an absent value\n");
                break;
              }
            value=model[k].value->object;
            for (victim=0; victim < KEYS; victim++)
              if (model[victim].present && model[victim].value->object == value)
                break;
            if (op == 4)
              {
                MC_CHECK(DeleteNodeByValueFromSplayTree(tree,value) !=
                  WizardFalse,"deleting the value of key %d failed",k);
                mc_note("delete by value of %d\n",k);
              }
            else
              {
                got=RemoveNodeByValueFromSplayTree(tree,value);
                mc_note("remove by value of %d\n",k);
                MC_CHECK(got == model[victim].key->object,
                  "removing the value of key %d returned the wrong key",k);
                MC_CHECK(model[victim].key->released == 0,
                  "the removed key had been released");
                model[victim].key->released=1;
                if (kind == 1)
                  free(got);
                if (kind == 2)
                  DestroyStringInfo(got);
              }
            retire(victim);
            changed++;
            break;
          }
        }
      }
    else
      switch (op-6*n)
      {
        case 0: step_iterator(tree,0); break;
        case 1: reset_iterator(tree); mc_note("reset iterator\n"); break;
        case 2:
          check_clone(tree,keys);
          mc_note("clone\n");
          break;
        case 3:
          if (shared_values)
            step_iterator(tree,0);
          else
            step_iterator(tree,1);
          break;
        case 4:
          ResetSplayTree(tree);
          mc_note("reset tree\n");
          for (k=0; k < keys; k++)
            if (model[k].present)
              retire(k);
          last=-1;
          pending=KEYS;
          changed++;
          break;
      }
    check_count(tree,"operation");
    mc_observe_int(entries);
    for (i=0; i < 4; i++)
      mc_observe_int(model[i].present ? model[i].value-object : -1);
  }
  mc_observe_int(mode*8+kind*2+owned);
  reset_iterator(tree);
  for (i=0; i <= entries; i++)
    step_iterator(tree,!shared_values && (i & 1));
  if (!big)
    for (k=0; k < keys; k++)
      get(tree,k);
  else
    for (k=0; k < keys; k+=97)
      get(tree,k);
  check_count(tree,"iteration");
  MC_CHECK(DestroySplayTree(tree) == NULL,"destroy returned a tree");
  if (owned)
    for (i=0; i < objects; i++)
      MC_CHECK(object[i].released == 1,"a %s was never released",
        object[i].is_key ? "key" : "value");
  release_all();
  if (changed)
    mc_nontrivial();
}

static void init(void)
{
  int k;
  key_name=malloc(MAXKEYS*8);
  for (k=0; k < MAXKEYS; k++)
    sprintf(key_name[k],"k%04d",k);
  for (k=0; k < 8; k++)
    key_string[k]=StringToStringInfo(key_name[k]);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C03", .name="tree_seq", .init=init,
    .rule="every sequence of tree operations up to the depth from the empty "
      "tree, from all 24 insertion orders of four keys, and from degenerate "
      "chains around the rebalancing depth, for three comparison methods, owned "
      "and borrowed entries; non-trivial when a node was added or deleted; "
      "distinct by node counts and iteration results",
    .body=body
  };
  return(mc_main(argc,argv,&h));
}

/*
  All operation sequences on one hash map against a plain map.
*/
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "mc.h"

#define KEYS 24
#define MAXOBJ 256

typedef struct { int id,is_key,released; void *object; } Obj;

static Obj object[MAXOBJ];
static int objects,kind,owned;
static struct { int present; void *key,*value; } model[KEYS];
static int entries;
static char key_name[KEYS][8];
static StringInfo *key_string[KEYS];
static int visited[KEYS],iterating;     /* iterating 0: cursor not determined */

/* Key objects: kind 0 and 1 use the static name's address, 2 and 3 contents. */
static Obj *find(void *p)
{
  int i;
  for (i=objects-1; i >= 0; i--)
    if (object[i].object == p && object[i].released == 0)
      return(object+i);
  return(NULL);
}

static void *release(void *p,int is_key)
{
  Obj *o=find(p);
  if (o == NULL || o->is_key != is_key)
    mc_fail("a %s was released that is not held (or twice)",is_key ? "key" :
      "value");
  o->released=1;
  if (is_key && kind == 2)
    free(p);
  if (is_key && kind == 3)
    DestroyStringInfo(p);
  if (!is_key)
    free(p);
  return(NULL);
}
static void *release_key(void *p) { return(release(p,1)); }
static void *release_value(void *p) { return(release(p,0)); }

static void *fresh_key(int k)
{
  Obj *o=object+objects++;
  o->id=k;
  o->is_key=1;
  o->released=0;
  if (kind <= 1)
    o->object=key_name[k];
  else if (kind == 2)
    o->object=strdup(key_name[k]);
  else
    o->object=CloneStringInfo(key_string[k]);
  return(o->object);
}

static void *probe_key(int k)
{
  static char copy[8];
  if (kind == 0)
    return(key_name[k]);
  if (kind == 3)
    return(key_string[k]);
  strcpy(copy,key_name[k]);
  return(copy);
}

static void *fresh_value(void)
{
  Obj *o=object+objects++;
  o->id=objects;
  o->is_key=0;
  o->released=0;
  o->object=malloc(1);
  return(o->object);
}

static size_t constant_hash(const void *key)
{
  return(5);
}

static WizardBooleanType compare_name(const void *a,const void *b)
{
  return(strcmp(a,b) == 0 ? WizardTrue : WizardFalse);
}

static void observe(HashmapInfo *map,int keys,const char *op)
{
  int k;
  MC_CHECK(GetNumberOfEntriesInHashmap(map) == (size_t) entries,
    "after %s the map reports %lu entries, %d were expected",op,
    (unsigned long) GetNumberOfEntriesInHashmap(map),entries);
  MC_CHECK((IsHashmapEmpty(map) != WizardFalse) == (entries == 0),
    "after %s the map is wrong about being empty",op);
  for (k=0; k < keys; k++)
    MC_CHECK(GetValueFromHashmap(map,probe_key(k)) ==
      (model[k].present ? model[k].value : NULL),
      "after %s key %d has the wrong value",op,k);
  mc_observe_int(entries);
  for (k=0; k < 4; k++)
    mc_observe_int(model[k].present);
}

static void step_iterator(HashmapInfo *map,int value)
{
  void *got;
  int k;
  got=value ? GetNextValueInHashmap(map) : GetNextKeyInHashmap(map);
  for (k=0; k < KEYS; k++)
    if (model[k].present && got == (value ? model[k].value : model[k].key))
      break;
  mc_note("next %s -> %d\n",value ? "value" : "key",got ? k : -1);
  if (got == NULL)
    {
      if (iterating)
        for (k=0; k < KEYS; k++)
          MC_CHECK(!model[k].present || visited[k],
            "iteration ended without visiting key %d",k);
      return;
    }
  MC_CHECK(k < KEYS,"iteration returned something the map does not hold");
  if (iterating)
    {
      MC_CHECK(!visited[k],"iteration returned key %d twice",k);
      visited[k]=1;
    }
}

static void put(HashmapInfo *map,int k)
{
  void *key=fresh_key(k),*value=fresh_value();
  Obj *ok=object+objects-2,*old_key=NULL,*old_value=NULL;
  WizardBooleanType status;
  if (model[k].present)
    {
      old_value=find(model[k].value);
      if (owned)
        {
          int i;
          for (i=0; i < objects-2; i++)
            if (object[i].is_key && object[i].object == model[k].key &&
                !object[i].released)
              old_key=object+i;
        }
    }
  status=PutEntryInHashmap(map,key,value);
  mc_note("put %d -> %d\n",k,status);
  MC_CHECK(status != WizardFalse,"put failed");
  if (model[k].present)
    {
      if (owned)
        {
          /* pointer keys share one address; the accounting is by count */
          if (kind <= 1)
            MC_CHECK(old_key->released+ok->released == 1,
              "the replaced key was not released once");
          else
            MC_CHECK(old_key->released == 1,"the replaced key was not released");
          if (kind <= 1 && ok->released)
            {
              ok->released=0;
              old_key->released=1;
            }
          MC_CHECK(old_value->released == 1,
            "the replaced value was not released");
        }
    }
  else
    {
      model[k].present=1;
      entries++;
    }
  model[k].key=key;
  model[k].value=value;
  iterating=0;
}

static void body(void)
{
  static const int capacities[]={ 1, 2, 3, 17, 0 };
  static const int prefills[]={ 0, 2, 15, 16 };
  HashmapInfo *map;
  int capacity,prefill,keys,depth,step,k,i,changed=0;

  kind=mc_choose(4,"kind");
  owned=mc_choose(2,"owned");
  capacity=capacities[mc_choose(5,"capacity")];
  prefill=prefills[mc_choose(4,"prefill")];
  objects=entries=0;
  memset(model,0,sizeof(model));
  memset(visited,0,sizeof(visited));
  map=NewHashmap(capacity,kind == 0 ? HashPointerType : kind == 1 ?
    constant_hash : kind == 2 ? HashStringType : HashStringInfoType,
    kind == 0 ? NULL : kind == 1 ? compare_name : kind == 2 ?
    CompareHashmapString : CompareHashmapStringInfo,owned ? release_key : NULL,
    owned ? release_value : NULL);
  mc_note("hash %d, %s, capacity %d, %d entries at the start\n",kind,owned ?
    "owned" : "borrowed",capacity,prefill);
  for (k=0; k < prefill; k++)
    put(map,k);
  ResetHashmapIterator(map);
  iterating=1;
  keys=prefill > 2 ? 18 : 4;
  observe(map,keys,"start");
  depth=(mc_thorough() ? 6 : 5)-(prefill > 2 ? 2 : 0)-(kind == 2 ? 1 : 0);
  for (step=0; step < depth; step++)
  {
    int base=prefill > 2 ? prefill-1 : 0;
    int op=mc_choose(9,"operation");
    mc_transition();
    switch (op)
    {
      case 0: case 1: case 2:
        put(map,base+op);
        changed++;
        break;
      case 3: case 4: case 5:
      {
        void *got;
        k=base+op-3;
        got=RemoveEntryFromHashmap(map,probe_key(k));
        mc_note("remove %d -> %s\n",k,got ? "value" : "nothing");
        MC_CHECK(got == (model[k].present ? model[k].value : NULL),
          "remove returned the wrong value");
        if (got != NULL)
          {
            Obj *o=find(got);
            MC_CHECK(o != NULL,"the removed value had been released");
            o->released=1;
            free(got);
            if (owned)
              {
                int live=0;
                for (i=0; i < objects; i++)
                  if (object[i].is_key && object[i].id == k &&
                      !object[i].released)
                    live++;
                MC_CHECK(live == 0,"the removed key was not released");
              }
            model[k].present=0;
            entries--;
            changed++;
            iterating=0;
          }
        break;
      }
      case 6: step_iterator(map,0); break;
      case 7: step_iterator(map,1); break;
      case 8:
        ResetHashmapIterator(map);
        memset(visited,0,sizeof(visited));
        iterating=1;
        mc_note("reset\n");
        break;
    }
    observe(map,keys,"operation");
  }
  ResetHashmapIterator(map);
  memset(visited,0,sizeof(visited));
  iterating=1;
  for (i=0; i <= entries; i++)
    step_iterator(map,i & 1);
  MC_CHECK(GetNextKeyInHashmap(map) == NULL,"iteration does not end");
  MC_CHECK(DestroyHashmap(map) == NULL,"destroy returned a map");
  for (i=0; i < objects; i++)
    if (owned)
      MC_CHECK(object[i].released == 1,"a %s was never released",
        object[i].is_key ? "key" : "value");
    else
      if (!object[i].released)
        {
          object[i].released=1;
          if (!object[i].is_key || kind == 2)
            free(object[i].object);
          else if (kind == 3)
            DestroyStringInfo(object[i].object);
        }
  if (changed)
    mc_nontrivial();
  mc_observe_int(kind*4+owned);
  mc_observe_int(capacity*32+prefill);
}

static void init(void)
{
  int k;
  for (k=0; k < KEYS; k++)
  {
    /* names whose XOR of bytes is equal in pairs, so that string hashes clash */
    sprintf(key_name[k],"%c%c",'A'+(k^1),'A'+k);
    key_string[k]=StringToStringInfo(key_name[k]);
  }
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C02", .name="map_seq", .init=init,
    .rule="every sequence of put/remove/next/reset (with lookups of all keys "
      "after each) for four hash functions, owned and borrowed entries, five "
      "capacities and four prefills that reach collisions and growth; "
      "non-trivial when an entry was put or removed; distinct by the results",
    .body=body
  };
  return(mc_main(argc,argv,&h));
}

/*
  Keys held enciphered in memory: what is stored under an id comes back.
*/
#include "common.h"
#include "wizard/key.h"

#define IDS 3
static const int id_length[IDS]={ 1,20,32 };
static const int lengths[]={ 1,15,16,17,33,64,100,0 };

typedef struct
{
  StringInfo *id;
  unsigned char key[128];
  int length,set;
} slot;

static void verify(KeyInfo *map,slot *s,const char *when)
{
  StringInfo *key=GetKeyInfo(map,s->id);
  MC_CHECK(key != NULL,"no key %s",when);
  MC_CHECK((int) GetStringInfoLength(key) == s->length,"a key of %d bytes comes back with %zu %s",s->length,
    GetStringInfoLength(key),when);
  MC_CHECK(memcmp(GetStringInfoDatum(key),s->key,s->length) == 0,"a key of %d bytes comes back changed %s",s->length,when);
  /* the caller may change its copy */
  memset(GetStringInfoDatum(key),0x55,GetStringInfoLength(key));
  key=DestroyStringInfo(key);
}

static void all(KeyInfo *map,slot *slots,int n,const char *when)
{
  int i;
  for (i=0; i < n; i++)
    if (slots[i].set)
      verify(map,slots+i,when);
}

static void body(void)
{
  slot slots[IDS+8];
  KeyInfo *map=AcquireKeyInfo();
  int n=1+mc_choose(mc_thorough() ? 5 : 4,"calls"),i,j,k,used=IDS,kinds=n > 3 ? 3 : n > 2 ? 5 : 8;
  memset(slots,0,sizeof(slots));
  for (i=0; i < IDS; i++)
  {
    slots[i].id=AcquireStringInfo(id_length[i]);
    memset(GetStringInfoDatum(slots[i].id),'a',id_length[i]);
  }
  mc_nontrivial();
  for (k=0; k < n; k++)
  {
    int op=mc_choose(IDS*kinds+2,"call");
    StringInfo *id,*key;
    slot *s;
    if (op < IDS*kinds)
      {
        s=slots+op/kinds;
        s->length=lengths[op%kinds];
        for (j=0; j < s->length; j++)
          s->key[j]=(unsigned char) (j*7+13*k+op);
        mc_note("store a key of %d bytes under id %d\n",s->length,op/kinds);
        id=CloneStringInfo(s->id);
        key=AcquireStringInfo(s->length);
        memcpy(GetStringInfoDatum(key),s->key,s->length);
        MC_CHECK(SetKeyInfo(map,id,key) != WizardFalse,"a key is not stored");
        MC_CHECK((int) GetStringInfoLength(key) == s->length && memcmp(GetStringInfoDatum(key),s->key,s->length) == 0,
          "the key of the caller is changed");
        key=DestroyStringInfo(key);
        id=DestroyStringInfo(id);
        s->set=1;
      }
    else
      if (op == IDS*kinds)
        {
          s=slots+used++;
          mc_note("generate a session key\n");
          s->id=GenerateSessionKey(map);
          MC_CHECK(GetStringInfoLength(s->id) == 32,"an id of %zu bytes",GetStringInfoLength(s->id));
          for (i=0; i < used-1; i++)
            MC_CHECK(CompareStringInfo(s->id,slots[i].id) != 0,"an id given twice");
          key=GetKeyInfo(map,s->id);
          s->length=(int) GetStringInfoLength(key);
          MC_CHECK(s->length == 64,"a session key of %d bytes",s->length);
          memcpy(s->key,GetStringInfoDatum(key),64);
          for (i=IDS; i < used-1; i++)
            MC_CHECK(memcmp(s->key,slots[i].key,64) != 0,"a key generated twice");
          s->set=1;
          key=DestroyStringInfo(key);
        }
      else
        {
          /* the other order of reading */
          for (i=used-1; i >= 0; i--)
            if (slots[i].set)
              verify(map,slots+i,"in reverse order");
        }
    all(map,slots,used,"after a call");
    mc_transition();
  }
  all(map,slots,used,"once more");
  for (i=0; i < used; i++)
  {
    mc_observe_int(slots[i].set ? slots[i].length : -1);
    slots[i].id=DestroyStringInfo(slots[i].id);
  }
  map=DestroyKeyInfo(map);
}

static void init(void)
{
  WizardsToolkitGenesis("keymap_seq");
}

int main(int argc,char **argv)
{
  static mc_harness h={ .property="C51", .name="keymap_seq",
    .rule="every key stored in a key map comes back as it was stored", .init=init, .body=body };
  return(mc_main(argc,argv,&h));
}

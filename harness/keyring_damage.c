/*
  Keyring files with one byte changed or cut off anywhere.
*/
#include "ring.h"

static unsigned char whole[3][800];
static size_t size[3];
static int calls;

static void hook(const sim_call *c,sim_answer *a)
{
  (void) c;
  (void) a;
  if (++calls > 5000)
    mc_fail("the call does not end");
}

static size_t number(const unsigned char *p,int n)
{
  size_t v=0;
  while (n--)
    v=v << 8 | p[n];
  return(v);
}

/* the key in the first complete record with this identifier, reading as the
   format says; -1: none, -2: some other key */
static int reference(const unsigned char *p,size_t n,int id,const unsigned char *header)
{
  size_t at=64,length[3],start[3];
  int i,k;
  if (n < 64 || memcmp(p,header,64) != 0)
    return(-1);
  while (n-at >= 4 && number(p+at,4) == 0xabacadab)
  {
    at+=4;
    if (n-at < 8)
      return(-1);
    i=number(p+at+4,2) == 1 && number(p+at+6,2) == 0;
    at+=8;
    if (!i)
      {
        if (n-at < 8)
          return(-1);
        at+=8;
      }
    for (i=0; i < 3; i++)
    {
      if (n-at < 4)
        return(-1);
      length[i]=number(p+at,4);
      at+=4;
      if (length[i] > n-at)
        return(-1);
      start[i]=at;
      at+=length[i];
    }
    if ((int) length[0] == ids[id].n && memcmp(p+start[0],ids[id].p,length[0]) == 0)
      {
        for (k=0; k < KEYS; k++)
          if ((int) length[1] == keys[k].n && (int) length[2] == keys[k].m &&
              memcmp(p+start[1],keys[k].key,keys[k].n) == 0 &&
              memcmp(p+start[2],keys[k].nonce,keys[k].m) == 0)
            return(k);
        return(-2);
      }
  }
  return(-1);
}

static void judge(const unsigned char *p,size_t n,const unsigned char *header)
{
  int i,r,want[IDS],listed[IDS],others,total=0;
  sim_reset();
  ring_path=ring_file;
  sim_put(ring_file,p,n);
  sim_hook=hook;
  calls=0;
  for (i=0; i < IDS; i++)
  {
    want[i]=reference(p,n,i,header);
    r=ring_export(i);
    MC_CHECK(r == want[i],"identifier %d gives key %d instead of %d",i,r,want[i]);
    total+=want[i] != -1;
  }
  calls=0;
  r=ring_list(listed,&others);
  for (i=0; i < IDS; i++)
    MC_CHECK(!r || (listed[i] > 0) == (want[i] != -1),"identifier %d is listed %d times",i,
      listed[i]);
  calls=0;
  r=ring_import(2,1);
  if (want[2] != -1)
    MC_CHECK(!r,"a present identifier was stored again");
  else
    if (r)
      want[2]=1;
  for (i=0; i < IDS; i++)
  {
    r=ring_export(i);
    MC_CHECK(r == want[i],"after a store identifier %d gives key %d instead of %d",i,r,want[i]);
  }
  sim_hook=NULL;
  MC_CHECK(sim_open_descriptors() == 0,"a file is left open");
  mc_transition();
  mc_observe_int(total);
  mc_observe(want,sizeof(want));
}

static void body(void)
{
  int base=mc_choose(mc_thorough() ? 3 : 2,"keyring"),v,high;
  size_t at;
  unsigned char p[800];
  memcpy(p,whole[base],size[base]);
  if (mc_choose(2,"kind") == 0)
    {
      at=mc_choose(size[base]+1,"cut at");
      mc_note("cut at %zu\n",at);
      judge(p,at,whole[base]);
    }
  else
    {
      at=mc_choose(size[base],"changed byte");
      high=mc_choose(8,"value");
      for (v=0; v < 32; v++)
      {
        if (high*32+v == whole[base][at])
          continue;
        p[at]=high*32+v;
        mc_note("byte %zu is %d\n",at,p[at]);
        judge(p,size[base],whole[base]);
      }
    }
  mc_nontrivial();
}

static void init(void)
{
  int i;
  size_t n;
  for (i=0; i < 3; i++)
  {
    sim_reset();
    ring_path=ring_file;
    ring_import(0,1);
    if (i)
      ring_import(3,0);
    if (i == 2)
      ring_import(1,2);
    memcpy(whole[i],sim_get(ring_file,&n),n);
    size[i]=n;
  }
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C20", .name="keyring_damage",
    .rule="keyrings of one and two (three) keys cut at every byte, and with every byte changed to "
      "every other value; every look-up, a listing, a store and every look-up again",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

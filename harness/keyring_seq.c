/*
  Keyring calls against a map from identifier to key.
*/
#include "ring.h"

static unsigned char header[64];

static size_t number(unsigned char *p,size_t v,int n)
{
  int i;
  for (i=0; i < n; i++)
    p[i]=v >> 8*i;
  return(n);
}

/* a keyring as the first version wrote it: the time in the second word */
static void old_keyring(int id,int key)
{
  unsigned char b[400],*p=b;
  memcpy(p,header,64); p+=64;
  p+=number(p,0xabacadab,4);
  p+=number(p,1000000000,4);
  p+=number(p,1,2);
  p+=number(p,0,2);
  p+=number(p,ids[id].n,4);
  memcpy(p,ids[id].p,ids[id].n); p+=ids[id].n;
  p+=number(p,keys[key].n,4);
  memcpy(p,keys[key].key,keys[key].n); p+=keys[key].n;
  p+=number(p,keys[key].m,4);
  memcpy(p,keys[key].nonce,keys[key].m); p+=keys[key].m;
  sim_put(ring_file,b,p-b);
}

static void body(void)
{
  int model[IDS],i,depth=mc_thorough() ? 4 : 3,op,id,key,r,listed[IDS],others;
  sim_reset();
  for (i=0; i < IDS; i++)
    model[i]=-1;
  ring_path=ring_file="/sim/ring";
  switch (mc_choose(5,"start"))
  {
    case 1: sim_put(ring_file,"",0); break;
    case 2:
      ring_path=NULL;
      ring_file="/sim/home/keyring.xdm";
      sim_put("/sim/home/x","",0);
      break;
    case 3: old_keyring(1,0); model[1]=0; break;
    case 4:
      MC_CHECK(ring_import(3,2) && ring_import(0,1),"storing in an empty keyring failed");
      model[3]=2;
      model[0]=1;
      break;
  }
  for (i=0; i < depth; i++)
  {
    op=mc_choose(3,"call");
    if (op == 2)
      {
        mc_note("list\n");
        r=ring_list(listed,&others);
        for (id=0, key=0; id < IDS; id++)
          key+=model[id] >= 0;
        MC_CHECK(r || key == 0,"listing failed");
        MC_CHECK(others == 0,"listing shows an unknown key");
        for (id=0; id < IDS; id++)
          MC_CHECK(listed[id] == (model[id] >= 0),"identifier %d is listed %d times",id,
            listed[id]);
      }
    else
      {
        id=mc_choose(IDS,"identifier");
        if (op == 0)
          {
            key=mc_choose(KEYS,"key");
            mc_note("store %d under %d\n",key,id);
            r=ring_import(id,key);
            MC_CHECK(r == (model[id] < 0),"storing %s identifier reports %s",
              model[id] < 0 ? "a new" : "a present",r ? "success" : "failure");
            if (model[id] < 0)
              model[id]=key;
          }
        else
          {
            mc_note("look up %d\n",id);
            r=ring_export(id);
            MC_CHECK(r == model[id],"identifier %d gives key %d instead of %d",id,r,model[id]);
          }
      }
    mc_transition();
  }
  for (id=0; id < IDS; id++)
  {
    r=ring_export(id);
    MC_CHECK(r == model[id],"at the end identifier %d gives key %d instead of %d",id,r,
      model[id]);
  }
  MC_CHECK(sim_open_descriptors() == 0,"a file is left open");
  mc_nontrivial();
  mc_observe(model,sizeof(model));
}

static void init(void)
{
  size_t n;
  setenv("WIZARD_HOME","/sim/home",1);
  sim_reset();
  ring_path=ring_file;
  ring_import(0,0);
  memcpy(header,sim_get(ring_file,&n),64);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C17", .name="keyring_seq",
    .rule="every sequence of 3 (4) store, look-up and list calls over five identifiers (empty, "
      "prefixes, with zero bytes) and three keys, from five start states, then every look-up",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

/*
  Generators made from every kind of reservoir file, with failing calls and
  after a process stopped while writing it.
*/
#include "common.h"
#include "simfs.h"

#define FILE_PATH "/sim/home/reservoir.xdm"
#define KEY 40

static unsigned char whole[1000],seen[64][KEY];
static size_t size;
static int calls,made,no_entropy,faults,stopped;

static void hook(const sim_call *c,sim_answer *a)
{
  int n;
  if (++calls > 5000)
    mc_fail("creating a generator does not end");
  if (c->op == SIM_ENTROPY)
    {
      if (no_entropy)
        a->error=ENOSYS;
      return;
    }
  if (!faults || c->op == SIM_SLEEP || c->op == SIM_KILL)
    return;
  n=mc_deviate(c->op == SIM_READ || c->op == SIM_WRITE ? 5 : 2,sim_op_name[c->op]);
  if (n)
    mc_note("%s of %s: %s\n",sim_op_name[c->op],c->path,n == 1 ? "fails" : n == 2 ? "interrupted" :
      n == 3 ? "one byte" : "end of file or no space");
  switch (n)
  {
    case 1: a->error=c->op == SIM_OPEN ? EACCES : EIO; break;
    case 2: a->error=EINTR; break;
    case 3: a->limit=1; break;
    case 4:
      if (c->op == SIM_READ)
        a->limit=0;
      else
        a->error=ENOSPC;
      break;
  }
}

/* make a generator and compare its output with all earlier ones; 0: refused */
static int generator(HashType hash)
{
  RandomInfo *r;
  StringInfo *key;
  int i;
  calls=0;
  sim_hook=hook;
  r=AcquireRandomInfo(hash);
  sim_hook=NULL;
  if (!r)
    return(0);
  key=GetRandomKey(r,KEY);
  for (i=0; i < made; i++)
    MC_CHECK(memcmp(seen[i],GetStringInfoDatum(key),KEY) != 0,
      "generators %d and %d give the same output",i,made);
  memcpy(seen[made++],GetStringInfoDatum(key),KEY);
  DestroyStringInfo(key);
  DestroyRandomInfo(r);
  mc_transition();
  return(1);
}

static void fresh(void)
{
  static unsigned char noise[4096];
  size_t i;
  sim_reset();
  sim_put("/sim/home/x","",0);
  for (i=0; i < sizeof(noise); i++)
    noise[i]=i*i+(i >> 3);
  sim_put("/sim/dev/urandom",noise,sizeof(noise));
  made=faults=0;
}

static void two(void)
{
  MC_CHECK(generator(SHA2256Hash),"no generator can be made");
  MC_CHECK(generator(SHA2256Hash),"no second generator can be made");
}

static void save(void *context)
{
  RandomInfo *r=AcquireRandomInfo(SHA2256Hash);
  (void) context;
  sim_result[0]=r ? 1 : 2;
}

static void decide(int index,const sim_call *c,sim_answer *a)
{
  int kind;
  (void) index;
  if (stopped)
    return;
  kind=mc_deviate(c->op == SIM_WRITE ? 6 : 3,"stop here");
  if (kind == 0)
    return;
  mc_note("the process stops at %s of %s\n",sim_op_name[c->op],c->path);
  stopped=1;
  a->crash=1;
  a->limit=kind == 1 ? 0 : kind == 2 ? SIZE_MAX : kind == 3 ? 1 : kind == 4 ? c->size/2 :
    c->size-1;
}

static void body(void)
{
  static const HashType hashes[]={ SHA2256Hash,MD5Hash,SHA1Hash,SHA2512Hash,SHA3224Hash };
  unsigned char b[1000];
  size_t i,n;
  int kind;
  no_entropy=mc_choose(2,"source of entropy");
  mc_note("entropy %s\n",no_entropy ? "from the device" : "from the system");
  kind=mc_choose(6,"kind");
  switch (kind)
  {
    case 0:
      mc_note("no reservoir\n");
      fresh();
      for (i=0; i < 5; i++)
        MC_CHECK(generator(hashes[i]),"no generator can be made");
      fresh();
      for (i=5; i-- > 0; )
        MC_CHECK(generator(hashes[i]),"no generator can be made");
      break;
    case 1:
      for (n=0; n < size; n++)
      {
        mc_note("cut to %zu bytes\n",n);
        fresh();
        sim_put(FILE_PATH,whole,n);
        two();
      }
      break;
    case 2:
    {
      size_t from=mc_choose(size,"byte");
      for (i=0; i < (mc_thorough() ? 255 : 10); i++)
      {
        memcpy(b,whole,size);
        b[from]=mc_thorough() ? b[from]^(i+1) : i < 8 ? b[from]^1 << i : i == 8 ? 0 : 255;
        mc_note("byte %zu is %d\n",from,b[from]);
        fresh();
        sim_put(FILE_PATH,b,size);
        two();
      }
      break;
    }
    case 3:
    {
      /* a valid reservoir of every length, and trailing bytes */
      static const int lengths[]={ 0,1,63,64,65,300 };
      StringInfo *s;
      WizardSizeType crc;
      int k;
      for (k=0; k < 6; k++)
      {
        s=AcquireStringInfo(lengths[k]);
        for (i=0; i < (size_t) lengths[k]; i++)
          GetStringInfoDatum(s)[i]=i;
        crc=GetStringInfoCRC(s);
        memcpy(b,whole,size);
        n=size-32-8-4;
        for (i=0; i < 4; i++)
          b[n++]=lengths[k] >> 8*i;
        memcpy(b+n,GetStringInfoDatum(s),lengths[k]);
        n+=lengths[k];
        for (i=0; i < 8; i++)
          b[n++]=crc >> 8*i;
        DestroyStringInfo(s);
        mc_note("reservoir of %d bytes\n",lengths[k]);
        fresh();
        sim_put(FILE_PATH,b,n);
        two();
        b[n++]=7;
        fresh();
        sim_put(FILE_PATH,b,n);
        two();
      }
      break;
    }
    case 4:
      fresh();
      if (mc_choose(2,"reservoir"))
        sim_put(FILE_PATH,whole,size);
      mc_budget(mc_thorough() ? 2 : 1);
      faults=1;
      (void) generator(SHA2256Hash);
      if (mc_deviations())
        mc_count(0,1);
      faults=0;
      two();
      MC_CHECK(sim_open_descriptors() == 0,"a file was left open");
      break;
    default:
      fresh();
      if (mc_choose(2,"reservoir"))
        sim_put(FILE_PATH,whole,size);
      mc_budget(1);
      stopped=0;
      sim_run(save,NULL,100,decide,2000,"making a generator");
      if (stopped)
        mc_count(1,1);
      two();
      break;
  }
  mc_observe_int(kind);
  mc_nontrivial();
}

static void init(void)
{
  const unsigned char *p;
  mc_counter_name(0,"generators made with a failing call");
  mc_counter_name(1,"processes stopped");
  setenv("WIZARD_HOME","/sim/home",1);
  fresh();
  sim_announce_entropy=1;
  if (!generator(SHA2256Hash))
    abort();
  p=sim_get(FILE_PATH,&size);
  if (!p || size > sizeof(whole)-400)
    abort();
  memcpy(whole,p,size);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C16", .name="reservoir",
    .rule="no reservoir, every truncation, every byte changed (10 values, thorough: all), every "
      "length, every failing or short call (thorough: pairs), every point where a process can stop; "
      "with and without the system's entropy call",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

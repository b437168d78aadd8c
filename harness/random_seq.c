/*
  Output of generators under a controlled entropy source.
*/
#include "common.h"
#include "wizard/random_.h"
#include "wizard/hmac.h"
#include "simfs.h"

int seam_mkdir(const char *,mode_t);

static const HashType hashes[]={ SHA2256Hash,CRC64Hash,MD5Hash,SHA1Hash,SHA2Hash,SHA2224Hash,SHA2384Hash,
  SHA2512Hash,SHA3Hash,SHA3224Hash,SHA3256Hash,SHA3384Hash,SHA3512Hash };
#define HASHES ((int) (sizeof(hashes)/sizeof(*hashes)))
#define LONG 700

/* digests handed to the generator, when set */
static unsigned char forced[64][8];
static int forcing;
static StringInfo *digest;

const StringInfo *__real_GetHMACDigest(const HMACInfo *);

const StringInfo *__wrap_GetHMACDigest(const HMACInfo *h)
{
  size_t i,n;
  if (!forcing)
    return(__real_GetHMACDigest(h));
  n=GetStringInfoLength(__real_GetHMACDigest(h));
  if (digest == NULL)
    digest=AcquireStringInfo(64);
  SetStringInfoLength(digest,n);
  for (i=0; i < n; i++)
    GetStringInfoDatum(digest)[i]=forced[(i/8) % 64][i & 7];
  return(digest);
}

static void fresh(int entropy)
{
  sim_hook=NULL;
  sim_reset();
  seam_mkdir("/sim/home",0700);
  setenv("WIZARD_HOME","/sim/home",1);
  setenv("HOME","/sim/home",1);
  /* so many generators were made before */
  while (entropy-- > 0)
  {
    unsigned char c[8];
    extern int seam_getentropy(void *,size_t);
    seam_getentropy(c,8);
  }
}

static RandomInfo *generator(HashType hash,int entropy)
{
  RandomInfo *r;
  fresh(entropy);
  r=AcquireRandomInfo(hash);
  MC_CHECK(r != NULL,"no generator");
  return(r);
}

static unsigned char stream[2][HASHES][LONG];
static int known[2][HASHES],block[HASHES];

/* the stream as one request gives it */
static const unsigned char *whole(int h)
{
  RandomInfo *r;
  int i,j;
  unsigned char *s=stream[0][h];
  if (known[0][h])
    return(s);
  r=generator(hashes[h],0);
  SetRandomKey(r,LONG,s);
  r=DestroyRandomInfo(r);
  for (i=0; i+8 <= LONG; i++)
    for (j=0; j < i; j++)
      MC_CHECK(memcmp(s+i,s+j,8) != 0,"bytes %d to %d are handed out again at %d",j,j+7,i);
  known[0][h]=1;
  return(s);
}

static double as_value(const unsigned char *p)
{
  unsigned long key;
  memcpy(&key,p,sizeof(key));
  return((double) key/18446744073709551616.0);
}

/* one request; returns the bytes it took from the stream */
static int request(RandomInfo *r,int op,int d,const unsigned char *s,int at)
{
  int sizes[]={ 1,0,7,8,d-1,d,d+1,2*d,2*d+3,33 };
  unsigned char *p;
  StringInfo *key;
  double v;
  int n;
  mc_transition();
  if (op == 10)
    {
      mc_note("value\n");
      v=GetRandomValue(r);
      MC_CHECK((v >= 0.0) && (v < 1.0),"value %.17g is not in [0,1)",v);
      MC_CHECK(fabs(v-as_value(s+at)) < 1e-9,"value %.17g instead of %.17g",v,as_value(s+at));
      return(8);
    }
  if (op == 11)
    {
      mc_note("pseudo-random value\n");
      v=GetPseudoRandomValue(r);
      MC_CHECK((v >= 0.0) && (v < 1.0),"value %.17g is not in [0,1)",v);
      return(0);
    }
  n=sizes[op];
  mc_note("%d bytes\n",n);
  if (op & 1)
    {
      key=GetRandomKey(r,n);
      MC_CHECK((int) GetStringInfoLength(key) == n,"%d bytes asked for, %d given",n,
        (int) GetStringInfoLength(key));
      MC_CHECK(memcmp(GetStringInfoDatum(key),s+at,n) == 0,
        "a request for %d bytes after %d does not continue the stream",n,at);
      key=DestroyStringInfo(key);
      return(n);
    }
  p=malloc(n ? n : 1);
  *p=0x5a;
  SetRandomKey(r,n,p);
  if (n)
    MC_CHECK(memcmp(p,s+at,n) == 0,"a request for %d bytes after %d does not continue the stream",n,at);
  else
    MC_CHECK(*p == 0x5a,"a request for no bytes wrote some");
  free(p);
  return(n);
}

static void sizes(void)
{
  int h=mc_choose(HASHES,"hash"),depth=mc_thorough() ? 5 : 4,i,at=0;
  const unsigned char *s=whole(h);
  RandomInfo *r=generator(hashes[h],0);
  StringInfo *key;
  int d=block[h];
  mc_note("hash %d of %d bytes\n",h,d);
  for (i=0; i < depth; i++)
    at+=request(r,mc_choose(12,"request"),d,s,at);
  /* and on */
  key=GetRandomKey(r,20);
  MC_CHECK(memcmp(GetStringInfoDatum(key),s+at,20) == 0,"the stream does not go on after %d bytes",at);
  key=DestroyStringInfo(key);
  r=DestroyRandomInfo(r);
  mc_observe_int(h*1000+at);
  mc_nontrivial();
}

/* the stream of a second generator */
static const unsigned char *second(int h)
{
  RandomInfo *a,*b;
  const unsigned char *s=whole(h);
  unsigned char *t=stream[1][h];
  int i,k;
  if (known[1][h])
    return(t);
  a=generator(hashes[h],0);
  b=AcquireRandomInfo(hashes[h]);
  MC_CHECK(b != NULL,"no second generator");
  SetRandomKey(b,LONG,t);
  a=DestroyRandomInfo(a);
  b=DestroyRandomInfo(b);
  for (i=0; i+8 <= LONG; i++)
    for (k=0; k+8 <= LONG; k++)
      MC_CHECK(memcmp(s+i,t+k,8) != 0,"two generators hand out the same bytes");
  known[1][h]=1;
  return(t);
}

/* two generators that live at the same time */
static void two(void)
{
  int h=mc_choose(HASHES,"hash"),depth=mc_thorough() ? 5 : 4,i,k,at[2]={ 0,0 };
  static const int ops[]={ 0,5,8,10 };
  const unsigned char *s[2];
  RandomInfo *r[2];
  s[0]=whole(h);
  s[1]=second(h);
  r[0]=generator(hashes[h],0);
  r[1]=AcquireRandomInfo(hashes[h]);
  MC_CHECK(r[1] != NULL,"no second generator");
  for (i=0; i < depth; i++)
  {
    k=mc_choose(2,"generator");
    mc_note("generator %d: ",k);
    at[k]+=request(r[k],ops[mc_choose(4,"request")],block[h],s[k],at[k]);
  }
  for (k=0; k < 2; k++)
    r[k]=DestroyRandomInfo(r[k]);
  mc_observe_int(at[0]*1000+at[1]);
  mc_nontrivial();
}

/* values at the ends of the range */
static void ends(void)
{
  static const unsigned char top[]={ 0xff,0xfe,0x00 },low[]={ 0xff,0xfe,0x00,0x01,0x7f,0x80,0xfc,0xfb,0xf8,0xf7 };
  unsigned char word[2][8];
  RandomInfo *r;
  double v;
  int i,w;
  for (w=0; w < 2; w++)
  {
    memset(word[w],mc_choose(2,"body") ? 0x00 : 0xff,8);
    word[w][7]=top[mc_choose(3,"top byte")];
    word[w][0]=low[mc_choose(10,"lowest byte")];
    word[w][1]=low[mc_thorough() || (w == 0) ? mc_choose(10,"second byte") : 6*mc_choose(2,"second byte")];
  }
  for (i=0; i < 64; i++)
    memcpy(forced[i],word[i & 1],8);
  /* the next output is one of these words, in turn */
  r=generator(SHA2256Hash,0);
  forcing=1;
  for (i=0; i < 4; i++)
    if (memcmp(word[i & 1],"\377\377\377\377\377\377\377\377",8) != 0 ||
        memcmp(word[0],word[1],8) != 0)
      {
        v=GetRandomValue(r);
        MC_CHECK((v >= 0.0) && (v < 1.0),"value %.17g is not in [0,1)",v);
        mc_observe(&v,sizeof(v));
      }
  forcing=0;
  r=DestroyRandomInfo(r);
  /* a generator seeded with these words */
  memcpy(forced[0],word[0],8);
  memcpy(forced[3],word[1],8);
  fresh(0);
  forcing=1;
  r=AcquireRandomInfo(SHA2256Hash);
  forcing=0;
  MC_CHECK(r != NULL,"no generator");
  for (i=0; i < 6; i++)
  {
    v=GetPseudoRandomValue(r);
    MC_CHECK((v >= 0.0) && (v < 1.0),"pseudo-random value %.17g is not in [0,1)",v);
    mc_observe(&v,sizeof(v));
  }
  r=DestroyRandomInfo(r);
  mc_nontrivial();
}

/* generators with a secret key repeat themselves, others do not */
static void secret(void)
{
  static const unsigned long keys[]={ ~0UL,0,1,12345,~0UL-1 };
  int a=mc_choose(5,"key"),b=mc_choose(5,"key"),h=mc_choose(HASHES,"hash"),i,same=1;
  double x[4],y[4];
  RandomInfo *r;
  SetRandomSecretKey(keys[a]);
  r=generator(hashes[h],0);
  MC_CHECK(GetRandomSecretKey(r) == keys[a],"wrong secret key");
  for (i=0; i < 4; i++)
    x[i]=GetPseudoRandomValue(r);
  r=DestroyRandomInfo(r);
  SetRandomSecretKey(keys[b]);
  r=generator(hashes[h],7);
  for (i=0; i < 4; i++)
    y[i]=GetPseudoRandomValue(r);
  r=DestroyRandomInfo(r);
  SetRandomSecretKey(~0UL);
  for (i=0; i < 4; i++)
    if (x[i] != y[i])
      same=0;
  MC_CHECK(same == ((a == b) && (a != 0)),"generators with secret keys %lu and %lu give %s values",keys[a],
    keys[b],same ? "the same" : "different");
  mc_observe(x,sizeof(x));
  mc_nontrivial();
}

static void body(void)
{
  switch (mc_choose(4,"part"))
  {
    case 0: sizes(); break;
    case 1: two(); break;
    case 2: ends(); break;
    case 3: secret(); break;
  }
}

static void init(void)
{
  int i;
  WizardsToolkitGenesis("random_seq");
  for (i=0; i < HASHES; i++)
  {
    HMACInfo *h=AcquireHMACInfo(hashes[i]);
    block[i]=(int) GetHMACDigestsize(h);
    h=DestroyHMACInfo(h);
  }
}

int main(int argc,char **argv)
{
  static mc_harness h={ .property="C15", .name="random_seq",
    .rule="requests of any size continue one stream, generators differ, values lie in [0,1)",
    .init=init, .body=body, .time_cap=420 };
  return(mc_main(argc,argv,&h));
}

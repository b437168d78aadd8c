/*
  Messages whose bit count passes a 32-bit word, in one and in many updates.
*/
#include "common.h"
#include "ref.h"

static const struct { HashType type; int ref; } kind[]=
{
  { MD5Hash,REF_MD5 },{ SHA1Hash,REF_SHA1 },{ SHA2224Hash,REF_SHA224 },
  { SHA2256Hash,REF_SHA256 },{ SHA2384Hash,REF_SHA384 },
  { SHA2512Hash,REF_SHA512 }
};

#define CHUNK (1u<<20)

static unsigned char *text;

static void body(void)
{
  static const size_t sizes[]={ (1ull<<29)+5,(1ull<<29)-1,(1ull<<30)+77 };
  int k=mc_choose(6,"hash"),pieces,i;
  size_t n,left,step;
  unsigned char want[64];
  StringInfo *s;
  HashInfo *h=AcquireHashInfo(kind[k].type);
  ref_stream *r=ref_begin(kind[k].ref);
  n=sizes[mc_choose(mc_thorough() ? 3 : 1,"length")];
  pieces=mc_choose(mc_thorough() ? 3 : 1,"piece size");
  step=pieces == 0 ? CHUNK : pieces == 1 ? 65537 : 3*CHUNK/2+1;
  mc_note("%s of %lu bytes in pieces of %lu\n",ref_hash_name[kind[k].ref],
    (unsigned long) n,(unsigned long) step);
  s=AcquireStringInfo(step);
  memcpy(GetStringInfoDatum(s),text,step);
  InitializeHash(h);
  for (left=n; left > 0; left-=step)
  {
    if (left < step)
      {
        step=left;
        SetStringInfoLength(s,step);
      }
    UpdateHash(h,s);
    ref_add(r,text,step);
    mc_transition();
  }
  FinalizeHash(h);
  ref_end(r,want);
  MC_CHECK(memcmp(GetStringInfoDatum(GetHashDigest(h)),want,
    ref_digest[kind[k].ref]) == 0,"wrong %s digest of %lu bytes",
    ref_hash_name[kind[k].ref],(unsigned long) n);
  DestroyStringInfo(s);
  DestroyHashInfo(h);
  mc_nontrivial();
  mc_observe_int(k*100+(int) (n>>24));
}

static void init(void)
{
  text=malloc(2*CHUNK);
  fill(text,2*CHUNK,7);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C10", .name="hash_long",
    .rule="messages around 2^29 and 2^30 bytes for the six hashes that keep a bit "
      "count, in up to three piece sizes",
    .init=init, .body=body, .watchdog=120
  };
  return(mc_main(argc,argv,&h));
}

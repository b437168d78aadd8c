/*
  Keyed hashes for every key length, message length and split, with history.
*/
#include "common.h"
#include "ref.h"

static const struct { HashType type; int ref,block; } kind[]=
{
  { CRC64Hash,REF_CRC64 },{ MD5Hash,REF_MD5 },{ SHA1Hash,REF_SHA1 },
  { SHA2Hash,REF_SHA256 },{ SHA2224Hash,REF_SHA224 },{ SHA2256Hash,REF_SHA256 },
  { SHA2384Hash,REF_SHA384 },{ SHA2512Hash,REF_SHA512 },{ SHA3Hash,REF_SHA3 },
  { SHA3224Hash,REF_SHA3_224 },{ SHA3256Hash,REF_SHA3_256 },
  { SHA3384Hash,REF_SHA3_384 },{ SHA3512Hash,REF_SHA3_512 }
};
#define KINDS ((int) (sizeof(kind)/sizeof(kind[0])))

static unsigned char text[1024],keys[1024];
static int block[KINDS];
static HMACInfo *shared[KINDS];

static void begin(HMACInfo *h,int n)
{
  StringInfo *key=sealed(keys,n);
  InitializeHMAC(h,key);
  MC_CHECK((int) GetStringInfoLength(key) == n &&
    memcmp(GetStringInfoDatum(key),keys,n) == 0,"the key was changed");
  unseal(key);
  mc_transition();
}

static void feed(HMACInfo *h,int at,int n)
{
  StringInfo *s=sealed(text+at,n);
  UpdateHMAC(h,s);
  unseal(s);
  mc_transition();
}

static void finish(HMACInfo *h,int k,int key_length,int n,const char *what)
{
  unsigned char want[64];
  FinalizeHMAC(h);
  ref_hmac(kind[k].ref,block[k],keys,key_length,text,n,want);
  MC_CHECK((int) GetHMACDigestsize(h) == ref_digest[kind[k].ref] &&
    (int) GetStringInfoLength(GetHMACDigest(h)) == ref_digest[kind[k].ref],
    "the code has the wrong size");
  MC_CHECK(memcmp(GetStringInfoDatum(GetHMACDigest(h)),want,
    ref_digest[kind[k].ref]) == 0,"wrong code with %s, key of %d, message of %d: "
    "%s",ref_hash_name[kind[k].ref],key_length,n,what);
  mc_nontrivial();
}

static void lengths(void)
{
  int k=mc_choose(KINDS,"hash"),key_length,n,i,b=block[k];
  HMACInfo *h=shared[k];
  StringInfo *key,*s;
  key_length=mc_choose(2*b+3,"key length");
  n=mc_choose(mc_thorough() ? 2*b+3 : 5,"message length");
  if (!mc_thorough())
    n=(int []) { 0,1,b-1,b,b+9 }[n];
  switch (mc_choose(4,"split"))
  {
    case 0: i=0; break;
    case 1: i=n > 0 ? 1 : 0; break;
    case 2: i=n/2; break;
    default: i=-1; break;
  }
  mc_note("%s, key of %d, message of %d, split %d\n",ref_hash_name[kind[k].ref],
    key_length,n,i);
  if (i < 0)
    {
      key=sealed(keys,key_length);
      s=sealed(text,n);
      ConstructHMAC(h,key,s);
      unseal(key);
      unseal(s);
      /* only the result is left to compare */
      {
        unsigned char want[64];
        ref_hmac(kind[k].ref,b,keys,key_length,text,n,want);
        MC_CHECK(memcmp(GetStringInfoDatum(GetHMACDigest(h)),want,
          ref_digest[kind[k].ref]) == 0,"wrong code in one call with %s, key of "
          "%d, message of %d",ref_hash_name[kind[k].ref],key_length,n);
      }
    }
  else
    {
      begin(h,key_length);
      feed(h,0,i);
      feed(h,i,n-i);
      finish(h,k,key_length,n,"split message");
    }
  mc_observe_int((k*400+key_length)*400+n);
}

/* one object: key, reset, update, finish in any order that makes sense */
static void histories(void)
{
  int k=mc_choose(KINDS,"hash"),b=block[k],depth=mc_thorough() ? 7 : 6,i,c,
    key_length=0,at=0,open=0,keyed=0,n;
  HMACInfo *h=AcquireHMACInfo(kind[k].type);
  for (i=0; i < depth; i++)
  {
    c=!keyed ? mc_choose(2,"call") : open ? mc_choose(7,"call") :
      mc_choose(3,"call");
    switch (c)
    {
      case 0: key_length=b+7; begin(h,key_length); at=0; open=keyed=1; break;
      case 1: key_length=5; begin(h,key_length); at=0; open=keyed=1; break;
      case 2: ResetHMAC(h); at=0; open=1; break;
      case 6: finish(h,k,key_length,at,"after a history"); open=0; break;
      default:
        n=c == 3 ? 1 : c == 4 ? b : b+b/2;
        feed(h,at,n);
        at+=n;
        break;
    }
    mc_note("call %d, key of %d, %d bytes so far\n",c,key_length,at);
  }
  if (open)
    finish(h,k,key_length,at,"at the end");
  mc_observe_int((k*2+(key_length == 5))*2000+at);
  DestroyHMACInfo(h);
}

static void body(void)
{
  if (mc_choose(2,"lengths or histories") == 0)
    lengths();
  else
    histories();
}

static void init(void)
{
  HashInfo *h;
  int k;
  fill(text,sizeof(text),2);
  fill(keys,sizeof(keys),3);
  for (k=0; k < KINDS; k++)
  {
    h=AcquireHashInfo(kind[k].type);
    block[k]=(int) GetHashBlocksize(h);
    DestroyHashInfo(h);
    shared[k]=AcquireHMACInfo(kind[k].type);
  }
  /* block sizes the standard fixes */
  if (block[1] != 64 || block[2] != 64 || block[4] != 64 || block[5] != 64 ||
      block[6] != 128 || block[7] != 128)
    mc_fail("a hash reports a block size that is not its own");
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C11", .name="hmac_seq",
    .rule="every key length up to two blocks and two bytes with five message lengths "
      "(thorough: all up to two blocks) and four splits for 13 hashes, and every "
      "history of 6 (7) calls on one object; distinct by hash, key and message "
      "length",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

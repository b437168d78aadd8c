/*
  Every message length and split, and histories of two hash objects.
*/
#include "common.h"
#include "ref.h"
#include "wizard/signature.h"
#include "wizard/magick.h"

static const struct { HashType type; int ref; } kind[]=
{
  { CRC64Hash,REF_CRC64 },{ MD5Hash,REF_MD5 },{ SHA1Hash,REF_SHA1 },
  { SHA2Hash,REF_SHA256 },{ SHA2224Hash,REF_SHA224 },{ SHA2256Hash,REF_SHA256 },
  { SHA2384Hash,REF_SHA384 },{ SHA2512Hash,REF_SHA512 },{ SHA3Hash,REF_SHA3 },
  { SHA3224Hash,REF_SHA3_224 },{ SHA3256Hash,REF_SHA3_256 },
  { SHA3384Hash,REF_SHA3_384 },{ SHA3512Hash,REF_SHA3_512 }
};
#define KINDS ((int) (sizeof(kind)/sizeof(kind[0])))

static unsigned char text[1024];
static unsigned char known[KINDS][400][64];
static HashInfo *shared[KINDS];

static void feed(HashInfo *h,const unsigned char *p,size_t n)
{
  StringInfo *s=sealed(p,n);
  MC_CHECK(UpdateHash(h,s) == WizardTrue,"update failed");
  MC_CHECK(GetStringInfoLength(s) == n && memcmp(GetStringInfoDatum(s),p,n) == 0,
    "update changed its input");
  unseal(s);
  mc_transition();
}

static void digest(HashInfo *h,int k,const unsigned char *want,const char *what)
{
  const StringInfo *d=GetHashDigest(h);
  char *hex,buffer[160];
  int i,n=ref_digest[kind[k].ref];
  MC_CHECK((int) GetHashDigestsize(h) == n && (int) GetStringInfoLength(d) == n,
    "the digest has %d bytes instead of %d",(int) GetStringInfoLength(d),n);
  MC_CHECK(memcmp(GetStringInfoDatum(d),want,n) == 0,"wrong %s digest: %s",
    ref_hash_name[kind[k].ref],what);
  hex=GetHashHexDigest(h);
  for (i=0; i < n; i++)
    sprintf(buffer+2*i,"%02x",want[i]);
  MC_CHECK(strcmp(hex,buffer) == 0,"wrong hexadecimal digest");
  hex=DestroyString(hex);
}

static void splits(void)
{
  int k=mc_choose(KINDS,"hash"),r=kind[k].ref,block=ref_block[r],limit,n,i,j;
  HashInfo *h;
  limit=2*(block < 16 ? 16 : block)+17;
  n=mc_choose(limit+1,"length");
  i=mc_choose(n+1,"first split");
  if (mc_thorough())
    j=i+mc_choose(n-i+1,"second split");
  else
    switch (mc_choose(4,"second split"))
    {
      case 0: j=n; break;
      case 1: j=i+1; break;
      case 2: j=i+block; break;
      default: j=(i/block+1)*block; break;
    }
  if (j > n)
    j=n;
  mc_note("%s of %d bytes in pieces %d, %d, %d\n",ref_hash_name[r],n,i,j-i,n-j);
  /* the object has a history; a new one is used for whole messages */
  h=(i == n) ? AcquireHashInfo(kind[k].type) : shared[k];
  MC_CHECK(InitializeHash(h) == WizardTrue,"initialise failed");
  feed(h,text,i);
  feed(h,text+i,j-i);
  feed(h,text+j,n-j);
  MC_CHECK(FinalizeHash(h) == WizardTrue,"finalise failed");
  digest(h,k,known[k][n],"split message");
  if (h != shared[k])
    DestroyHashInfo(h);
  mc_nontrivial();
  mc_observe_int(k*1000+n);
}

/* the digest that needs no memory of its own, and the mark derived from one */
static void plain(void)
{
  int n=mc_choose(2*64+17+1,"length"),i=mc_choose(n+1,"first split"),j,k;
  unsigned char digest[32],*copy;
  StringInfo *magick;
  SignatureInfo info;
  for (j=i; j <= n; j++)
  {
    GetSignatureInfo(&info);
    copy=malloc(n+!n);
    memcpy(copy,text,n);
    UpdateSignature(&info,copy,i);
    UpdateSignature(&info,copy+i,j-i);
    UpdateSignature(&info,copy+j,n-j);
    free(copy);
    FinalizeSignature(&info);
    for (k=0; k < 32; k++)
      digest[k]=info.digest[k/4] >> (24-8*(k % 4));
    MC_CHECK(memcmp(digest,known[5][n],32) == 0,"wrong signature of %d bytes in pieces %d, %d, %d",n,i,j-i,
      n-j);
    mc_transition();
  }
  magick=GetWizardMagick(text,n);
  MC_CHECK(GetStringInfoLength(magick) == 32 && memcmp(GetStringInfoDatum(magick),known[5][n],32) == 0,
    "wrong mark of %d bytes",n);
  DestroyStringInfo(magick);
  mc_nontrivial();
  mc_observe_int(-n);
}

static void histories(void)
{
  static const int size[]={ 1,0,-1,2 };  /* 1, block, block-1, 2*block+1 */
  int k[2],i,o,depth=mc_thorough() ? 6 : 5,at[2]={ 0,0 },open[2]={ 0,0 },
    done[2]={ -1,-1 },n,c;
  HashInfo *h[2];
  unsigned char want[2][64];
  k[0]=mc_choose(KINDS,"first hash");
  k[1]=(k[0]+mc_choose(2,"second hash"))%KINDS;
  for (i=0; i < 2; i++)
    h[i]=AcquireHashInfo(kind[k[i]].type);
  for (i=0; i < depth; i++)
  {
    o=mc_choose(2,"object");
    /* begin, four sizes of update, finish */
    c=open[o] ? mc_choose(6,"call") : 0;
    if (c == 0)
      {
        MC_CHECK(InitializeHash(h[o]) == WizardTrue,"initialise failed");
        at[o]=0;
        open[o]=1;
      }
    else if (c < 5)
      {
        n=size[c-1] == 1 ? 1 : size[c-1] == 2 ? 2*ref_block[kind[k[o]].ref]+1 :
          ref_block[kind[k[o]].ref]+size[c-1];
        if (at[o]+n > (int) sizeof(text))
          mc_skip();
        feed(h[o],text+at[o],n);
        at[o]+=n;
      }
    else
      {
        MC_CHECK(FinalizeHash(h[o]) == WizardTrue,"finalise failed");
        ref_hash(kind[k[o]].ref,text,at[o],want[o]);
        done[o]=at[o];
        open[o]=0;
        mc_nontrivial();
      }
    mc_note("%s %d: %s, %d bytes\n",ref_hash_name[kind[k[o]].ref],o,c == 0 ?
      "begin" : c < 5 ? "update" : "finish",at[o]);
    for (c=0; c < 2; c++)
      if (done[c] >= 0)
        digest(h[c],k[c],want[c],"after a history");
  }
  /* whatever was begun can still be finished */
  for (o=0; o < 2; o++)
  {
    if (open[o])
      {
        FinalizeHash(h[o]);
        ref_hash(kind[k[o]].ref,text,at[o],want[o]);
        digest(h[o],k[o],want[o],"at the end");
      }
    mc_observe_int(k[o]*10000+at[o]);
    DestroyHashInfo(h[o]);
  }
}

static void body(void)
{
  switch (mc_choose(3,"part"))
  {
    case 0: splits(); break;
    case 1: histories(); break;
    default: plain(); break;
  }
}

static void init(void)
{
  int k,n;
  fill(text,sizeof(text),1);
  for (k=0; k < KINDS; k++)
  {
    shared[k]=AcquireHashInfo(kind[k].type);
    for (n=0; n < 400; n++)
      ref_hash(kind[k].ref,text,n,known[k][n]);
  }
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C10", .name="hash_seq",
    .rule="every message length up to two blocks and 17 bytes in every three-part "
      "split (quick: four choices of the second split) for 13 hashes, and every "
      "history of 5 (6) calls on two hash objects, every three-part split of a signature; distinct by hash and length, "
      "or by what each object hashed",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

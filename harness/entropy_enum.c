/*
  Compressing and restoring: every coder, level, length and pattern, and
  objects that are used again.
*/
#include "common.h"

/* the coders allocate megabytes for each message */
const char *__asan_default_options(void)
{
  return("quarantine_size_mb=1:thread_local_quarantine_size_kb=64:"
    "allocator_release_to_os_interval_ms=-1");
}

static const EntropyType coders[]={ ZIPEntropy,BZIPEntropy,LZMAEntropy };
static const char *const names[]={ "zip","bzip","lzma" };

static void paint(unsigned char *p,size_t n,int pattern)
{
  size_t i;
  uint64_t x=12345+n;
  for (i=0; i < n; i++)
    switch (pattern)
    {
      case 0: p[i]=0; break;
      case 1: p[i]=255; break;
      case 2: p[i]=i; break;
      case 3: p[i]="the quick brown fox "[i%20]; break;
      case 4: p[i]=i%7 == 0 ? i >> 3 : 'a'; break;
      default:
        x=x*6364136223846793005ULL+1442695040888963407ULL;
        p[i]=x >> 56;
        break;
    }
}

static StringInfo *message(size_t n,int pattern)
{
  StringInfo *s=AcquireStringInfo(n);
  paint(GetStringInfoDatum(s),n,pattern);
  return(s);
}

/* compress and restore once with this object */
static void round_trip(EntropyInfo *e,size_t n,int pattern,int other,int level)
{
  ExceptionInfo *exception=AcquireExceptionInfo();
  StringInfo *text=message(n,pattern),*before=CloneStringInfo(text),*packed,*exact;
  EntropyInfo *restorer=e;
  MC_CHECK(IncreaseEntropy(e,text,exception),"compressing %zu bytes of pattern %d fails",n,pattern);
  MC_CHECK(CompareStringInfo(text,before) == 0,"compressing changed the message");
  packed=CloneStringInfo(GetEntropyChaos(e));
  /* an exact copy, so that reading past its end shows */
  exact=AcquireStringInfo(0);
  SetStringInfoLength(exact,GetStringInfoLength(packed));
  memcpy(GetStringInfoDatum(exact),GetStringInfoDatum(packed),GetStringInfoLength(packed));
  if (other >= 0)
    restorer=AcquireEntropyInfo(coders[other],level);
  MC_CHECK(RestoreEntropy(restorer,n,exact,exception),
    "restoring %zu bytes of pattern %d fails",n,pattern);
  MC_CHECK(CompareStringInfo(exact,packed) == 0,"restoring changed the compressed message");
  MC_CHECK(CompareStringInfo(GetEntropyChaos(restorer),text) == 0,
    "%zu bytes of pattern %d are restored as %zu bytes%s",n,pattern,
    GetStringInfoLength(GetEntropyChaos(restorer)),
    GetStringInfoLength(GetEntropyChaos(restorer)) == n ? " with other content" : "");
  MC_CHECK(GetExceptionSeverity(exception) == UndefinedException,"success comes with an exception");
  mc_transition();
  mc_observe(GetStringInfoDatum(packed),GetStringInfoLength(packed));
  if (restorer != e)
    DestroyEntropyInfo(restorer);
  DestroyStringInfo(text);
  DestroyStringInfo(before);
  DestroyStringInfo(packed);
  DestroyStringInfo(exact);
  DestroyExceptionInfo(exception);
}

static void body(void)
{
  static const int sizes[]={ 0,1,2,3,7,8,15,16,17,31,32,63,64,65,99,100,127,128,255,256,257,511,512,
    1023,1024,1025,4095,4096,4097,8191,8192,8193,16383,16384,32767,32768,32769,65534,65535,65536,
    65537,99999,100000,131072,131073,200000,900000,900001,1048577 };
  int coder=mc_choose(3,"coder"),level=mc_choose(10,"level"),history=mc_choose(2,"kind"),i,k,top;
  EntropyInfo *e;
  if (coder == 1 && level == 0)
    level=1;
  if (coder == 2 && level > (mc_thorough() ? 9 : 6))
    mc_skip();
  mc_note("%s level %d\n",names[coder],level);
  e=AcquireEntropyInfo(coders[coder],level);
  if (!history)
    {
      int pattern=mc_choose(6,"pattern");
      top=mc_thorough() ? 49 : coder == 2 ? 32 : 45;
      for (i=0; i < top; i++)
        round_trip(e,sizes[i],pattern,i & 1 ? coder : -1,level);
      for (i=0; i < (coder == 2 ? 100 : mc_thorough() ? 1200 : 300); i++)
        if (coder != 2 || level < 2 || mc_thorough())
          round_trip(e,i,pattern,-1,level);
    }
  else
    {
      /* one object, used again: lengths grow and shrink */
      static const int some[]={ 0,1,100,5000,70000 };
      if (coder == 2 && level > 1 && !mc_thorough())
        mc_skip();
      for (i=0; i < (mc_thorough() ? 4 : 3); i++)
      {
        k=mc_choose(5,"length");
        mc_note("%d bytes\n",some[k]);
        round_trip(e,some[k],i+2,-1,level);
      }
    }
  DestroyEntropyInfo(e);
  mc_nontrivial();
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C25", .name="entropy_enum",
    .rule="3 coders x levels x 6 patterns x every length to 300 and lengths around buffer borders to "
      "100000 (thorough: 1048577), restored by the same and another object; every history of 3 "
      "inputs on one object",
    .body=body, .watchdog=60
  };
  return(mc_main(argc,argv,&h));
}

/*
  Restoring compressed messages that were cut, changed or extended.
*/
#include "common.h"

/* the coders allocate megabytes for each message */
const char *__asan_default_options(void)
{
  return("quarantine_size_mb=1:thread_local_quarantine_size_kb=64:"
    "allocator_release_to_os_interval_ms=-1");
}

static const EntropyType coders[]={ ZIPEntropy,BZIPEntropy,LZMAEntropy };
static const char *const names[]={ "zip","bzip","lzma" };
static const int sizes[]={ 0,1,3,40,300,2000 };
static StringInfo *text[6],*packed[3][6];
static EntropyInfo *object[3];

static void attempt(int coder,int k,const unsigned char *p,size_t n,size_t length,const char *what)
{
  ExceptionInfo *exception=AcquireExceptionInfo();
  StringInfo *s=AcquireStringInfo(0);
  const StringInfo *c;
  int status;
  SetStringInfoLength(s,n);
  memcpy(GetStringInfoDatum(s),p,n);
  status=RestoreEntropy(object[coder],length,s,exception);
  mc_transition();
  c=GetEntropyChaos(object[coder]);
  if (status)
    {
      MC_CHECK(CompareStringInfo(c,text[k]) == 0,
        "%s, message of %d bytes %s (original length %zu): success with %zu bytes",names[coder],
        sizes[k],what,length,GetStringInfoLength(c));
      mc_count(0,1);
    }
  else
    mc_count(1,1);
  DestroyStringInfo(s);
  DestroyExceptionInfo(exception);
  /* the object still works */
  if (mc_thorough() || n%16 == 0)
    {
      exception=AcquireExceptionInfo();
      MC_CHECK(RestoreEntropy(object[coder],sizes[k],packed[coder][k],exception) &&
        CompareStringInfo(GetEntropyChaos(object[coder]),text[k]) == 0,
        "after a damaged message the whole one cannot be restored");
      DestroyExceptionInfo(exception);
    }
}

static void body(void)
{
  int coder=mc_choose(3,"coder"),k=mc_choose(6,"message"),kind=mc_choose(4,"damage"),i;
  size_t n=GetStringInfoLength(packed[coder][k]),j;
  unsigned char *p=malloc(n+40);
  char what[80];
  memcpy(p,GetStringInfoDatum(packed[coder][k]),n);
  switch (kind)
  {
    case 0:
      for (j=0; j < n; j++)
      {
        sprintf(what,"cut to %zu of %zu",j,n);
        attempt(coder,k,p,j,sizes[k],what);
      }
      break;
    case 1:
    {
      int part=mc_choose(32,"part");
      for (j=n*part/32; j < n*(part+1)/32; j++)
        for (i=1; i < 256; i++)
        {
          if (!mc_thorough() && (k == 5 || coder == 2) && (i & (i-1)) && i != 255)
            continue;
          p[j]^=i;
          sprintf(what,"with byte %zu changed by %d",j,i);
          attempt(coder,k,p,n,sizes[k],what);
          p[j]^=i;
        }
      break;
    }
    case 2:
      for (i=0; i < sizes[k]+70; i++)
        attempt(coder,k,p,n,i,"whole");
      attempt(coder,k,p,n,100000,"whole");
      break;
    default:
      for (i=0; i < 256; i++)
      {
        memset(p+n,i,40);
        attempt(coder,k,p,n+1,sizes[k],"with a byte more");
        attempt(coder,k,p,n+40,sizes[k],"with 40 bytes more");
      }
      /* and the text itself instead of a compressed message */
      attempt(coder,k,GetStringInfoDatum(text[k]),sizes[k],sizes[k],"not compressed");
      break;
  }
  free(p);
  mc_observe_int(coder*100+k*10+kind);
  mc_nontrivial();
}

static void init(void)
{
  int i,k,j;
  ExceptionInfo *exception=AcquireExceptionInfo();
  mc_counter_name(0,"restored exactly");
  mc_counter_name(1,"refused");
  for (k=0; k < 6; k++)
  {
    text[k]=AcquireStringInfo(sizes[k]);
    for (j=0; j < sizes[k]; j++)
      GetStringInfoDatum(text[k])[j]=k == 4 ? j*j*7+(j >> 2) : j%29+(j%13 == 0 ? 40 : 60);
  }
  for (i=0; i < 3; i++)
  {
    object[i]=AcquireEntropyInfo(coders[i],i == 2 ? 1 : 6);
    for (k=0; k < 6; k++)
    {
      if (!IncreaseEntropy(object[i],text[k],exception))
        abort();
      packed[i][k]=CloneStringInfo(GetEntropyChaos(object[i]));
    }
  }
  DestroyExceptionInfo(exception);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C26", .name="entropy_damage",
    .rule="3 coders x 6 messages: every truncation, every change of every byte (longest message and "
      "lzma: single bits; thorough: all), every original length, trailing bytes",
    .init=init, .body=body, .watchdog=60
  };
  return(mc_main(argc,argv,&h));
}

/*
  Allocation requests with every pair of boundary values, resize histories and
  copies with every overlap.
*/
#include "common.h"
#include <malloc.h>

static size_t asked,values[300];
static int count,refuse;

static void *get(size_t n)
{
  asked=n;
  if (n > 1 << 20 || (refuse && mc_deviate(2,"allocate")))
    return(NULL);
  return(malloc(n));
}

static void *change(void *p,size_t n)
{
  asked=n;
  if (n > 1 << 20 || (refuse && mc_deviate(2,"allocate")))
    return(NULL);
  return(realloc(p,n));
}

/* usable memory: every byte of it, where that is feasible */
static void use(unsigned char *p,unsigned __int128 n,int seed)
{
  size_t i;
  for (i=0; i < n && i < 70000; i++)
    p[i]=i*7+seed;
  if (n)
    p[(size_t) n-1]=1;
}

static void pairs(void)
{
  size_t a=values[mc_choose(count,"count")],b;
  int i;
  unsigned __int128 product;
  unsigned char *p;
  for (i=0; i < count; i++)
  {
    b=values[i];
    product=(unsigned __int128) a*b;
    mc_note("%zu elements of %zu bytes\n",a,b);
    SetWizardMemoryMethods(get,change,free);
    asked=0;
    p=AcquireQuantumMemory(a,b);
    mc_transition();
    if (p)
      {
        MC_CHECK(asked >= product,"a block of %zu bytes is given for %zu elements of %zu",asked,a,b);
        use(p,product,1);
        RelinquishWizardMemory(p);
      }
    else
      MC_CHECK(product == 0 || product > 1 << 20,"%zu elements of %zu bytes are refused",a,b);
    p=ResizeQuantumMemory(NULL,a,b);
    if (p)
      {
        MC_CHECK(asked >= product,"a block of %zu bytes is given for %zu elements of %zu",asked,a,b);
        use(p,product,1);
        RelinquishWizardMemory(p);
      }
    p=AcquireWizardMemory(40);
    use(p,40,9);
    asked=0;
    p=ResizeQuantumMemory(p,a,b);
    mc_transition();
    if (p)
      {
        size_t k;
        MC_CHECK(asked >= product,"a block of %zu bytes is given for %zu elements of %zu",asked,a,b);
        for (k=0; k < 39 && k < product; k++)
          MC_CHECK(p[k] == (unsigned char) (k*7+9),"resizing to %zu elements of %zu changes byte %zu",
            a,b,k);
        use(p,product,2);
        RelinquishWizardMemory(p);
      }
    else
      MC_CHECK(product == 0 || product > 1 << 20,"%zu elements of %zu bytes are refused",a,b);
    p=AcquireAlignedMemory(a,b);
    mc_transition();
    if (p)
      {
        MC_CHECK(product <= (unsigned __int128) malloc_usable_size(p),
          "an aligned block of %zu bytes is given for %zu elements of %zu",malloc_usable_size(p),a,b);
        MC_CHECK(((size_t) p & 63) == 0,"an aligned block is not aligned");
        if (product > (unsigned) getpagesize()/2)
          mc_count(0,1);
        use(p,product,3);
        RelinquishAlignedMemory(p);
      }
    else
      MC_CHECK(product == 0 || product > 1 << 20,"%zu elements of %zu bytes are refused",a,b);
  }
  mc_observe_int(a);
}

static void resizes(void)
{
  static const size_t some[]={ 0,1,7,8,9,64,100,4095,4096,5000 };
  unsigned char *p=NULL;
  size_t have=0,n,k,from=0;
  int i,seed=0;
  mc_budget(1);
  refuse=1;
  SetWizardMemoryMethods(get,change,free);
  for (i=0; i < (mc_thorough() ? 5 : 4); i++)
  {
    n=some[mc_choose(10,"size")];
    mc_note("resize to %zu\n",n);
    p=mc_choose(2,"kind") ? ResizeQuantumMemory(p,n,1) : ResizeWizardMemory(p,n);
    mc_transition();
    if (!p)
      {
        MC_CHECK(n == 0 || mc_deviations() == 1,"resizing to %zu fails",n);
        have=0;
        continue;
      }
    MC_CHECK(asked >= n,"a block of %zu bytes is given for %zu",asked,n);
    from=n < have ? n : have;
    for (k=0; k < from; k++)
      MC_CHECK(p[k] == (unsigned char) (k*7+seed),"byte %zu is lost when resizing to %zu",k,n);
    have=n;
    for (seed=i+1,k=0; k < n; k++)
      p[k]=k*7+seed;
    mc_observe_int(n);
  }
  RelinquishWizardMemory(p);
  refuse=0;
}

static void copies(void)
{
  size_t n=mc_choose(mc_thorough() ? 70 : 40,"length"),k;
  int from,to;
  for (from=0; from < 24; from++)
    for (to=0; to < 90; to++)
    {
      unsigned char *block=malloc(24+90+n),want[300],copy[300];
      size_t size=24+90+n;
      for (k=0; k < size; k++)
        want[k]=block[k]=k*3+1;
      memcpy(copy,block+from,n);
      memcpy(want+to,copy,n);
      MC_CHECK(CopyWizardMemory(block+to,block+from,n) == block+to,"a copy returns another address");
      MC_CHECK(memcmp(block,want,size) == 0,
        "copying %zu bytes from %d to %d gives other bytes",n,from,to);
      MC_CHECK(ResetWizardMemory(block+to,to,n) == block+to,"filling returns another address");
      memset(want+to,to,n);
      MC_CHECK(memcmp(block,want,size) == 0,"filling %zu bytes at %d is not exact",n,to);
      free(block);
      mc_transition();
    }
  mc_observe_int(n);
}

static void body(void)
{
  switch (mc_choose(3,"kind"))
  {
    case 0: pairs(); break;
    case 1: resizes(); break;
    default: copies(); break;
  }
  mc_nontrivial();
}

static void init(void)
{
  int k,d;
  mc_counter_name(0,"page-aligned blocks");
  values[count++]=0;
  for (k=0; k < 64; k++)
    for (d=-1; d < 2; d++)
      values[count++]=((size_t) 1 << k)+d;
  values[count++]=~(size_t) 0;
  for (k=3; k < 100; k*=3)
  {
    values[count++]=k;
    values[count++]=~(size_t) 0/k;
    values[count++]=~(size_t) 0/k+1;
  }
  values[count++]=~(size_t) 0-63;
  values[count++]=~(size_t) 0-64;
  values[count++]=~(size_t) 0-4096;
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C42", .name="memory_enum",
    .rule="every pair of 220 boundary values for allocate, resize and aligned allocate; every history "
      "of 4 resizes over 10 sizes with one refused; copies and fills of every length, overlap and offset",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

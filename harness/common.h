/*
  Helpers shared by the harnesses.
*/
#pragma once
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "mc.h"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
extern size_t __sanitizer_get_allocated_size(const volatile void *);
#define SLACK(p,n) (__sanitizer_get_allocated_size(p)-(n))
#else
#define ASAN_POISON_MEMORY_REGION(p,n) ((void) (p))
#define ASAN_UNPOISON_MEMORY_REGION(p,n) ((void) (p))
#define SLACK(p,n) 0
#endif

/*
  A counted string whose slack must not be touched by a call that only reads it.
*/
static inline StringInfo *sealed(const void *data,size_t length)
{
  StringInfo *s=AcquireStringInfo(length);
  memcpy(GetStringInfoDatum(s),data,length);
  ASAN_POISON_MEMORY_REGION(GetStringInfoDatum(s)+length,
    SLACK(GetStringInfoDatum(s),length));
  return(s);
}

static inline void unseal(StringInfo *s)
{
  ASAN_UNPOISON_MEMORY_REGION(GetStringInfoDatum(s)+GetStringInfoLength(s),
    SLACK(GetStringInfoDatum(s),GetStringInfoLength(s)));
  DestroyStringInfo(s);
}

/* message bytes in which no short period repeats */
static inline void fill(unsigned char *p,size_t n,unsigned seed)
{
  uint64_t x=0x9e3779b97f4a7c15ull*(seed+1);
  size_t i;
  for (i=0; i < n; i++)
  {
    x^=x << 13; x^=x >> 7; x^=x << 17;
    p[i]=(unsigned char) (x >> 24);
  }
}

/*
  Memory and descriptors that destroyed objects give back.

  Every history runs three times.  What the first run leaves allocated may be
  caches; the later ones have to leave exactly as much.
*/
#include "histories.h"

static void show(long from)
{
  block *b;
  for (b=live.previous; b != &live; b=b->previous)
    if (b->serial > from)
      {
        char **names;
        int i;
        fprintf(stderr,"block of %zu bytes\n",b->extent);
        if (!getenv("LEAK_TRACE"))
          continue;
        names=backtrace_symbols(b->from,12);
        for (i=1; i < 12 && b->from[i]; i++)
          fprintf(stderr,"  %s\n",names[i]);
      }
}

static void body(void)
{
  long before=0;
  int run;
  choose(0);
  for (run=0; run < 3; run++)
  {
    long mark;
    fresh();
    mark=serial;
    exception=AcquireExceptionInfo();
    kinds[kind].run();
    DestroyExceptionInfo(exception);
    mc_transition();
    if (run == 2 && blocks != before && getenv("LEAK_TRACE"))
      show(mark);
    if (run == 2)
      MC_CHECK(blocks <= before,"%ld blocks of memory are not given back",blocks-before);
    MC_CHECK(sim_open_descriptors() == 0,"%d descriptors are not closed",sim_open_descriptors());
    before=blocks;
  }
  mc_observe_int(kind*1000+steps);
  if (steps || fail_at)
    mc_nontrivial();
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C58", .name="leak_seq",
    .rule="every history of calls up to the depth bound on every kind of object, every text and XML input up to the "
      "bound, every cut and changed byte of a keyring and every single failing call on files, each three times; "
      "non-trivial when there was a call",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

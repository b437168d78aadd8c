/*
  Stopwatches under a controlled clock.
*/
#include "common.h"
#include "simfs.h"

typedef struct
{
  int running,defined;
  double total,start,stop;
} watch;

static void start(watch *w,double now,int reset)
{
  if (reset)
    w->total=0.0;
  if (reset || !w->running)
    w->start=now;
  w->running=1;
}

static double reading(watch *w,double now)
{
  if (w->running)
    {
      w->stop=now;
      w->total+=now-w->start;
    }
  w->running=0;
  return(w->total);
}

/* a stopped watch counts on as if it had never been stopped */
static void go_on(watch *w)
{
  if (!w->running)
    w->total-=w->stop-w->start;
  w->running=1;
}

static void reset(watch *w,double now)
{
  w->total=0.0;
  w->running=0;
  w->start=w->stop=now;
}

static void body(void)
{
  static const long origins[]={ 0,123456789,1L << 40 };
  static const int step[]={ 0,1,700 };
  static const char *const names[]={ "start afresh","start","continue","reset","read elapsed time",
    "read user time","initialise" };
  watch real,user;
  TimerInfo *t;
  int depth=mc_thorough() ? 6 : 5,i,op,k,fresh_reset=0;
  double scale=1.0/sysconf(_SC_CLK_TCK),e,u,want;
  sim_reset();
  sim_ticks=origins[mc_choose(3,"origin")];
  sim_user_ticks=sim_ticks/3;
  t=AcquireTimerInfo();
  memset(&real,0,sizeof(real));
  memset(&user,0,sizeof(user));
  start(&real,sim_ticks*scale,1);
  start(&user,sim_user_ticks*scale,1);
  for (i=0; i < depth; i++)
  {
    k=mc_choose(3,"clock");
    sim_ticks+=step[k];
    sim_user_ticks+=k == 2 ? step[k]/2 : step[k];
    op=mc_choose(i == 0 ? 7 : 6,"call");
    if (op == 2 && fresh_reset)
      mc_skip();              /* continuing a timer that was reset: not defined */
    mc_note("clock %ld, user %ld: %s\n",sim_ticks,sim_user_ticks,names[op]);
    e=sim_ticks*scale;
    u=sim_user_ticks*scale;
    switch (op)
    {
      case 0: case 1:
        StartTimer(t,op == 0 ? WizardTrue : WizardFalse);
        start(&real,e,op == 0);
        start(&user,u,op == 0);
        fresh_reset=0;
        break;
      case 2:
        MC_CHECK(ContinueTimer(t),"a timer does not continue");
        go_on(&real);
        go_on(&user);
        break;
      case 3:
        ResetTimer(t);
        reset(&real,e);
        reset(&user,u);
        fresh_reset=1;
        break;
      case 6:
        GetTimerInfo(t);
        start(&real,e,1);
        start(&user,u,1);
        break;
      default:
      {
        double got=op == 4 ? GetElapsedTime(t) : GetUserTime(t);
        want=reading(&real,e);
        if (op == 5)
          want=reading(&user,u);
        else
          (void) reading(&user,u);
        MC_CHECK(got >= 0.0,"the %s is negative: %.9g",op == 4 ? "elapsed time" : "user time",got);
        MC_CHECK(fabs(got-want) < 1e-3*scale+1e-12*fabs(e)+1e-5,"the %s is %.9g instead of %.9g",
          op == 4 ? "elapsed time" : "user time",got,want);
        mc_observe(&want,sizeof(want));
        mc_nontrivial();
        break;
      }
    }
    mc_transition();
  }
  DestroyTimerInfo(t);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C41", .name="timer_seq",
    .rule="every sequence of 5 (thorough: 6) calls, each at one of 3 distances on the clock, from "
      "3 clock readings",
    .body=body
  };
  return(mc_main(argc,argv,&h));
}

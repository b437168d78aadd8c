/*
  Threads that look up and list settings.
*/
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "wizard/configure.h"
#include "mc.h"
#include "sched.h"
#include "simfs.h"

enum { LOOK_A, LOOK_C, LOOK_MISSING, LIST, INFO, OPS };

static const char *const op_name[]={ "look A","look C","look missing","list","list settings" };

#define TABLES 2
static const char *const table_file="/sim/etc/configure.xml";
static const char *const tables[TABLES]=
{
  "<m><configure name=\"A\" value=\"1\"/></m>",
  "<m><configure name=\"B\" value=\"2\"/><configure name=\"A\" value=\"1\"/><configure name=\"C\" value=\"3\"/></m>"
};

static void load(void)
{
  ExceptionInfo *exception=AcquireExceptionInfo();
  GetConfigureInfo("*",exception);
  DestroyExceptionInfo(exception);
}

static void unload(void)
{
  ConfigureComponentTerminus();
}

static void call(int k,char *r,ExceptionInfo *exception)
{
  static const char *const names[]={ "a","C","zz" };
  const ConfigureInfo *c,**info;
  char **list;
  size_t n,i;
  switch (k)
  {
    case LIST:
      list=GetConfigureList("*",&n,exception);
      if (list == NULL)
        break;
      for (i=0; i < n; i++)
      {
        SCHED_APPEND(r,"%s,",list[i]);
        list[i]=DestroyString(list[i]);
      }
      list=(char **) RelinquishWizardMemory(list);
      break;
    case INFO:
      info=GetConfigureInfoList("*",&n,exception);
      if (info == NULL)
        break;
      for (i=0; i < n; i++)
        SCHED_APPEND(r,"%s=%s,",info[i]->name,info[i]->value);
      info=(const ConfigureInfo **) RelinquishWizardMemory((void *) info);
      break;
    default:
      c=GetConfigureInfo(names[k],exception);
      SCHED_APPEND(r,"%s",c == NULL ? "none" : GetConfigureValue(c));
      break;
  }
}

#include "cache_conc.h"

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C48", .name="config_conc",
    .rule="every interleaving up to the preemption bound of 2-3 threads making 1-2 calls that look up or list settings; "
      "non-trivial when a thread was preempted",
    .time_cap=300, .body=body
  };
  return(mc_main(argc,argv,&h));
}

/*
  Threads that look up and list messages.
*/
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "wizard/locale_.h"
#include "mc.h"
#include "sched.h"
#include "simfs.h"

enum { LOOK_A, LOOK_C, LOOK_MISSING, FIRST, LIST, INFO, OPS };

static const char *const op_name[]={ "message A","message C","missing message","first","list","list messages" };

#define TABLES 2
static const char *const table_file="/sim/etc/locale.xml";
static const char *const tables[TABLES]=
{
  "<m><locale name=\"C\"><message name=\"A\">one</message></locale></m>",
  "<m><locale name=\"C\"><message name=\"B\">two</message><message name=\"A\">one</message>"
    "<message name=\"C\">three</message></locale></m>"
};

static void load(void)
{
  ExceptionInfo *exception=AcquireExceptionInfo();
  GetLocaleInfo_("*",exception);
  DestroyExceptionInfo(exception);
}

static void unload(void)
{
  LocaleComponentTerminus();
}

static void call(int k,char *r,ExceptionInfo *exception)
{
  static const char *const names[]={ "a","C","zz" };
  const LocaleInfo *c,**info;
  char **list;
  size_t n,i;
  switch (k)
  {
    case LIST:
      list=GetLocaleList("*",&n,exception);
      if (list == NULL)
        break;
      for (i=0; i < n; i++)
      {
        SCHED_APPEND(r,"%s,",list[i]);
        list[i]=DestroyString(list[i]);
      }
      list=(char **) RelinquishWizardMemory(list);
      break;
    case INFO:
      info=GetLocaleInfoList("*",&n,exception);
      if (info == NULL)
        break;
      for (i=0; i < n; i++)
        SCHED_APPEND(r,"%s=%s,",info[i]->tag,info[i]->message);
      info=(const LocaleInfo **) RelinquishWizardMemory((void *) info);
      break;
    case FIRST:
      c=GetLocaleInfo_("*",exception);
      SCHED_APPEND(r,"%s",c == NULL ? "none" : c->tag);
      break;
    default:
      SCHED_APPEND(r,"%s",GetLocaleMessage(names[k]));
      break;
  }
}

#include "cache_conc.h"

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C49", .name="locale_conc",
    .rule="every interleaving up to the preemption bound of 2-3 threads making 1-2 calls that look up or list messages; "
      "non-trivial when a thread was preempted",
    .time_cap=300, .body=body
  };
  return(mc_main(argc,argv,&h));
}

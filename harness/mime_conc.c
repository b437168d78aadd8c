/*
  Threads that look up and list file types.
*/
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "wizard/mime.h"
#include "wizard/mime-private.h"
#include "mc.h"
#include "sched.h"
#include "simfs.h"

enum { CONTENT, NAME, NOTHING, LIST, INFO, OPS };

static const char *const op_name[]={ "look up content","look up name","look up neither","list","list types" };

#define TABLES 2
static const char *const table_file="/sim/etc/mime.xml";
static const char *const tables[TABLES]=
{
  "<m><mime type=\"t/a\" data-type=\"string\" magic=\"AB\" priority=\"50\"/></m>",
  "<m><mime type=\"t/c\" data-type=\"short\" magic=\"0x4241\" priority=\"60\"/><mime type=\"t/b\" pattern=\"*.b\" "
  "priority=\"50\"/><mime type=\"t/a\" data-type=\"string\" magic=\"AB\" priority=\"50\"/></m>"
};

static void load(void)
{
  ExceptionInfo *exception=AcquireExceptionInfo();
  GetMimeInfo(NULL,(const unsigned char *) " ",1,exception);
  DestroyExceptionInfo(exception);
}

static void unload(void)
{
  MimeComponentTerminus();
}

static void call(int k,char *r,ExceptionInfo *exception)
{
  const MimeInfo *m,**info;
  char **list;
  size_t n,i;
  switch (k)
  {
    case LIST:
      list=GetMimeList("*",&n,exception);
      if (list == NULL)
        break;
      for (i=0; i < n; i++)
      {
        SCHED_APPEND(r,"%s,",list[i]);
        list[i]=DestroyString(list[i]);
      }
      list=(char **) RelinquishWizardMemory(list);
      break;
    case INFO:
      info=GetMimeInfoList("*",&n,exception);
      if (info == NULL)
        break;
      for (i=0; i < n; i++)
        SCHED_APPEND(r,"%s,",GetMimeType(info[i]));
      info=(const MimeInfo **) RelinquishWizardMemory((void *) info);
      break;
    default:
      m=GetMimeInfo(k == NAME ? "x.b" : NULL,(const unsigned char *) (k == CONTENT ? "AB" : "zz"),2,exception);
      SCHED_APPEND(r,"%s",m == NULL ? "none" : GetMimeType(m));
      break;
  }
}

#include "cache_conc.h"

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C38", .name="mime_conc",
    .rule="every interleaving up to the preemption bound of 2-3 threads making 1-2 calls that look up or list file types; "
      "non-trivial when a thread was preempted",
    .time_cap=300, .body=body
  };
  return(mc_main(argc,argv,&h));
}

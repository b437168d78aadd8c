/*
  Events logged in every configuration and order of calls.
*/
#include "common.h"
#include "wizard/log.h"
#include "wizard/client.h"
#include "wizard/version.h"
#include "simfs.h"

#define EVENTS 16
#define TEXT 65536

extern WizardExport const char *GetLogName(void),*SetLogName(const char *);

static const struct { const char *text; int simple; } formats[]=
{
  { "%e",1 },
  { "[%d] %m:%f:%l %e%%",1 },
  { "a\\nb\\r%e%z%",1 },
  { "%c %n %v %p %e %e",1 },
  { "%t %r %u %i %g %e",0 },
  { "xml",0 },
  { "",1 },
  { "%e%e%e%e%e",1 }
};
#define FORMATS ((int) (sizeof(formats)/sizeof(*formats)))

static const struct { const char *name; int bits; } masks[]=
{
  { "none",0 }, { "user",UserEvent }, { "blob",BlobEvent }, { "user,blob",UserEvent | BlobEvent },
  { "all",AllEvents & ~TraceEvent }
};
#define MASKS ((int) (sizeof(masks)/sizeof(*masks)))

enum { FILES_BIT=1, STDOUT_BIT=2, STDERR_BIT=4, CONSOLE_BIT=8 };
static const char *handler_names[]={ "file","stdout","stderr","console" };

static char expected[EVENTS][TEXT],number[EVENTS][16];
static int events;
static char *captured[2];
static size_t captured_n[2];
static FILE *real[2];

static void capture(void)
{
  real[0]=stdout;
  real[1]=stderr;
  captured[0]=captured[1]=NULL;
  stdout=open_memstream(&captured[0],&captured_n[0]);
  stderr=open_memstream(&captured[1],&captured_n[1]);
}

static void release(void)
{
  fclose(stdout);
  fclose(stderr);
  stdout=real[0];
  stderr=real[1];
}

/* what an event looks like in a simple format */
static void translate(char *q,const char *format,const char *event,const char *domain)
{
  const char *p;
  for (p=format; *p; p++)
  {
    if (p[0] == '\\' && (p[1] == 'n' || p[1] == 'r'))
      {
        *q++=*++p == 'n' ? '\n' : '\r';
        continue;
      }
    if (*p != '%')
      {
        *q++=*p;
        continue;
      }
    p++;
    if (*p == 0)
      break;
    switch (*p)
    {
      case 'e': q+=sprintf(q,"%s",event); break;
      case 'd': q+=sprintf(q,"%s",domain); break;
      case 'm': q+=sprintf(q,"module.c"); break;
      case 'f': q+=sprintf(q,"Function"); break;
      case 'l': q+=sprintf(q,"77"); break;
      case 'c': q+=sprintf(q,"%s",GetClientName()); break;
      case 'n': q+=sprintf(q,"%s",GetLogName()); break;
      case 'v': q+=sprintf(q,"%s",WizardLibVersionText); break;
      case 'p': q+=sprintf(q,"%d",(int) seam_getpid()); break;
      case '%': *q++='%'; break;
      default: *q++='%'; *q++=*p; break;
    }
  }
  *q=0;
}

static char everything[4*TEXT*EVENTS];

static int occurrences(const char *where,const char *what)
{
  int n=0;
  const char *p;
  for (p=where; (p=strstr(p,what)) != NULL; p++)
    n++;
  return(n);
}

/* every event is there once, whole and in order */
static void judge(const char *where,const char *content,int simple,int wrapped,int times)
{
  const char *p=content;
  char text[TEXT+32];
  int i;
  for (i=0; i < events; i++)
  {
    if (simple)
      {
        snprintf(text,sizeof(text),wrapped ? "  <event>%s</event>\n" : "%s\n",expected[i]);
        p=strstr(p,text);
        MC_CHECK(p != NULL,"event %s is not whole and in its place in %s",number[i],where);
        p+=strlen(text);
      }
    else
      strcpy(text,number[i]);
    MC_CHECK(occurrences(content,text) == times,"event %s is %d times in %s",number[i],occurrences(content,text),where);
  }
}

static void body(void)
{
  static char config[4096],big[2*WizardPathExtent];
  static const char *const limits[]={ "0","1","unlimited" };
  int set[4],i,h,op,depth,mask,limit,k=0,part=mc_choose(3,"part"),format;
  const char *current;
  ExceptionInfo *exception;
  size_t n;
  char *text;
  format=part == 0 ? mc_choose(FORMATS,"format") : 0;
  h=part == 0 ? mc_choose(16,"handlers") : part == 1 ? FILES_BIT : FILES_BIT | STDERR_BIT;
  mask=part == 0 ? 3 : mc_choose(MASKS,"events");
  limit=mc_choose(3,"limit");
  for (i=0; i < 4; i++)
    set[i]=(h >> i) & 1;
  sim_reset();
  *config=0;
  sprintf(config,"<?xml version=\"1.0\"?>\n<logmap>\n  <log events=\"%s\" />\n  <log output=\"",masks[mask].name);
  for (i=0; i < 4; i++)
    if (set[i])
      sprintf(config+strlen(config),"%s%s",config[strlen(config)-1] == '"' ? "" : ",",handler_names[i]);
  sprintf(config+strlen(config),"\" />\n  <log filename=\"/sim/log-%%g.txt\" />\n  <log generations=\"%d\" />\n"
    "  <log limit=\"%s\" />\n  <log format=\"%s\" />\n</logmap>\n",part == 2 ? 0 : 3,limits[limit],formats[format].text);
  mc_note("%s",config);
  sim_put("/sim/etc/log.xml",config,strlen(config));
  setenv("WIZARD_CONFIGURE_PATH","/sim/etc",1);
  LogComponentTerminus();
  capture();
  LogComponentGenesis();
  MC_CHECK((IsEventLogging() != WizardFalse) == (masks[mask].bits != 0),"logging is %s",
    masks[mask].bits ? "off" : "on");
  current=formats[format].text;
  events=0;
  depth=part == 0 ? 3 : 4+(part == 1)+mc_thorough();
  for (i=0; i < depth; i++)
  {
    LogEventType type;
    const char *domain="User";
    op=part == 0 ? mc_choose(4,"event") : mc_choose(part == 1 ? 8 : 10,"call");
    type=UserEvent;
    mc_transition();
    if (part == 0 && op == 2)
      type=BlobEvent, domain="Blob";
    if (part == 0 && op == 3)
      type=LocaleEvent;
    if (part != 0)
      switch (op)
      {
        case 0: break;
        case 1: type=BlobEvent; domain="Blob"; break;
        case 2:
          mask=(mask+1)%MASKS;
          mc_note("log %s\n",masks[mask].name);
          SetLogEventMask(masks[mask].name);
          continue;
        case 3:
          mc_note("close\n");
          CloseWizardLog();
          continue;
        case 4:
          mc_note("format\n");
          current=current == formats[1].text ? formats[0].text : formats[1].text;
          SetLogFormat(current);
          continue;
        case 5:
        {
          char *list=NULL;
          size_t length;
          FILE *f=open_memstream(&list,&length);
          mc_note("list\n");
          exception=AcquireExceptionInfo();
          MC_CHECK(ListLogInfo(f,exception) != WizardFalse,"the logs are not listed");
          DestroyExceptionInfo(exception);
          fclose(f);
          mc_note("%s",list);
          text=strstr(list,"/sim/etc/log.xml\n");
          MC_CHECK(text != NULL,"the log is not listed");
          MC_CHECK(strstr(text," Generations") != NULL,"the log is not listed");
          *strstr(text," Generations")=0;
          for (k=0; k < 4; k++)
            MC_CHECK((strstr(text+17,handler_names[k]) != NULL) == set[k],"the log is listed %s the output %s",
              set[k] ? "without" : "with",handler_names[k]);
          free(list);
          continue;
        }
        case 6:
          exception=AcquireExceptionInfo();
          mc_note("look up\n");
          MC_CHECK(GetLogInfo("*",exception) != NULL,"there is no log");
          MC_CHECK(GetLogInfo("none",exception) == NULL,"a log that does not exist");
          MC_CHECK(GetExceptionSeverity(exception) == OptionWarning,"the missing log is not reported");
          DestroyExceptionInfo(exception);
          continue;
        case 7:
        {
          size_t m;
          char **list;
          const LogInfo **infos;
          exception=AcquireExceptionInfo();
          mc_note("names\n");
          list=GetLogList("*",&m,exception);
          MC_CHECK(list != NULL && m >= 1,"no log is named");
          for (k=0; k < (int) m; k++)
            DestroyString(list[k]);
          RelinquishWizardMemory(list);
          list=GetLogList("zz*",&m,exception);
          MC_CHECK(list != NULL && m == 0,"a log matches a name that no log has");
          RelinquishWizardMemory(list);
          infos=GetLogInfoList("zz*",&m,exception);
          MC_CHECK(infos != NULL && m == 0,"a log matches a name that no log has");
          RelinquishWizardMemory(infos);
          DestroyExceptionInfo(exception);
          continue;
        }
        case 8:
          SetLogName(i & 1 ? "Other" : "Wizard");
          continue;
        default:
          mc_note("restart\n");
          LogComponentTerminus();
          LogComponentGenesis();
          mask=-1;
          break;
      }
    if (mask == -1)
      {
        /* the configuration is read again */
        for (mask=0; strstr(config,masks[mask].name) == NULL || strncmp(strstr(config,"events=\"")+8,
          masks[mask].name,strlen(masks[mask].name)) != 0 || strstr(config,"events=\"")[8+
          strlen(masks[mask].name)] != '"'; mask++) ;
        current=formats[format].text;
        continue;
      }
    /* an event */
    sprintf(number[events],"#%d;",i);
    if (part == 0 && op == 1)
      {
        /* long enough to fill the room for a message */
        memset(big,'x',WizardPathExtent-1);
        big[WizardPathExtent-1]=0;
        memcpy(big,number[events],strlen(number[events]));
        if (format == 3)
          big[2000]=0;
      }
    else
      sprintf(big,"%s event",number[events]);
    mc_note("log %s as %s\n",number[events],domain);
    MC_CHECK((LogWizardEvent(type,"/a/module.c","Function",77,"%s",big) != WizardFalse) ==
      (masks[mask].bits != 0),"logging %s",masks[mask].bits ? "failed" : "did not fail");
    if (masks[mask].bits & type)
      {
        translate(expected[events],current,big,domain);
        events++;
      }
  }
  LogComponentTerminus();
  release();
  if (events > 1)
    mc_nontrivial();
  *everything=0;
  k=part == 0 && (format == 6);
  if (h & FILES_BIT)
    {
      char name[64];
      int g;
      /* a log that fills up is followed by the next one */
      for (g=0; g < 3; g++)
      {
        snprintf(name,sizeof(name),"/sim/log-%d.txt",g);
        text=(char *) sim_get(name,&n);
        if (text != NULL)
          snprintf(everything+strlen(everything),sizeof(everything)-strlen(everything),"%.*s",(int) n,text);
      }
      if (!k && limit != 0)
        judge("the file",everything,formats[format].simple,1,1);
      for (i=0; i < events && !k; i++)
      {
        char whole[TEXT+32];
        if (formats[format].simple)
          snprintf(whole,sizeof(whole),"  <event>%s</event>\n",expected[i]);
        else
          strcpy(whole,number[i]);
        MC_CHECK(occurrences(everything,whole) == 1,"event %s is %d times in the files",number[i],
          occurrences(everything,whole));
      }
    }
  if (!k && set[1])
    judge("the standard output",captured[0],formats[format].simple,0,1);
  if (!k && (set[2] || set[3]))
    judge("the standard error",captured[1],formats[format].simple,0,set[2]+set[3]);
  if (!set[1])
    MC_CHECK(captured_n[0] == 0,"there is output that the log does not have");
  if (!set[2] && !set[3])
    MC_CHECK(captured_n[1] == 0,"there is error output that the log does not have");
  if (!set[0])
    MC_CHECK(sim_get("/sim/log-0.txt",&n) == NULL,"there is a file that the log does not have");
  mc_observe_int(events);
  mc_observe(config,strlen(config));
  free(captured[0]);
  free(captured[1]);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C44", .name="log_seq",
    .rule="every format, set of outputs and limit with every sequence of events, and every sequence of calls up to the "
      "depth bound; non-trivial when several events are logged",
    .body=body
  };
  return(mc_main(argc,argv,&h));
}

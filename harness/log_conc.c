/*
  All interleavings of threads that log events, change the mask or the format,
  list and close logs.
*/
#include <stdarg.h>
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "wizard/log.h"
#include "mc.h"
#include "sched.h"
#include "simfs.h"

#define STREAMS 64

extern FILE *__real_seam_fopen(const char *,const char *),*__real_seam_fopen64(const char *,const char *);
extern size_t seam_strlen(const char *);
extern void LogComponentTerminus(void);

enum { LOG_A, LOG_B, MASK_NONE, MASK_ALL, MASK_BLOB, FORMAT_X, FORMAT_Y, CLOSE, LIST, MISSING, OPS };

static const char *op_name[]={ "log user","log blob","mask none","mask all","mask blob","format x","format y",
  "close","list","missing" };

#define FEW 6
static const int some[FEW]={ LOG_A,MASK_NONE,MASK_ALL,FORMAT_X,CLOSE,LIST };

static const char *const outputs[]={ "file","stderr","file,stdout" };
static const char *const events[]={ "all","blob","none" };

static int op_of[SCHED_THREADS+1][SCHED_OPS],output,mask,fresh,limit;
static FILE *live[STREAMS];
static char console[2][4096];

static void opened(FILE *f)
{
  int i;
  for (i=0; f != NULL && i < STREAMS; i++)
    if (live[i] == NULL)
      {
        live[i]=f;
        return;
      }
}

FILE *__wrap_seam_fopen(const char *path,const char *mode)
{
  FILE *f=__real_seam_fopen(path,mode);
  sched_point("fopen");
  opened(f);
  return(f);
}

FILE *__wrap_seam_fopen64(const char *path,const char *mode)
{
  FILE *f=__real_seam_fopen64(path,mode);
  sched_point("fopen");
  opened(f);
  return(f);
}

static int find(FILE *f)
{
  int i;
  for (i=0; i < STREAMS; i++)
    if (f != NULL && live[i] == f)
      return(i);
  return(-1);
}

int seam_fprintf(FILE *f,const char *format,...)
{
  va_list ap,aq;
  const char *p;
  int n;
  sched_point("fprintf");
  va_start(ap,format);
  va_copy(aq,ap);
  /* the strings printed must be alive */
  for (p=format; *p; p++)
    if (*p == '%')
      {
        p++;
        p+=strspn(p,"0123456789.-");
        if (*p == 's')
          seam_strlen(va_arg(aq,char *));
        else
          if (*p == 'g' || *p == 'f')
            (void) va_arg(aq,double);
          else
            if (*p != '%')
              break;
      }
  va_end(aq);
  if (f == stdout || f == stderr)
    {
      char *q=console[f == stderr];
      n=vsnprintf(q+strlen(q),sizeof(console[0])-strlen(q),format,ap);
    }
  else
    {
      if (find(f) < 0)
        mc_fail("a write to a file that is not open");
      n=vfprintf(f,format,ap);
    }
  va_end(ap);
  return(n);
}

int seam_fflush(FILE *f)
{
  sched_point("fflush");
  if (f == stdout || f == stderr)
    return(0);
  if (find(f) < 0)
    mc_fail("a flush of a file that is not open");
  return(fflush(f));
}

int seam_fclose(FILE *f)
{
  int i;
  sched_point("fclose");
  i=find(f);
  if (i < 0)
    mc_fail("a file closed that is not open");
  live[i]=NULL;
  return(fclose(f));
}

static void setup(void)
{
  static char config[1024];
  memset(live,0,sizeof(live));
  memset(console,0,sizeof(console));
  sim_reset();
  sprintf(config,"<logmap>\n<log events=\"%s\" />\n<log output=\"%s\" />\n<log filename=\"/sim/log-%%g.txt\" />\n"
    "<log generations=\"3\" />\n<log limit=\"%d\" />\n<log format=\"%%e\" />\n</logmap>\n",events[mask],outputs[output],
    limit);
  sim_put("/sim/etc/log.xml",config,strlen(config));
  setenv("WIZARD_CONFIGURE_PATH","/sim/etc",1);
  if (!fresh)
    LogComponentGenesis();
}

static void op(int thread,int index,char *r)
{
  int k=op_of[thread][index];
  char event[32],*list=NULL;
  size_t n;
  FILE *f;
  ExceptionInfo *exception;
  SCHED_APPEND(r,"%s ",op_name[k]);
  snprintf(event,sizeof(event),"%d.%d",thread,index);
  switch (k)
  {
    case LOG_A: LogWizardEvent(UserEvent,"m.c","F",1,"%s",event); break;
    case LOG_B: LogWizardEvent(BlobEvent,"m.c","F",2,"%s",event); break;
    case MASK_NONE: SetLogEventMask("none"); break;
    case MASK_ALL: SetLogEventMask("all"); break;
    case MASK_BLOB: SetLogEventMask("blob"); break;
    case FORMAT_X: SetLogFormat("x%ey"); break;
    case FORMAT_Y: SetLogFormat("%m(%e):%d"); break;
    case CLOSE: CloseWizardLog(); break;
    case LIST:
      exception=AcquireExceptionInfo();
      f=open_memstream(&list,&n);
      opened(f);
      ListLogInfo(f,exception);
      live[find(f)]=NULL;
      fclose(f);
      SCHED_APPEND(r,"%016llx",(unsigned long long) mc_hash(1,list,n));
      free(list);
      DestroyExceptionInfo(exception);
      break;
    case MISSING:
      exception=AcquireExceptionInfo();
      SCHED_APPEND(r,"%d",GetLogInfo("zz",exception) == NULL);
      SCHED_APPEND(r,",%d",(int) GetExceptionSeverity(exception));
      DestroyExceptionInfo(exception);
      break;
  }
}

static void final(char *r)
{
  char name[32],*p,*text;
  size_t n;
  int g;
  LogComponentTerminus();
  for (g=0; g < 3; g++)
  {
    snprintf(name,sizeof(name),"/sim/log-%d.txt",g);
    text=(char *) sim_get(name,&n);
    if (text == NULL)
      continue;
    SCHED_APPEND(r,"%d(%016llx)",g,(unsigned long long) mc_hash(1,text,n));
    p=strndup(text,n);
    SCHED_APPEND(r,"%.100s",strstr(p,"<log>") == NULL ? p : strstr(p,"<log>"));
    free(p);
  }
  for (g=0; g < 2; g++)
    SCHED_APPEND(r,"%d:%s;",g,console[g]);
}

static void body(void)
{
  sched_program p;
  int i,t,shape,n,last,few;
  memset(&p,0,sizeof(p));
  shape=mc_choose(3,"shape");
  fresh=shape == 0 ? mc_choose(2,"fresh") : 0;
  output=shape == 0 && !fresh ? mc_choose(3,"output") : 0;
  mask=shape == 0 && !fresh ? mc_choose(3,"events") : 0;
  limit=shape == 0 && output == 0 ? mc_choose(2,"limit") : 1;
  p.sequential=!fresh;   /* the first call to load the logs decides when events begin */
  p.setup=setup;
  p.op=op;
  p.final=final;
  p.threads=shape == 2 ? 3 : 2;
  p.bound=1+mc_thorough();
  if (shape == 0 && output == 0 && mask == 0 && !fresh)
    p.bound++;
  few=shape != 0 && !mc_thorough();
  n=last=0;
  for (t=1; t <= p.threads; t++)
  {
    int code=0;
    p.ops[t-1]=shape == 1 ? 2 : 1;
    for (i=0; i < p.ops[t-1]; i++)
    {
      int k=mc_choose(few ? FEW : OPS,"call");
      op_of[t][i]=few ? some[k] : k;
      code=code*OPS+k;
    }
    /* the threads are alike */
    if (code < last)
      mc_skip();
    last=code;
    n=n*OPS*OPS+code;
  }
  p.id=(uint64_t) n*1000+shape+3*(fresh+2*(output+3*(mask+3*limit)));
  mc_note("output %s, events %s%s\n",outputs[output],events[mask],fresh ? ", not loaded" : "");
  sched_explore(&p);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C44", .name="log_conc",
    .rule="every interleaving up to the preemption bound of 2-3 threads making 1-2 calls that log, set the mask or the "
      "format, list, look up or close; non-trivial when a thread was preempted",
    .time_cap=420, .body=body
  };
  return(mc_main(argc,argv,&h));
}

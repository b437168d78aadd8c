/*
  Exceptions thrown, inherited, cleared and caught in every order.
*/
#include "common.h"
#include <unistd.h>
#include <sys/wait.h>

#define MAX 96

typedef struct
{
  int severity;
  const char *reason,*description;
} event;

typedef struct
{
  event list[MAX];
  int n;
} pending;

static const event thrown[]=
{
  { OptionWarning,"a",NULL },
  { OptionWarning,"a","d" },
  { OptionWarning,"A",NULL },
  { OptionWarning,NULL,NULL },
  { ResourceError,"a",NULL },
  { ResourceFatalError,"a",NULL },
  { BlobFatalError,"b","d" },
  { OptionWarning,"","d" }
};

static event seen[4*MAX];
static int seen_class[4*MAX],seen_n;
static char keep[4*MAX][2][16];

static void note_event(int class,const ExceptionType severity,const char *reason,const char *description)
{
  event *e;
  if (seen_n >= 4*MAX)
    mc_fail("more events delivered than were ever thrown");
  e=seen+seen_n;
  e->severity=severity;
  e->reason=e->description=NULL;
  if (reason != NULL)
    {
      snprintf(keep[seen_n][0],16,"%s",reason);
      e->reason=keep[seen_n][0];
    }
  if (description != NULL)
    {
      snprintf(keep[seen_n][1],16,"%s",description);
      e->description=keep[seen_n][1];
    }
  seen_class[seen_n++]=class;
}

static void on_warning(const ExceptionType s,const char *r,const char *d) { note_event(1,s,r,d); }
static void on_error(const ExceptionType s,const char *r,const char *d) { note_event(2,s,r,d); }
static void on_fatal(const ExceptionType s,const char *r,const char *d) { note_event(3,s,r,d); }

static int class_of(int severity)
{
  return(severity >= FatalErrorException ? 3 : severity >= ErrorException ? 2 : severity >= WarningException ? 1 : 0);
}

static int same_text(const char *a,const char *b)
{
  return(a == NULL || b == NULL ? a == b : strcmp(a,b) == 0);
}

static int same_event(const event *a,const event *b)
{
  return(a->severity == b->severity && same_text(a->reason,b->reason) && same_text(a->description,b->description));
}

static const char *show(const event *e)
{
  static char text[4][64];
  static int k;
  k=(k+1)%4;
  snprintf(text[k],64,"%d/%s/%s",e->severity,e->reason ? e->reason : "-",e->description ? e->description : "-");
  return(text[k]);
}

static void add(pending *p,const event *e)
{
  if (p->n != 0 && same_event(p->list+p->n-1,e))
    return;
  if (p->n < MAX)
    p->list[p->n++]=*e;
}

static void inspect(const ExceptionInfo *x,const pending *p,int which)
{
  int want=p->n != 0 ? p->list[p->n-1].severity : UndefinedException;
  MC_CHECK((int) GetExceptionSeverity(x) == want,"exception %d has severity %d instead of %d",which,
    (int) GetExceptionSeverity(x),want);
}

static int handlers;            /* bit per class: a handler is set */

static void caught(ExceptionInfo *x,pending *p,int which)
{
  int i,k=0;
  seen_n=0;
  CatchException(x);
  for (i=0; i < p->n; i++)
  {
    int c=class_of(p->list[i].severity);
    if (c == 0 || !(handlers >> c & 1))
      continue;
    MC_CHECK(k < seen_n,"exception %d: %s was not delivered",which,show(p->list+i));
    MC_CHECK(same_event(seen+k,p->list+i),"exception %d: delivered %s instead of %s",which,show(seen+k),
      show(p->list+i));
    MC_CHECK(seen_class[k] == c,"exception %d: %s was delivered to the handler of class %d",which,
      show(p->list+i),seen_class[k]);
    k++;
  }
  MC_CHECK(k == seen_n,"exception %d: %s was delivered in addition",which,show(seen+k));
  p->n=0;
}

static void sequences(void)
{
  ExceptionInfo *x[2];
  pending model[2];
  int depth=mc_thorough() ? 6 : 5,full=mc_thorough() ? 8 : 7,i,op,which;
  switch (mc_choose(3,"handlers"))
  {
    case 0: handlers=14; break;
    case 1: handlers=2; break;
    default: handlers=12; break;
  }
  if (handlers != 14)
    depth--;
  SetWarningHandler(handlers & 2 ? on_warning : NULL);
  SetErrorHandler(handlers & 4 ? on_error : NULL);
  SetFatalErrorHandler(handlers & 8 ? on_fatal : NULL);
  memset(&model,0,sizeof(model));
  x[0]=AcquireExceptionInfo();
  x[1]=AcquireExceptionInfo();
  for (i=0; i < depth; i++)
  {
    which=mc_choose(2,"object");
    op=mc_choose(full+5,"call");
    if (op < full)
      {
        mc_note("throw %s into %d\n",show(thrown+op),which);
        MC_CHECK(ThrowException(x[which],thrown[op].severity,thrown[op].reason,thrown[op].description) != WizardFalse,
          "throwing failed");
        add(model+which,thrown+op);
      }
    else
      switch (op-full)
      {
        case 0:
        {
          int k;
          pending copy=model[1-which];
          mc_note("%d inherits from %d\n",which,1-which);
          InheritException(x[which],x[1-which]);
          for (k=0; k < copy.n; k++)
            add(model+which,copy.list+k);
          break;
        }
        case 1:
          mc_note("%d inherits from itself\n",which);
          InheritException(x[which],x[which]);
          /* nothing is new */
          break;
        case 2:
          mc_note("clear %d\n",which);
          ClearWizardException(x[which]);
          model[which].n=0;
          break;
        case 3:
          mc_note("catch %d\n",which);
          caught(x[which],model+which,which);
          break;
        default:
          mc_note("destroy %d\n",which);
          MC_CHECK(DestroyExceptionInfo(x[which]) == NULL,"destroying returned something");
          x[which]=AcquireExceptionInfo();
          model[which].n=0;
          break;
      }
    inspect(x[0],model,0);
    inspect(x[1],model+1,1);
    mc_transition();
  }
  if (model[0].n+model[1].n > 1)
    mc_nontrivial();
  mc_observe_int(model[0].n*MAX+model[1].n);
  caught(x[0],model,0);
  inspect(x[0],model,0);
  caught(x[1],model+1,1);
  inspect(x[1],model+1,1);
  caught(x[1],model+1,1);
  DestroyExceptionInfo(x[0]);
  DestroyExceptionInfo(x[1]);
}

/* every pair of severities, so that each has its class */
static void severities(void)
{
  static const int all[]={ UndefinedException,WarningException,OptionWarning,RandomWarning,HashWarning,MACWarning,
    EntropyWarning,ConfigureWarning,CipherWarning,KeymapWarning,AuthenticateWarning,KeyringWarning,ParseWarning,
    UserWarning,SplayTreeWarning,HashmapWarning,LogWarning,StringWarning,FileWarning,BlobWarning,ResourceWarning,
    ErrorException,OptionError,RandomError,HashError,MACError,EntropyError,ConfigureError,CipherError,KeymapError,
    AuthenticateError,KeyringError,ParseError,UserError,SplayTreeError,HashmapError,LogError,StringError,FileError,
    BlobError,ResourceError,FatalErrorException,OptionFatalError,RandomFatalError,HashFatalError,MACFatalError,
    EntropyFatalError,ConfigureFatalError,CipherFatalError,KeymapFatalError,AuthenticateFatalError,
    KeyringFatalError,ParseFatalError,UserFatalError,SplayTreeFatalError,HashmapFatalError,LogFatalError,
    StringFatalError,FileFatalError,BlobFatalError,ResourceFatalError };
  int n=sizeof(all)/sizeof(*all),i,j;
  ExceptionInfo *x=AcquireExceptionInfo();
  pending model;
  handlers=14;
  SetWarningHandler(on_warning);
  SetErrorHandler(on_error);
  SetFatalErrorHandler(on_fatal);
  i=mc_choose(n,"first severity");
  for (j=0; j < n; j++)
  {
    event a={ all[i],"first",NULL },b={ all[j],"second","x" },c={ all[i],"third",NULL };
    model.n=0;
    add(&model,&a);
    add(&model,&b);
    add(&model,&c);
    ThrowException(x,all[i],"first",NULL);
    ThrowException(x,all[j],"second","x");
    ThrowException(x,all[i],"third",NULL);
    inspect(x,&model,0);
    caught(x,&model,0);
    inspect(x,&model,0);
  }
  DestroyExceptionInfo(x);
  mc_nontrivial();
}

static WarningHandler first_warning;
static ErrorHandler first_error;
static FatalErrorHandler first_fatal;

/* what the default handlers write */
static void defaults(void)
{
  static const event pool[]={ { OptionWarning,"a",NULL },{ OptionError,"b","d" },{ OptionWarning,NULL,NULL },
    { OptionError,NULL,"d" },{ HashWarning,"a 100%s","50%n" },{ OptionError,"","" } };
  ExceptionInfo *x=AcquireExceptionInfo();
  FILE *real=stderr;
  char *text=NULL,want[512]="";
  size_t n=0;
  pending model;
  int i,k;
  model.n=0;
  for (i=0; i < 4; i++)
  {
    k=mc_choose(7,"exception");
    if (k == 6)
      break;
    ThrowException(x,pool[k].severity,pool[k].reason,pool[k].description);
    add(&model,pool+k);
  }
  for (i=0; i < model.n; i++)
    if (model.list[i].reason != NULL)
      {
        snprintf(want+strlen(want),sizeof(want)-strlen(want),"%s: %s",GetClientName(),model.list[i].reason);
        if (model.list[i].description != NULL)
          snprintf(want+strlen(want),sizeof(want)-strlen(want)," (%s)",model.list[i].description);
        strcat(want,".\n");
      }
  SetWarningHandler(first_warning);
  SetErrorHandler(first_error);
  stderr=open_memstream(&text,&n);
  CatchException(x);
  fclose(stderr);
  stderr=real;
  MC_CHECK(strcmp(text,want) == 0,"the handlers wrote \"%s\" instead of \"%s\"",text,want);
  free(text);
  DestroyExceptionInfo(x);
  mc_nontrivial();
}

/* without a handler of its own a program ends at the first fatal error */
static void fatal(void)
{
  static const event pool[]={ { OptionWarning,"a",NULL },{ OptionError,"b","d" },{ ResourceFatalError,"c",NULL },
    { BlobFatalError,"d","100%s" },{ FatalErrorException,NULL,"d" },{ OptionFatalError,"","" },
    { FatalErrorException,"e","f" } };
  ExceptionInfo *x=AcquireExceptionInfo();
  char text[512],want[512]="";
  pending model;
  int i,k,pipes[2],status,ends=0;
  size_t n=0;
  ssize_t count;
  pid_t pid;
  model.n=0;
  for (i=0; i < 3; i++)
  {
    k=mc_choose(8,"exception");
    if (k == 7)
      break;
    ThrowException(x,pool[k].severity,pool[k].reason,pool[k].description);
    add(&model,pool+k);
  }
  for (i=0; i < model.n && !ends; i++)
    if (model.list[i].reason != NULL)
      {
        snprintf(want+strlen(want),sizeof(want)-strlen(want),"%s: %s",GetClientName(),model.list[i].reason);
        if (model.list[i].description != NULL)
          snprintf(want+strlen(want),sizeof(want)-strlen(want)," (%s)",model.list[i].description);
        strcat(want,".\n");
        ends=class_of(model.list[i].severity) == 3;
      }
  MC_CHECK(pipe(pipes) == 0,"no pipe");
  fflush(NULL);
  pid=fork();
  if (pid == 0)
    {
      dup2(pipes[1],2);
      close(pipes[0]);
      SetWarningHandler(first_warning);
      SetErrorHandler(first_error);
      SetFatalErrorHandler(first_fatal);
      CatchException(x);
      _exit(0);
    }
  close(pipes[1]);
  while ((count=read(pipes[0],text+n,sizeof(text)-1-n)) > 0)
    n+=count;
  text[n]='\0';
  close(pipes[0]);
  waitpid(pid,&status,0);
  MC_CHECK(strcmp(text,want) == 0,"the handlers wrote \"%s\" instead of \"%s\"",text,want);
  MC_CHECK(WIFEXITED(status),"the process ends with status %x",status);
  MC_CHECK(ends == (WEXITSTATUS(status) != 0),"the process %s at a fatal error (exit status %d)",
    ends ? "does not end" : "ends without",WEXITSTATUS(status));
  DestroyExceptionInfo(x);
  if (ends)
    mc_nontrivial();
}

static char whole[4*WizardPathExtent];

static void on_whole(const ExceptionType s,const char *r,const char *d)
{
  (void) s;
  (void) d;
  snprintf(whole,sizeof(whole),"%s",r == NULL ? "(none)" : r);
}

/* formatted messages up to and beyond the room for them */
static void formatted(void)
{
  static char text[3*WizardPathExtent],want[4*WizardPathExtent];
  ExceptionInfo *x=AcquireExceptionInfo();
  int severity=mc_choose(3,"severity"),around=mc_choose(3,"length"),i,n;
  severity=severity == 0 ? OptionWarning : severity == 1 ? OptionError : OptionFatalError;
  SetWarningHandler(on_whole);
  SetErrorHandler(on_whole);
  SetFatalErrorHandler(on_whole);
  for (i=-60; i < 60; i++)
  {
    n=around == 0 ? i+60 : around == 1 ? WizardPathExtent+i : 2*WizardPathExtent+i;
    memset(text,'x',n);
    text[n]='\0';
    ThrowWizardException(x,"module.c","Function",(size_t) 77,severity,"<%s>%d",text,5);
    snprintf(want,sizeof(want),"<%s>5 @ module.c/Function/77",text);
    MC_CHECK((int) GetExceptionSeverity(x) == severity,"severity %d instead of %d",(int) GetExceptionSeverity(x),
      severity);
    *whole='\0';
    CatchException(x);
    if (strlen(want) < WizardPathExtent)
      MC_CHECK(strcmp(whole,want) == 0,"a reason of %d characters reads \"%s\"",n,whole);
    else
      MC_CHECK(strlen(whole) < WizardPathExtent && strncmp(whole,want,WizardPathExtent-40) == 0,
        "a reason of %d characters is not its beginning",n);
  }
  DestroyExceptionInfo(x);
  mc_nontrivial();
}

static void messages(void)
{
  int i;
  for (i=0; i < 140; i++)
  {
    char *m=GetExceptionMessage(i);
    MC_CHECK(strcmp(m,strerror(i)) == 0,"error %d reads \"%s\" instead of \"%s\"",i,m,strerror(i));
    DestroyString(m);
  }
}

static void body(void)
{
  if (first_warning == NULL)
    {
      first_warning=SetWarningHandler(NULL);
      first_error=SetErrorHandler(NULL);
      first_fatal=SetFatalErrorHandler(NULL);
    }
  switch (mc_choose(6,"part"))
  {
    case 0: sequences(); break;
    case 1: severities(); break;
    case 2: defaults(); break;
    case 3: formatted(); break;
    case 4: fatal(); break;
    default: messages(); break;
  }
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C09", .name="exception_seq",
    .rule="every sequence of throws, inheritances, clears, catches and destructions on two objects up to the depth "
      "bound, every pair of severities; non-trivial when exceptions are pending at the end",
    .body=body
  };
  return(mc_main(argc,argv,&h));
}

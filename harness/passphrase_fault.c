/*
  Asking for a passphrase: what is typed is what is returned, and the terminal and
  the signals are left as they were, whatever interrupts it.
*/
#include "common.h"
#include "wizard/passphrase.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <termios.h>
#include <unistd.h>

#define TTY 900
#define LINES 6

static const int interrupts[]={ SIGINT,SIGTSTP,SIGTTOU,SIGTTIN,SIGALRM,SIGPIPE };
#define SIGNALS 6

static struct termios terminal,before;
static struct sigaction disposition[65],disposition_before[65];
static int is_open,opened,active,handled[65],arrived,last_arrived,ended,failed,stops,user,restarts,others;
static char *line[LINES+1];
static int at_line,at_char,lines,served,any_error;
static int this_line;       /* the line typed since the last prompt */
static char prompt[200];
static jmp_buf end;

static void by_user(int s)
{
  handled[s]++;
}

/* what the kernel does with a signal */
static void deliver(int s)
{
  struct sigaction *a=disposition+s;
  if (a->sa_handler == SIG_IGN)
    return;
  if (a->sa_handler != SIG_DFL)
    {
      a->sa_handler(s);
      return;
    }
  if (s == SIGTSTP || s == SIGTTOU || s == SIGTTIN)
    {
      /* the process stops, the shell has the terminal, the process goes on */
      stops++;
      MC_CHECK(memcmp(&terminal,&before,sizeof(before)) == 0,"the terminal is changed while the process is stopped");
      return;
    }
  ended=s;
  longjmp(end,1);
}

/* a signal may arrive before a call; it may also interrupt it */
static int interrupted(const char *what,int can_fail)
{
  int k;
  if (!active)
    return(0);
  k=mc_deviate(1+SIGNALS*(1+can_fail),what);
  if (k == 0)
    return(0);
  last_arrived=interrupts[(k-1)%SIGNALS];
  /* the terminal of a background process stays with the others */
  if (k > SIGNALS && last_arrived == SIGTTOU && strcmp(what,"tcsetattr") == 0)
    mc_skip();
  arrived++;
  others+=last_arrived != SIGTSTP && last_arrived != SIGTTOU && last_arrived != SIGTTIN;
  mc_note("signal %d at %s%s\n",last_arrived,what,k > SIGNALS ? ", which fails" : "");
  deliver(last_arrived);
  if (k <= SIGNALS)
    return(0);
  errno=EINTR;
  return(1);
}

static int tty_open(const char *path,int flags,int mode)
{
  if (!active || strcmp(path,"/dev/tty") != 0)
    return(open(path,flags,mode));
  if (mc_deviate(2,"no terminal"))
    {
      failed=1;
      errno=ENXIO;
      return(-1);
    }
  MC_CHECK(!is_open,"the terminal is opened again");
  is_open=1;
  opened++;
  return(TTY);
}

int seam_open(const char *path,int flags,...)
{
  va_list list;
  int mode;
  va_start(list,flags);
  mode=va_arg(list,int);
  va_end(list);
  return(tty_open(path,flags,mode));
}

int seam_open64(const char *path,int flags,...)
{
  va_list list;
  int mode;
  va_start(list,flags);
  mode=va_arg(list,int);
  va_end(list);
  return(tty_open(path,flags,mode));
}

int seam_close(int fd)
{
  if (!active || fd != TTY)
    return(close(fd));
  MC_CHECK(is_open,"the terminal is closed twice");
  is_open=0;
  return(0);
}

ssize_t seam_write(int fd,const void *data,size_t n)
{
  if (!active || (fd != TTY && fd != STDERR_FILENO))
    return(write(fd,data,n));
  if (fd == STDERR_FILENO)
    return(n);
  MC_CHECK(is_open,"a write to a closed terminal");
  if (n > 1)
    {
      /* a prompt: the user types a line */
      at_char=0;
      if (served++ > 0 && n == strlen(prompt) && memcmp(prompt,data,n) == 0)
        at_line=this_line;           /* asked again */
      this_line=at_line;
      snprintf(prompt,sizeof(prompt),"%.*s",(int) n,(const char *) data);
      mc_note("prompt for line %d\n",at_line);
    }
  if (interrupted("write",1))
    return(-1);
  return(n);
}

ssize_t seam_read(int fd,void *data,size_t n)
{
  char c;
  if (!active || fd != TTY)
    return(read(fd,data,n));
  MC_CHECK(is_open,"a read from a closed terminal");
  MC_CHECK((terminal.c_lflag & ECHO) == 0 || (before.c_lflag & ECHO) == 0 || arrived,"what is typed is shown");
  if (at_char < 2 || strlen(line[at_line]+at_char) < 2)
    {
      if (interrupted("read",1))
        return(-1);
      if (mc_deviate(2,"read error"))
        {
          mc_note("the read fails\n");
          any_error=1;
          errno=EIO;
          return(-1);
        }
    }
  c=line[at_line][at_char];
  if (c == '\0')
    {
      /* end of input */
      if (at_line < lines)
        at_line++;
      at_char=0;
      return(0);
    }
  at_char++;
  *(char *) data=c;
  if (c == '\n' || c == '\r')
    {
      if (at_line < lines)
        at_line++;
      at_char=0;
    }
  return(1);
}

int seam_tcgetattr(int fd,struct termios *t)
{
  if (!active || fd != TTY)
    return(tcgetattr(fd,t));
  *t=terminal;
  return(0);
}

int seam_tcsetattr(int fd,int how,const struct termios *t)
{
  if (!active || fd != TTY)
    return(tcsetattr(fd,how,t));
  MC_CHECK(is_open,"settings of a closed terminal");
  if (interrupted("tcsetattr",1))
    return(-1);
  terminal=*t;
  return(0);
}

int seam_sigaction(int s,const struct sigaction *a,struct sigaction *old)
{
  if (!active)
    return(sigaction(s,a,old));
  if (old != NULL)
    *old=disposition[s];
  if (a != NULL)
    disposition[s]=*a;
  return(0);
}

typedef void (*handler)(int);

handler seam_signal(int s,handler h)
{
  handler old=disposition[s].sa_handler;
  if (!active)
    return(signal(s,h));
  memset(disposition+s,0,sizeof(*disposition));
  disposition[s].sa_handler=h;
  return(old);
}

int seam_kill(pid_t pid,int s)
{
  if (!active || pid != getpid())
    return(kill(pid,s));
  mc_note("signal %d raised\n",s);
  restarts++;
  deliver(s);
  return(0);
}

int seam_raise(int s)
{
  return(seam_kill(getpid(),s));
}

static void restored(const char *when)
{
  int s;
  MC_CHECK(memcmp(&terminal,&before,sizeof(before)) == 0,"the terminal is not restored %s",when);
  for (s=1; s < 65; s++)
    MC_CHECK(disposition[s].sa_handler == disposition_before[s].sa_handler,
      "the handler of signal %d is not restored %s",s,when);
}

static char *typed(int which)
{
  static const char *const few[]={ "\n","a\n","ab\n","A\r","a\xe4 z\n","a" };
  int n;
  char *p;
  if (which < 6)
    return(strdup(few[which]));
  n=which == 6 ? 4094 : which == 7 ? 4095 : which == 8 ? 4096 : 5000;
  p=malloc(n+2);
  memset(p,'x',n);
  p[n]='\n';
  p[n+1]='\0';
  return(p);
}

/* a line without its end, and what of it fits */
static size_t content(const char *p)
{
  size_t n=strcspn(p,"\r\n");
  return(n > WizardPathExtent-1 ? WizardPathExtent-1 : n);
}

static int same_line(const char *a,const char *b)
{
  return(content(a) == content(b) && memcmp(a,b,content(a)) == 0);
}

static void body(void)
{
  ExceptionInfo *exception;
  StringInfo *volatile phrase=NULL;
  int i,kinds,want;
  /* the user types two lines, and two more if they differ */
  user=mc_choose(3,"handlers");
  kinds=mc_choose(2,"lines");
  lines=0;
  for (i=0; i < LINES; i++)
  {
    free(line[i]);
    line[i]=NULL;
  }
  line[lines++]=typed(kinds ? 6+mc_choose(4,"line") : mc_choose(6,"line"));
  line[lines++]=typed(kinds ? 6+mc_choose(4,"line") : mc_choose(6,"line"));
  want=0;
  if (!same_line(line[0],line[1]))
    {
      line[lines++]=typed(mc_choose(3,"line"));
      line[lines++]=typed(mc_choose(3,"line"));
      want=2;
      if (!same_line(line[2],line[3]))
        want=4;
    }
  mc_budget((kinds == 0 && want == 0 ? 2 : 1)+mc_thorough());
  line[lines]=strdup("");      /* then the terminal is at its end */
  memset(&terminal,0,sizeof(terminal));
  terminal.c_lflag=ICANON | ISIG | ECHO | (user == 1 ? ECHONL : 0);
  terminal.c_cc[VMIN]=1;
  before=terminal;
  memset(disposition,0,sizeof(disposition));
  for (i=1; i < 65; i++)
    disposition[i].sa_handler=user == 0 ? SIG_DFL : user == 1 ? by_user : SIG_IGN;
  memcpy(disposition_before,disposition,sizeof(disposition));
  memset(handled,0,sizeof(handled));
  is_open=opened=arrived=last_arrived=ended=failed=stops=at_line=at_char=served=any_error=restarts=others=0;
  exception=AcquireExceptionInfo();
  if (setjmp(end) == 0)
    {
      active=1;
      phrase=GetPassphrase(exception);
    }
  active=0;
  mc_transition();
  if (ended)
    {
      /* only a signal whose handler is the default ends the process, and only with the terminal as it was */
      MC_CHECK(user == 0 && arrived,"signal %d ends the process",ended);
      restored("when a signal ends the process");
      mc_nontrivial();
      mc_observe_int(1000+ended);
      return;
    }
  MC_CHECK(!is_open,"the terminal stays open");
  restored("afterwards");
  if (phrase == NULL)
    {
      /* a process that was stopped asks again */
      MC_CHECK(failed || any_error || others,"no passphrase is returned");
      MC_CHECK(GetExceptionSeverity(exception) >= ErrorException,"no passphrase is returned and nothing is reported");
      mc_observe_int(arrived*100+any_error);
    }
  else
    {
      size_t n=GetStringInfoLength(phrase);
      unsigned char *p=GetStringInfoDatum(phrase);
      int good=0;
      MC_CHECK(!failed,"there is no terminal but a passphrase");
      /* what is returned was typed twice in a row */
      for (i=0; i+1 < lines+1 && !good; i++)
        if (n == content(line[i]) && memcmp(p,line[i],n) == 0)
          {
            if (i+1 <= lines && same_line(line[i],line[i+1]))
              good=1;
            if (i == lines-0)
              good=1;
          }
      if (n == 0 && at_line >= lines)
        good=1;
      MC_CHECK(good,"a passphrase of %zu bytes is returned that was not typed twice",n);
      if (!arrived && !any_error)
        MC_CHECK(n == content(line[want]) && memcmp(p,line[want],n) == 0,
          "a passphrase of %zu bytes is returned instead of one of %zu",n,content(line[want]));
      mc_observe(p,n);
      mc_nontrivial();
      phrase=DestroyStringInfo(phrase);
    }
  if (arrived)
    {
      /* who waits for the signal gets it */
      MC_CHECK(user != 1 || handled[last_arrived] > 0 || restarts > 0,"signal %d is lost",last_arrived);
      mc_observe_int(handled[last_arrived]);
    }
  DestroyExceptionInfo(exception);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C55", .name="passphrase_fault",
    .rule="every pair of ten lines typed, and again when they differ, with every signal, failure or end of input at every "
      "call up to the bound; non-trivial when a passphrase was returned or a signal ended the process",
    .body=body, .time_cap=420
  };
  return(mc_main(argc,argv,&h));
}

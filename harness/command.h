/*
  Running the commands inside the harness.
*/
#include "common.h"
#include "simfs.h"
#include <errno.h>
#include <setjmp.h>
#include <stdarg.h>
#include <unistd.h>

extern int encipher_main(int,char **),decipher_main(int,char **),digest_main(int,char **);

#define PLAIN "/sim/plain"
#define CIPHER "/sim/cipher"
#define AGAIN "/sim/again"
#define RING "/sim/ring"
#define PHRASE "/sim/phrase"

static jmp_buf command_end;
static volatile int command_running,command_status;

/* a command may end itself with a fatal error; that is an exit status like another */
void __attribute__((noreturn)) exit(int status)
{
  if (command_running)
    {
      command_status=status & 255;
      longjmp(command_end,1);
    }
  fflush(NULL);
  _exit(status);
}

/* runs a command with arguments up to NULL; returns its exit status */
static int command(int (*run)(int,char **),const char *name,...)
{
  char *argv[64],text[400];
  volatile int argc=0;
  int i,status;
  const char *s;
  va_list list;
  argv[argc++]=strdup(name);
  va_start(list,name);
  while ((s=va_arg(list,const char *)) != NULL && argc < 63)
    if (*s)
      argv[argc++]=strdup(s);
  va_end(list);
  argv[argc]=NULL;
  for (*text='\0', i=0; i < argc; i++)
    snprintf(text+strlen(text),sizeof(text)-strlen(text),"%s ",argv[i]);
  mc_note("%s\n",text);
  errno=0;
  command_running=1;
  if (setjmp(command_end) == 0)
    command_status=run(argc,argv);
  command_running=0;
  status=command_status;
  mc_note("  -> %d\n",status);
  for (i=0; i < argc; i++)
    free(argv[i]);
  mc_transition();
  return(status);
}

static void command_reset(void)
{
  sim_reset();
  sim_put("/sim/home/x","",0);
  sim_put(PHRASE,"open sesame\n",12);
}

static void command_init(void)
{
  stderr=fopen(getenv("CMD_ERR") ? getenv("CMD_ERR") : "/dev/null","w");
  setenv("WIZARD_HOME","/sim/home",1);
  command_reset();
}

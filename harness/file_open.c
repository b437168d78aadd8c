/*
  Opening and removing files of the home folder while system calls fail: a
  file is open and locked, or nothing is left behind.
*/
#include "common.h"
#include "simfs.h"
#include <errno.h>
#include <sys/stat.h>

int seam_mkdir(const char *,mode_t),seam_stat(const char *,struct stat *);

static unsigned char bytes[40];
static int calls,unlocks,stats,removes,closes;
static char path[300];

static void hook(const sim_call *c,sim_answer *a)
{
  int n=2;
  if (++calls > 3000)
    mc_fail("the call does not end");
  switch (c->op)
  {
    case SIM_SLEEP: case SIM_KILL: return;
    case SIM_READ: case SIM_WRITE: n=c->size > 1 ? 4 : 3; break;
    default: break;
  }
  switch (mc_deviate(n,sim_op_name[c->op]))
  {
    case 0: return;
    case 1: a->error=c->op == SIM_WRITE ? ENOSPC : c->op == SIM_OPEN ? EMFILE : EIO; break;
    case 2: a->error=EINTR; break;
    case 3: a->limit=c->size-1; break;
  }
  if (c->op == SIM_UNLINK)
    {
      if (strcmp(c->path,path) != 0)
        unlocks++;
      else
        removes++;
    }
  if (c->op == SIM_STAT)
    stats++;
  if (c->op == SIM_CLOSE && strcmp(c->path,path) == 0)
    closes++;
  mc_note("  %s %s %zu: %s\n",sim_op_name[c->op],c->path,c->size,
    a->error ? strerror(a->error) : "short");
}

static void set(const char *name,const char *value)
{
  if (value)
    setenv(name,value,1);
  else
    unsetenv(name);
}

static int is(const char *path,const unsigned char *data,size_t n)
{
  size_t have;
  const unsigned char *found=sim_get(path,&have);
  return(data ? found && have == n && memcmp(found,data,n) == 0 : found == NULL);
}

/* only the owner may read what was made */
static void private(int i)
{
  struct stat s;
  if (seam_stat(sim_name(i),&s) == 0)
    MC_CHECK((s.st_mode & 077) == 0,"%s can be read by others (mode %o)",sim_name(i),s.st_mode & 0777);
}

/* files other than the one opened and its folder */
static int locks(void)
{
  int i,n=0;
  for (i=0; i < sim_files(); i++)
  {
    private(i);
    n+=strstr(sim_name(i),".lck") != NULL;
  }
  return(n);
}

static void body(void)
{
  static const char *homes[3][3]=
  {
    { NULL,"/sim/wizard","/sim/a b" },
    { NULL,"/sim/home","/sim/h" },
    { NULL,"/sim/user","/sim/u" }
  };
  ExceptionInfo *exception=AcquireExceptionInfo();
  FileInfo *file,*other;
  const char *relative="file",*given=NULL;
  size_t had=0;
  int i,w,h,u,mode,present,end,status;
  unsigned char back[40];
  char *old=getenv("HOME") ? strdup(getenv("HOME")) : NULL,
    *wizard=getenv("WIZARD_HOME") ? strdup(getenv("WIZARD_HOME")) : NULL;
  sim_reset();
  mc_budget(mc_thorough() ? 4 : 3);
  w=mc_choose(3,"WIZARD_HOME");
  h=mc_choose(w ? 2 : 3,"HOME");
  u=mc_choose(w || h ? 2 : 3,"USERPROFILE");
  if (mc_choose(2,"path given"))
    given="/sim/given/x.data";
  mode=mc_choose(3,"mode");
  present=mc_choose(3,"file");
  *path='\0';
  if (given)
    strcpy(path,given);
  else
    {
      if (w)
        sprintf(path,"%s/",homes[0][w]);
      else
        if (h || u)
          sprintf(path,"%s/.wizard/",h ? homes[1][h] : homes[2][u]);
        else
          relative="/sim/alone";
      strcat(path,relative);
    }
  for (i=0; i < 9; i++)
    if (homes[i/3][i % 3])
      seam_mkdir(homes[i/3][i % 3],0700);
  seam_mkdir("/sim/given",0700);
  if (present)
    {
      had=present == 1 ? 0 : 20;
      sim_put(path,bytes,had);
    }
  set("WIZARD_HOME",homes[0][w]);
  set("HOME",homes[1][h]);
  set("USERPROFILE",homes[2][u]);
  mc_note("open %s for %s\n",path,mode == 0 ? "reading" : mode == 1 ? "writing" : "nothing");
  calls=unlocks=stats=removes=closes=0;
  sim_hook=hook;
  file=AcquireFileInfo(given,relative,mode == 0 ? ReadFileMode : mode == 1 ? WriteFileMode :
    (FileMode) 77,exception);
  sim_hook=NULL;
  set("WIZARD_HOME",wizard);
  set("HOME",old);
  unsetenv("USERPROFILE");
  mc_transition();
  mc_observe_int(file != NULL);
  if (mc_deviations() == 0)
    MC_CHECK((file != NULL) == (mode == 1 || (mode == 0 && present)),"the file is %sopened",
      file ? "" : "not ");
  if (!file)
    {
      MC_CHECK(sim_open_descriptors() == 0,"a descriptor is left open");
      MC_CHECK(unlocks || locks() == 0,"a lock is left behind");
      if (present)
        MC_CHECK(is(path,bytes,had),"the file was changed");
      else
        MC_CHECK(is(path,NULL,0) || mode == 1,"a file was made");
      if (mc_deviations())
        mc_nontrivial();
    }
  else
    {
      MC_CHECK(strcmp(GetFilePath(file),path) == 0,"the path is %s",GetFilePath(file));
      MC_CHECK(GetFileDescriptor(file) >= 0,"there is no descriptor");
      MC_CHECK(mode == 1 || (mode == 0 && present),"what cannot be opened is open");
      MC_CHECK(is(path,bytes,had),"the file was changed by opening it");
      MC_CHECK(locks() == 1,"there is no lock");
      if (!stats)
        MC_CHECK((size_t) GetFileProperties(file)->st_size == had,"the size is given as %ld",
          (long) GetFileProperties(file)->st_size);
      end=mc_choose(4,"then");
      if (end & 1)
        {
          /* the file works */
          if (mode == 1)
            {
              MC_CHECK(WriteFileChunk(file,bytes+20,7) != WizardFalse,"writing fails");
                }
          else
            MC_CHECK(ReadFileChunk(file,back,had) != WizardFalse && memcmp(back,bytes,had) == 0,
              "reading fails");
        }
      if (end & 2)
        {
          calls=removes=closes=0;
          mc_note("remove\n");
          sim_hook=hook;
          status=DestroyFile(file,exception);
          sim_hook=NULL;
          mc_transition();
          MC_CHECK(!!status == !(closes || removes),"removing reports %s",
            status ? "success" : "failure");
          MC_CHECK(!status || is(path,NULL,0),"the file is still there");
          MC_CHECK(status || !is(path,NULL,0),"the file is gone");
          if (!status)
            mc_nontrivial();
          /* another file is not touched by the end of this one */
          other=AcquireFileInfo("/sim/other","x",WriteFileMode,exception);
          MC_CHECK(other != NULL,"another file cannot be opened");
          unlocks=0;
          sim_hook=hook;
          DestroyFileInfo(file,exception);
          sim_hook=NULL;
          MC_CHECK(WriteFileChunk(other,bytes,9) != WizardFalse && is("/sim/other",bytes,9),
            "another file cannot be written any more");
          DestroyFileInfo(other,exception);
          sim_remove("/sim/other");
        }
      else
        {
          unlocks=0;
          sim_hook=hook;
          DestroyFileInfo(file,exception);
          sim_hook=NULL;
          if (end == 0)
            MC_CHECK(is(path,bytes,had),"the file was changed by closing it");
          else
            if (mode == 1)
              {
                unsigned char want[40];
                memcpy(want,bytes,20);
                memcpy(want,bytes+20,7);
                MC_CHECK(is(path,want,had > 7 ? had : 7),"the file is wrong after closing it");
              }
        }
      mc_transition();
      MC_CHECK(sim_open_descriptors() == 0,"a descriptor is left open at the end");
      MC_CHECK(unlocks || locks() == 0,"a lock is left behind at the end");
      mc_nontrivial();
    }
  free(old);
  free(wizard);
  DestroyExceptionInfo(exception);
  mc_observe_int(sim_files()*100+mc_deviations());
}

static void init(void)
{
  fill(bytes,sizeof(bytes),6);
  sim_reset();
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C57", .name="file_open",
    .rule="every environment, path, mode and size of the file; opening, using, removing and "
      "closing with up to 3 (4) failing calls; non-trivial: a file opened or refused by a fault",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

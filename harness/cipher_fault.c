/*
  The commands while system calls fail.
*/
#include "command.h"

#define REPORT "/sim/report"
#define LIST "/sim/list"

static unsigned char plain[200];
static int calls;

static void hook(const sim_call *c,sim_answer *a)
{
  int kind=0,n=2;
  if (++calls > 20000)
    mc_fail("the command does not end");
  switch (c->op)
  {
    case SIM_READ: n=c->size > 1 ? 4 : 3; break;
    case SIM_WRITE: n=c->size > 1 ? 5 : 3; break;
    case SIM_SLEEP: case SIM_KILL: case SIM_MKDIR: return;
    default: break;
  }
  kind=mc_deviate(n,sim_op_name[c->op]);
  if (kind == 0)
    return;
  if (kind == 1)
    a->error=c->op == SIM_WRITE ? ENOSPC : c->op == SIM_OPEN ? EMFILE : EIO;
  if (kind == 2)
    a->error=EINTR;
  if (kind == 3)
    a->limit=1;
  if (kind == 4)
    a->limit=c->size-1;
  mc_note("  %s %s %zu: %s\n",sim_op_name[c->op],c->path,c->size,
    kind == 1 ? "fails" : kind == 2 ? "interrupted" : kind == 3 ? "one byte" : "one byte less");
}

static const char *const modes[]={ "CTR","CBC","CFB" };
static const char *mode,*separate;

static int encipher(void)
{
  return(command(encipher_main,"encipher","-passphrase",PHRASE,"-keyring",RING,"-mode",mode,"-chunksize",
    "64","-entropy","ZIP",*separate ? "-properties" : "",separate,PLAIN,CIPHER,NULL));
}

static int decipher(void)
{
  return(command(decipher_main,"decipher","-passphrase",PHRASE,"-keyring",RING,
    *separate ? "-properties" : "",separate,CIPHER,AGAIN,NULL));
}

static int digest(void)
{
  return(command(digest_main,"digest",PLAIN,PHRASE,LIST,NULL));
}

static int authenticate(void)
{
  return(command(digest_main,"digest","-authenticate",LIST,REPORT,NULL));
}

static void same_file(const char *path,const void *data,size_t n,const char *what)
{
  size_t m=0;
  unsigned char *p=sim_get(path,&m);
  MC_CHECK(p != NULL,"%s is missing although the command succeeds",what);
  MC_CHECK(m == n && memcmp(p,data,n) == 0,
    "%s is wrong although the command succeeds (%zu bytes, %zu expected)",what,m,n);
}

/* the dates of a file that cannot be queried are unknown */
static void without_dates(unsigned char *p,size_t n)
{
  size_t i;
  for (i=0; i+12 < n; i++)
    if (memcmp(p+i,"-date>",6) == 0 && p[i+6] != '\n')
      for (i+=6; i < n && p[i] != '<'; i++)
        p[i]='?';
}

static void body(void)
{
  int which=mc_choose(5,"command"),status;
  size_t n=0,m=0;
  unsigned char *expect=NULL,*again,*p;
  mode=modes[mc_choose(which < 2 ? 3 : 1,"mode")];
  separate=which < 2 && mc_choose(2,"properties") ? "/sim/properties" : "";
  command_reset();
  sim_put(PLAIN,plain,sizeof(plain));
  switch (which)        /* what was done before, without failures */
  {
    case 1:
      MC_CHECK(encipher() == 0,"encipher fails");
      break;
    case 2:
      MC_CHECK(digest() == 0,"digest fails");
      p=sim_get(LIST,&n);
      expect=malloc(n);
      memcpy(expect,p,n);
      sim_remove(LIST);
      break;
    case 3: case 4:
      MC_CHECK(digest() == 0,"digest fails");
      if (which == 4)
        sim_put(PLAIN,plain+1,sizeof(plain)-1);
      status=authenticate();
      p=sim_get(REPORT,&n);
      MC_CHECK(p != NULL,"there is no report");
      expect=malloc(n+1);
      memcpy(expect,p,n);
      sim_remove(REPORT);
      break;
    default:
      break;
  }
  if (mc_choose(2,"old output"))
    sim_put(which == 0 ? CIPHER : which == 1 ? AGAIN : which == 2 ? LIST : REPORT,plain,150);
  mc_budget(mc_thorough() ? 2 : 1);
  calls=0;
  sim_hook=hook;
  status=which == 0 ? encipher() : which == 1 ? decipher() : which == 2 ? digest() : authenticate();
  sim_hook=NULL;
  mc_observe_int(calls);
  mc_observe_int(status);
  if (mc_deviations() == 0)
    MC_CHECK(status == 0 || which == 4,"the command fails without a failing system call");
  if (status == 0)
    switch (which)
    {
      case 0:
        status=decipher();
        MC_CHECK(status == 0,"encipher succeeds but its output is not deciphered");
        same_file(AGAIN,plain,sizeof(plain),"the enciphered content");
        break;
      case 1:
        same_file(AGAIN,plain,sizeof(plain),"the deciphered file");
        break;
      case 2:
        without_dates(expect,n);
        p=sim_get(LIST,&m);
        MC_CHECK(p != NULL,"there is no list of digests");
        again=malloc(m);
        memcpy(again,p,m);
        without_dates(again,m);
        MC_CHECK(m == n && memcmp(expect,again,n) == 0,
          "the list of digests is wrong although the command succeeds");
        free(again);
        break;
      default:
        same_file(REPORT,expect,n,"the report");
        break;
    }
  free(expect);
  MC_CHECK(sim_open_descriptors() == 0 || status != 0,"a descriptor is left open");
  mc_nontrivial();
}

static void init(void)
{
  fill(plain,sizeof(plain),9);
  memset(plain+64,'a',70);
  command_init();
}

const char *__asan_default_options(void)
{
  return("quarantine_size_mb=1");
}

static const mc_harness h=
{
  .property="C36",.name="cipher_fault",.rule="each command with every failing, interrupted or short system "
    "call at every place",.init=init,.body=body
};

int main(int argc,char **argv)
{
  return(mc_main(argc,argv,&h));
}

/*
  The file layer: every sequence of reads and writes, delivered in any pieces,
  interrupted or failing at any call.
*/
#include "common.h"
#include "simfs.h"
#include <errno.h>

#define BIG 20020

static unsigned char bytes[BIG];
static int failed,calls;

static void hook(const sim_call *c,sim_answer *a)
{
  if (++calls > 4000)
    mc_fail("the call does not end");
  if (c->size == 0)
    return;
  if (c->op == SIM_READ || c->op == SIM_WRITE)
    switch (mc_deviate(c->size > 1 ? 5 : 3,sim_op_name[c->op]))
    {
      case 1:
        mc_note("%s of %zu interrupted\n",sim_op_name[c->op],c->size);
        a->error=EINTR;
        break;
      case 2:
        mc_note("%s of %zu fails\n",sim_op_name[c->op],c->size);
        a->error=c->op == SIM_READ ? EIO : ENOSPC;
        failed=1;
        break;
      case 3:
        mc_note("%s of %zu gives 1\n",sim_op_name[c->op],c->size);
        a->limit=1;
        break;
      case 4:
        mc_note("%s of %zu gives %zu\n",sim_op_name[c->op],c->size,c->size-1);
        a->limit=c->size-1;
        break;
    }
}

static uint64_t little(const unsigned char *p,int n)
{
  uint64_t v=0;
  while (n--)
    v=v << 8 | p[n];
  return(v);
}

static void body(void)
{
  static const size_t sizes[]={ 0,1,3,7,20,BIG-20 };
  static unsigned char expect[5*BIG];
  ExceptionInfo *exception=AcquireExceptionInfo();
  FileInfo *file;
  size_t have,position=0,n;
  int writing,i,ops=mc_thorough() ? 4 : 3,op,status,stale,big;
  unsigned char *buffer;
  const unsigned char *found;
  sim_reset();
  big=mc_choose(2,"large");
  if (big)
    ops=1;
  mc_budget(big || mc_thorough() ? 3 : 2);
  writing=mc_choose(2,"writing");
  have=writing ? 5 : sizes[mc_choose(big ? 6 : 5,"file size")];
  stale=mc_choose(2,"interrupted before") ? EINTR : 0;
  sim_put("/sim/data",bytes,have);
  file=AcquireFileInfo("/sim/data","x",writing ? WriteFileMode : ReadFileMode,exception);
  MC_CHECK(file != NULL,"the file cannot be opened");
  memcpy(expect,bytes,have);
  for (i=0; i < ops; i++)
  {
    unsigned short v16=0x8765;
    size_t v32=0x89abcdef,w32=0;
    WizardSizeType v64=0x8123456789abcdefULL,w64=0;
    unsigned short w16=0;
    op=big ? 0 : mc_choose(writing ? 4 : 5,"call");
    n=op == 0 ? sizes[big ? 5 : mc_choose(5,"length")] : op == 4 ? 1 : (size_t) 1 << op;
    buffer=malloc(n+!n);
    calls=failed=0;
    sim_hook=hook;
    errno=stale;
    if (writing)
      {
        memcpy(buffer,bytes+i+9,n);
        for (int k=0; op && k < (int) n; k++)
          buffer[k]=(op == 1 ? v16 : op == 2 ? v32 : v64) >> 8*k;
        mc_note("write %zu bytes (%d)\n",n,op);
        status=op == 0 ? WriteFileChunk(file,buffer,n) : op == 1 ? WriteFile16Bits(file,v16) :
          op == 2 ? WriteFile32Bits(file,v32) : WriteFile64Bits(file,v64);
        sim_hook=NULL;
        MC_CHECK(status == (failed ? WizardFalse : WizardTrue),"writing %zu bytes reports %s",n,
          status ? "success" : "failure");
        if (failed)
          {
            free(buffer);
            break;
          }
        memcpy(expect+position,buffer,n);
        position+=n;
        if (position > have)
          have=position;
        found=sim_get("/sim/data",&n);
        MC_CHECK(n == have && memcmp(found,expect,n) == 0,"the file is wrong after writing");
      }
    else
      {
        int whole=position+n <= have;
        mc_note("read %zu bytes (%d) at %zu of %zu\n",n,op,position,have);
        status=op == 0 ? ReadFileChunk(file,buffer,n) : op == 1 ? ReadFile16Bits(file,&w16) :
          op == 2 ? ReadFile32Bits(file,&w32) : op == 3 ? ReadFile64Bits(file,&w64) :
          ReadFileByte(file);
        sim_hook=NULL;
        if (op == 4)
          MC_CHECK(whole && !failed ? status == bytes[position] : status == EOF,
            "reading a byte gives %d",status);
        else
          MC_CHECK(status == (whole && !failed ? WizardTrue : WizardFalse),
            "reading %zu bytes at %zu of %zu reports %s",n,position,have,
            status ? "success" : "failure");
        if (!whole || failed)
          {
            free(buffer);
            break;
          }
        if (op == 0)
          MC_CHECK(memcmp(buffer,bytes+position,n) == 0,"wrong bytes read");
        else
          if (op < 4)
            MC_CHECK((op == 1 ? w16 : op == 2 ? w32 : w64) == little(bytes+position,n),
              "wrong %zu byte integer read",n);
        position+=n;
      }
    free(buffer);
    mc_transition();
  }
  sim_hook=NULL;
  DestroyFileInfo(file,exception);
  MC_CHECK(sim_open_descriptors() == 0 && sim_files() == 1,"descriptor or lock left behind");
  DestroyExceptionInfo(exception);
  mc_nontrivial();
  mc_observe_int(position);
  mc_observe_int(have*8+writing*4+mc_deviations());
}

static void init(void)
{
  fill(bytes,BIG,5);
  sim_reset();
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C24", .name="file_seq",
    .rule="every sequence of 3 (4) transfers of each size and width, with up to 2 (3) "
      "interrupted, shortened or failing system calls at any place",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

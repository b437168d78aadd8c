/*
  All interleavings of threads that use a table read from configuration files.

  The including file defines OPS, op_name, tables, TABLES, table_file, load,
  unload and call.
*/
static int op_of[SCHED_THREADS+1][SCHED_OPS],which,fresh;

static void setup(void)
{
  sim_reset();
  sim_put(table_file,tables[which],strlen(tables[which]));
  setenv("WIZARD_CONFIGURE_PATH","/sim/etc",1);
  setenv("HOME","/sim/home",1);
  if (!fresh)
    load();
}

static void op(int thread,int index,char *r)
{
  int k=op_of[thread][index];
  ExceptionInfo *exception=AcquireExceptionInfo();
  SCHED_APPEND(r,"%s ",op_name[k]);
  call(k,r,exception);
  SCHED_APPEND(r," %d",(int) GetExceptionSeverity(exception));
  DestroyExceptionInfo(exception);
}

static void final(char *r)
{
  int k;
  /* the table is as it was */
  ExceptionInfo *exception=AcquireExceptionInfo();
  for (k=0; k < OPS; k++)
    call(k,r,exception);
  DestroyExceptionInfo(exception);
  unload();
}

static void body(void)
{
  sched_program p;
  int i,t,shape,n,last;
  memset(&p,0,sizeof(p));
  shape=mc_choose(3,"shape");
  fresh=mc_choose(2,"not loaded");
  which=mc_choose(TABLES,"table");
  p.sequential=1;
  p.setup=setup;
  p.op=op;
  p.final=final;
  p.threads=shape == 2 ? 3 : 2;
  p.bound=(fresh ? 1 : 2)+mc_thorough()-(shape != 0 && !fresh);
  n=last=0;
  for (t=1; t <= p.threads; t++)
  {
    int code=0;
    p.ops[t-1]=shape == 1 ? 2 : 1;
    for (i=0; i < p.ops[t-1]; i++)
    {
      op_of[t][i]=mc_choose(OPS,"call");
      code=code*OPS+op_of[t][i];
    }
    /* the threads are alike */
    if (code < last)
      mc_skip();
    last=code;
    n=n*OPS*OPS+code;
  }
  p.id=(uint64_t) n*100+shape+3*(fresh+2*which);
  mc_note("table %s%s\n",tables[which],fresh ? ", not loaded" : "");
  sched_explore(&p);
}

/*
  Accounting of resources: plain requests, virtual memory and temporary files.
*/
#include "common.h"
#include "wizard/resource_.h"
#include "simfs.h"

extern WizardSizeType GetWizardResourceLimit(const ResourceType);
int seam_mkdir(const char *,mode_t);
int seam_close(int);
ssize_t seam_write(int,const void *,size_t);

static const ResourceType types[]={ MemoryResource,MapResource,DiskResource,FileResource,AreaResource };
static const char *const type_names[]={ "memory","map","disk","file","area" };
enum { MEMORY, MAP, DISK, FILES, AREA, TYPES };

/* the model */
static WizardSizeType used[TYPES],limit[TYPES];

#define UNLIMITED (~(WizardSizeType) 0)

static ExceptionInfo *exception;

static void compare(const char *when)
{
  int i;
  for (i=0; i < TYPES; i++)
  {
    MC_CHECK(GetWizardResource(types[i]) == used[i],"%s: %s in use %llu instead of %llu",when,
      type_names[i],(unsigned long long) GetWizardResource(types[i]),(unsigned long long) used[i]);
    MC_CHECK(GetWizardResourceLimit(types[i]) == limit[i],"%s: %s limit %llu instead of %llu",when,
      type_names[i],(unsigned long long) GetWizardResourceLimit(types[i]),(unsigned long long) limit[i]);
  }
}

/* 1: must be granted, 0: must be refused, -1: total exactly at the limit */
static int grant(int t,WizardSizeType size)
{
  WizardSizeType total=(t == AREA) ? size : used[t]+size;
  if ((t != AREA) && (total < size))
    return(0);
  if ((limit[t] != UNLIMITED) && (total > limit[t]))
    return(0);
  if ((limit[t] != UNLIMITED) && (total == limit[t]))
    return(-1);
  /* such a total cannot be counted */
  return((t != AREA) && (total > (WizardSizeType) INT64_MAX) ? -1 : 1);
}

static void set_limit(int t,WizardSizeType n)
{
  limit[t]=n;
  SetWizardResourceLimit(types[t],n);
}

static void start(void)
{
  int i;
  sim_hook=NULL;
  sim_announce_memory=0;
  sim_reset();
  seam_mkdir("/sim/home",0700);
  seam_mkdir("/sim/tmp",0700);
  setenv("WIZARD_TMPDIR","/sim/tmp",1);
  setenv("WIZARD_HOME","/sim/home",1);
  for (i=0; i < TYPES; i++)
  {
    used[i]=GetWizardResource(types[i]);
    MC_CHECK(used[i] == 0,"%s in use %llu at the start",type_names[i],(unsigned long long) used[i]);
    set_limit(i,UNLIMITED);
  }
  compare("at the start");
}

/* plain requests */
static void plain(void)
{
  static const WizardSizeType sizes[]={ 1,3,0,(WizardSizeType) 1 << 62,(WizardSizeType) INT64_MAX,
    (WizardSizeType) 1 << 63,~(WizardSizeType) 0,~(WizardSizeType) 0-2 };
  static const WizardSizeType limits[]={ 4,0,1,UNLIMITED,(WizardSizeType) 1 << 62,
    ((WizardSizeType) 1 << 63)+5 };
  int t=mc_choose(TYPES,"resource"),depth=mc_thorough() ? 6 : 5,i,k,n=0,g,e;
  WizardSizeType held[8],s;
  start();
  mc_note("resource %s\n",type_names[t]);
  for (i=0; i < depth; i++)
  {
    k=mc_choose(8+6+(n ? 1+(n > 1) : 0),"call");
    mc_transition();
    if (k < 8)
      {
        e=grant(t,sizes[k]);
        g=AcquireWizardResource(types[t],sizes[k]) != WizardFalse;
        mc_note("acquire %llu: %s\n",(unsigned long long) sizes[k],g ? "granted" : "refused");
        MC_CHECK((e == -1) || (e == g),"request for %llu %s with %llu of %llu in use",
          (unsigned long long) sizes[k],g ? "granted" : "refused",(unsigned long long) used[t],
          (unsigned long long) limit[t]);
        if (g)
          {
            if (t == AREA)
              {
                used[t]=sizes[k];
                n=0;
              }
            else
              used[t]+=sizes[k];
            held[n++]=sizes[k];
            mc_nontrivial();
          }
      }
    else if (k < 14)
      {
        mc_note("limit %llu\n",(unsigned long long) limits[k-8]);
        set_limit(t,limits[k-8]);
      }
    else
      {
        int j=(k == 14) ? n-1 : 0;
        s=held[j];
        memmove(held+j,held+j+1,(n-j-1)*sizeof(*held));
        n--;
        mc_note("release %llu\n",(unsigned long long) s);
        RelinquishWizardResource(types[t],s);
        used[t]=(t == AREA) ? 0 : used[t]-s;
      }
    compare("after the call");
    mc_observe_int((int) used[t]);
  }
  while (n)
  {
    s=held[--n];
    RelinquishWizardResource(types[t],s);
    used[t]=(t == AREA) ? 0 : used[t]-s;
  }
  compare("after releasing everything");
  MC_CHECK(used[t] == 0,"model keeps %llu",(unsigned long long) used[t]);
}

/* which calls fail while virtual memory or a temporary file is made */
static size_t wanted;
static int failures,heap_failed,map_failed,file_failed;

static void hook(const sim_call *c,sim_answer *a)
{
  int memory=(c->op == SIM_MAP) && (strcmp(c->path,"/sim/heap") == 0),
    anonymous=(c->op == SIM_MAP) && (strcmp(c->path,"/sim/anonymous") == 0);
  if (memory && (c->size < wanted))
    return;
  if (strncmp(c->path,"/sim/home",9) == 0)
    return;
  if ((c->op != SIM_OPEN) && (c->op != SIM_WRITE) && (c->op != SIM_SEEK) && (c->op != SIM_MAP))
    return;
  if ((c->op == SIM_OPEN) && !c->create)
    return;
  if (!failures || (mc_choose(2,"fails") == 0))
    return;
  failures--;
  mc_note("  fails: %s %s\n",sim_op_name[c->op],c->path);
  a->error=(c->op == SIM_OPEN) ? EACCES : (c->op == SIM_WRITE) ? ENOSPC : ENOMEM;
  if (memory)
    heap_failed=1;
  else if (anonymous)
    map_failed=1;
  else
    file_failed=1;
}

static int there(const char *path)
{
  size_t n;
  return(sim_get(path,&n) != NULL);
}

static int temporaries(void)
{
  int i,n=0;
  for (i=0; i < sim_files(); i++)
    if (strncmp(sim_name(i),"/sim/tmp/",9) == 0)
      n++;
  return(n);
}

typedef struct { int kind; size_t length; MemoryInfo *m; unsigned char *p; char path[WizardPathExtent]; } block;

static block blocks[8];
static int held;

static void check_blocks(void)
{
  int i;
  size_t j;
  for (i=0; i < held; i++)
    if (blocks[i].m != NULL)
      for (j=0; j < blocks[i].length; j+=511)
        MC_CHECK(blocks[i].p[j] == (unsigned char) (i*37+j+blocks[i].length),
          "virtual memory %d lost its content",i);
}

static void paint(block *b)
{
  int i=b-blocks;
  size_t j;
  for (j=0; j < b->length; j+=511)
    b->p[j]=(unsigned char) (i*37+j+b->length);
  b->p[b->length-1]=(unsigned char) (i*37+b->length-1+b->length);
}

static void take_memory(size_t length)
{
  block *b=blocks+held;
  int on_heap=grant(MEMORY,length),on_map=grant(MAP,length),on_disk=grant(DISK,length),
    on_file=grant(FILES,1),files=temporaries(),i;
  WizardSizeType now[TYPES],d[TYPES];
  const char *backing;
  wanted=length;
  heap_failed=map_failed=file_failed=0;
  sim_announce_memory=1;
  sim_hook=hook;
  mc_note("take %zu bytes of virtual memory\n",length);
  memset(b,0,sizeof(*b));
  b->m=AcquireVirtualMemory(1,length,exception);
  sim_hook=NULL;
  sim_announce_memory=0;
  b->length=length;
  for (i=0; i < TYPES; i++)
  {
    now[i]=GetWizardResource(types[i]);
    d[i]=now[i]-used[i];
  }
  MC_CHECK(b->m != NULL,"no virtual memory although every backing is available");
  b->p=GetVirtualMemoryBlob(b->m);
  MC_CHECK(b->p != NULL,"virtual memory without address");
  if ((d[MEMORY] == length) && !d[MAP] && !d[DISK] && !d[FILES])
    backing="heap";
  else if (!d[MEMORY] && (d[MAP] == length) && !d[DISK] && !d[FILES])
    backing="map";
  else if (!d[MEMORY] && (d[MAP] == length) && (d[DISK] == length) && (d[FILES] == 1))
    backing="file";
  else if (!d[MEMORY] && !d[MAP] && !d[DISK] && !d[FILES])
    backing="plain";
  else
    backing=NULL;
  MC_CHECK((backing != NULL) && (d[AREA] == 0),"virtual memory of %zu bytes changed the use of memory by %lld, map by %lld, "
    "disk by %lld, files by %lld",length,(long long) d[MEMORY],(long long) d[MAP],(long long) d[DISK],
    (long long) d[FILES]);
  mc_note("  backing %s\n",backing);
  if (on_heap == 1 && !heap_failed)
    MC_CHECK(strcmp(backing,"heap") == 0,"%s used although heap memory is available",backing);
  else if (on_heap != -1)
    {
      MC_CHECK(strcmp(backing,"heap") != 0,"heap memory used beyond its limit");
      if ((on_map == 1) && !map_failed)
        MC_CHECK(strcmp(backing,"map") == 0,"%s used although a memory map is available",backing);
      else if (on_map == 0)
        MC_CHECK(strcmp(backing,"plain") == 0,"%s used beyond the map limit",backing);
      else if (on_map == 1)
        {
          MC_CHECK(strcmp(backing,"map") != 0,"memory map used that failed");
          if ((on_disk == 1) && (on_file == 1) && !file_failed)
            MC_CHECK(strcmp(backing,"file") == 0,"%s used although a mapped file is available",backing);
          if ((on_disk == 0) || (on_file == 0))
            MC_CHECK(strcmp(backing,"plain") == 0,"%s used beyond the disk or file limit",backing);
        }
    }
  MC_CHECK(temporaries()-files == (strcmp(backing,"file") == 0),"%d temporary files appeared with backing %s",
    temporaries()-files,backing);
  b->kind=strcmp(backing,"heap") == 0 ? 1 : strcmp(backing,"map") == 0 ? 2 : strcmp(backing,"file") == 0 ? 3 : 4;
  mc_observe_int(b->kind);
  for (i=0; i < TYPES; i++)
    used[i]=now[i];
  paint(b);
  held++;
  mc_nontrivial();
}

static void take_file(void)
{
  block *b=blocks+held;
  int g=grant(FILES,1),files=temporaries(),fd;
  wanted=SIZE_MAX;
  heap_failed=map_failed=file_failed=0;
  memset(b,0,sizeof(*b));
  sim_hook=hook;
  mc_note("take a temporary file\n");
  fd=AcquireUniqueFileResource("",b->path,exception);
  sim_hook=NULL;
  if (fd == -1)
    {
      MC_CHECK((g != 1) || file_failed,"temporary file refused");
      MC_CHECK(temporaries() == files,"refused temporary file left something behind");
      mc_observe_int(0);
      return;
    }
  MC_CHECK(g != 0,"temporary file granted beyond the limit");
  MC_CHECK(temporaries() == files+1,"no temporary file was made");
  MC_CHECK(there(b->path),"temporary file %s is not there",b->path);
  MC_CHECK(seam_write(fd,"x",1) == 1,"temporary file cannot be written");
  seam_close(fd);
  used[FILES]++;
  b->kind=5;
  held++;
  mc_observe_int(5);
  mc_nontrivial();
}

static void give(int i)
{
  block *b=blocks+i;
  int files=temporaries();
  mc_note("release number %d\n",i);
  switch (b->kind)
  {
    case 1: used[MEMORY]-=b->length; break;
    case 2: used[MAP]-=b->length; break;
    case 3: used[MAP]-=b->length; used[DISK]-=b->length; used[FILES]--; files--; break;
    case 5: used[FILES]--; files--; break;
  }
  if (b->m != NULL)
    RelinquishVirtualMemory(b->m);
  else
    {
      MC_CHECK(RelinquishUniqueFileResource(b->path,WizardTrue) != WizardFalse,
        "release of the temporary file reported failure");
      MC_CHECK(!there(b->path),"released temporary file is still there");
    }
  MC_CHECK(temporaries() == files,"%d temporary files instead of %d after the release",temporaries(),files);
  memmove(b,b+1,(held-i-1)*sizeof(*b));
  held--;
  for (; i < held; i++)
    if (blocks[i].m != NULL)
      paint(blocks+i);
}

static void backed(void)
{
  static const size_t lengths[]={ 9000,20000 };
  int depth=mc_thorough() ? 4 : 3,i,k,t;
  start();
  held=0;
  for (t=0; t < FILES; t++)
    if ((k=mc_choose(3,"limit")) != 0)
      set_limit(t,k == 1 ? 0 : 25000);
  if ((k=mc_choose(3,"file limit")) != 0)
    set_limit(FILES,k);
  failures=mc_thorough() ? 3 : 2;
  mc_note("limits: memory %llu map %llu disk %llu file %llu\n",(unsigned long long) limit[0],
    (unsigned long long) limit[1],(unsigned long long) limit[2],(unsigned long long) limit[3]);
  for (i=0; i < depth; i++)
  {
    k=mc_choose(3+held,"call");
    mc_transition();
    if (k < 2)
      take_memory(lengths[k]);
    else if (k == 2)
      take_file();
    else
      give(k-3);
    check_blocks();
    compare("after the call");
  }
  while (held)
    give(0);
  compare("after releasing everything");
  for (i=0; i < TYPES; i++)
    MC_CHECK(used[i] == 0,"%s still in use",type_names[i]);
  MC_CHECK(temporaries() == 0,"temporary files are left");
}

/* files that were not released are removed at the end */
static void lingering(void)
{
  int n=1+mc_choose(3,"files"),give_back=mc_choose(2,"release one"),i;
  char paths[4][WizardPathExtent];
  start();
  for (i=0; i < n; i++)
  {
    MC_CHECK(AcquireUniqueFilename(paths[i],exception) != WizardFalse,"no temporary name");
    MC_CHECK(there(paths[i]),"file %s was not made",paths[i]);
  }
  if (give_back)
    RelinquishUniqueFileResource(paths[0],WizardTrue);
  MC_CHECK(temporaries() == n-give_back,"%d temporary files",temporaries());
  MC_CHECK(GetWizardResource(FileResource) == (WizardSizeType) (n-give_back),"%d files counted",
    (int) GetWizardResource(FileResource));
  if (mc_choose(2,"asynchronous"))
    {
      AsynchronousResourceComponentTerminus();
      MC_CHECK(temporaries() == 0,"%d temporary files left behind",temporaries());
    }
  ResourceComponentTerminus();
  MC_CHECK(temporaries() == 0,"%d temporary files left behind",temporaries());
  ResourceComponentGenesis();
  MC_CHECK(GetWizardResource(FileResource) == 0,"%d files counted after the end",
    (int) GetWizardResource(FileResource));
  mc_nontrivial();
}

/* the limits the environment gives are those in force and listed */
static void environment(void)
{
  static const char *const names[]={ "WIZARD_MEMORY_LIMIT","WIZARD_MAP_LIMIT","WIZARD_DISK_LIMIT",
    "WIZARD_FILE_LIMIT","WIZARD_AREA_LIMIT" };
  static const struct { const char *text; WizardSizeType value; } values[]=
    { { NULL,0 },{ "1",1 },{ "25000",25000 },{ "2305843009213693952",(WizardSizeType) 1 << 61 },{ "0",0 } };
  WizardSizeType natural[TYPES];
  char *text=NULL,token[TYPES][64],want[64];
  size_t n=0;
  FILE *file;
  int i,k,g,given=0;
  start();
  ResourceComponentTerminus();
  ResourceComponentGenesis();
  for (i=0; i < TYPES; i++)
    natural[i]=GetWizardResourceLimit(types[i]);
  ResourceComponentTerminus();
  for (i=0; i < TYPES; i++)
  {
    k=mc_choose(5,names[i]);
    limit[i]=k ? values[k].value : natural[i];
    if (k)
      setenv(names[i],values[k].text,1);
    given|=k;
  }
  ResourceComponentGenesis();
  for (i=0; i < TYPES; i++)
    unsetenv(names[i]);
  compare("after a start with limits from the environment");
  for (i=0; i < TYPES; i++)
    for (k=0; k < 2; k++)
    {
      WizardSizeType size=k ? limit[i] < UNLIMITED ? limit[i]+1 : limit[i] : 1;
      g=grant(i,size);
      if (AcquireWizardResource(types[i],size) != WizardFalse)
        {
          MC_CHECK(g != 0,"%s of %llu granted beyond the limit",type_names[i],(unsigned long long) size);
          RelinquishWizardResource(types[i],size);
        }
      else
        MC_CHECK(g != 1,"%s of %llu refused within the limit",type_names[i],(unsigned long long) size);
    }
  compare("after requests");
  file=open_memstream(&text,&n);
  ListWizardResourceInfo(file,exception);
  fclose(file);
  MC_CHECK(n > 2 && text[n-1] == '\n',"nothing is listed");
  text[n-1]='\0';
  MC_CHECK(sscanf(strrchr(text,'\n'),"%63s %63s %63s %63s %63s",token[FILES],token[AREA],token[MEMORY],
    token[MAP],token[DISK]) == 5,"listed is %s",text);
  for (i=0; i < TYPES; i++)
  {
    if (i == FILES)
      snprintf(want,sizeof(want),"%g",(double) limit[i]);
    else
      if (i == DISK && limit[i] == UNLIMITED)
        strcpy(want,"unlimited");
      else
        FormatWizardSize(limit[i],i != AREA,sizeof(want),want);
    MC_CHECK(strcmp(token[i],want) == 0,"the %s limit is listed as %s instead of %s",type_names[i],token[i],
      want);
  }
  free(text);
  if (given)
    mc_nontrivial();
}

/* a file that is not a temporary one is removed only if asked for, and never counted */
static void foreign(void)
{
  static const char *path="/sim/tmp/foreign";
  char name[WizardPathExtent];
  int trash=mc_choose(2,"trash"),present=mc_choose(2,"present"),r,others=mc_choose(2,"temporary files");
  start();
  if (others)
    {
      MC_CHECK(AcquireUniqueFilename(name,exception) != WizardFalse,"no temporary name");
      used[FILES]++;
    }
  if (present)
    sim_put(path,"x",1);
  r=RelinquishUniqueFileResource(path,trash ? WizardTrue : WizardFalse) != WizardFalse;
  MC_CHECK(!!there(path) == (present && !trash),"the file is %s",there(path) ? "kept" : "removed");
  MC_CHECK(r == (present || !trash),"releasing reports %s",r ? "success" : "failure");
  compare("after releasing another file");
  if (others)
    {
      MC_CHECK(there(name),"the temporary file is gone");
      MC_CHECK(RelinquishUniqueFileResource(name,trash ? WizardFalse : WizardTrue) != WizardFalse &&
        !there(name),"the temporary file is not released");
      used[FILES]--;
      compare("after releasing the temporary file");
    }
  mc_nontrivial();
}

static void body(void)
{
  switch (mc_choose(5,"part"))
  {
    case 0: plain(); break;
    case 1: backed(); break;
    case 2: lingering(); break;
    case 3: environment(); break;
    case 4: foreign(); break;
  }
}

static void init(void)
{
  WizardsToolkitGenesis("resource_seq");
  exception=AcquireExceptionInfo();
}

int main(int argc,char **argv)
{
  static mc_harness h={ .property="C08", .name="resource_seq",
    .rule="resource counters, limits (set, or from the environment) and files follow the model",
    .init=init, .body=body };
  return(mc_main(argc,argv,&h));
}

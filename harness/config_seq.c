/*
  Settings from configuration files.

  The oracle keeps the settings in a plain list: the built-in one, then those
  of every file along the search path, those of included files before those
  of the file that includes them.  A lookup returns the first of that name.
*/
#include "common.h"
#include "wizard/configure.h"
#include "simfs.h"

typedef struct
{
  char path[80],name[40],value[80];
  int has_name,has_value,stealth;
} entry;

static entry table[4096];
static int entries,said;
static ExceptionInfo *exception;

/*
  Elements a file is made of.
*/
typedef struct
{
  const char *text,*name,*value,*include;
  int stealth;
} element;

static const element alphabet[]=
{
  { "<configure name=\"A\" value=\"%s1\" />","A","1" },
  { "<configure name=\"a\" value=\"%s2\" />","a","2" },
  { "<configure name=\"B\" value=\"%s3\" />","B","3" },
  { "<configure name=\"AB\" value=\"%s4\" stealth=\"True\" />","AB","4",NULL,1 },
  { "<configure name=\"A\" value=\"%s5\" stealth=\"False\"></configure>","A","5" },
  { "<configure name=\"name\" value=\"%s6\" />","name","6" },
  { "<configure value=\"%s7\" />",NULL,"7" },
  { "<configure name=\"C\" />","C",NULL },
  { "<configure name=\"\" value=\"%s8\" />","","8" },
  { "<include file=\"inc.xml\" />",NULL,NULL,"inc.xml" },
  { "<include file=\"sub/inc.xml\" />",NULL,NULL,"sub/inc.xml" },
  { "<include file=\"none.xml\" />",NULL,NULL,"none.xml" },
  { "<include file=\"/sim/abs.xml\" />",NULL,NULL,"/sim/abs.xml" },
  { "<include />",NULL,NULL,"" },
  { "<!-- <configure name=\"A\" value=\"9\" /> -->",NULL,NULL,"" },
  { "<other name=\"A\" value=\"9\" />",NULL,NULL,"" },
};
#define ELEMENTS ((int) (sizeof(alphabet)/sizeof(*alphabet)))
#define NONE (-1)

typedef struct
{
  char path[80],mark;
  int elements,pick[4];
} file;

static file files[10];
static int count;

static void add_file(const char *path,char mark,int n,const int *pick)
{
  file *f=files+count++;
  char text[2000],tail[400],m[2]={ mark,0 };
  int i;
  snprintf(f->path,sizeof(f->path),"%s",path);
  f->mark=mark;
  f->elements=0;
  strcpy(text,"<?xml version=\"1.0\"?>\n<configuremap>\n");
  for (i=0; i < n; i++)
  {
    f->pick[f->elements++]=pick[i];
    strcat(text,"  ");
    snprintf(tail,sizeof(tail),alphabet[pick[i]].text,m);
    strcat(text,tail);
    strcat(text,"\n");
  }
  strcat(text,"</configuremap>\n");
  sim_put(path,text,strlen(text));
  if (said)
    mc_note("%s:\n%s",path,text);
}

static void expect_entry(const char *path,const char *name,const char *mark,const char *value,int stealth)
{
  entry *e=table+entries++;
  memset(e,0,sizeof(*e));
  snprintf(e->path,sizeof(e->path),"%s",path);
  if (name != NULL)
    {
      e->has_name=1;
      snprintf(e->name,sizeof(e->name),"%s",name);
    }
  if (value != NULL)
    {
      e->has_value=1;
      snprintf(e->value,sizeof(e->value),"%s%s",mark,value);
    }
  e->stealth=stealth;
}

static void expect_file(const char *path)
{
  char mark[2]={ 0,0 },other[200],*slash;
  file *f;
  int i;
  for (f=files; f < files+count; f++)
    if (strcmp(f->path,path) == 0)
      break;
  if (f == files+count)
    return;
  *mark=f->mark;
  for (i=0; i < f->elements; i++)
  {
    const element *e=alphabet+f->pick[i];
    if ((e->include == NULL) || (*e->include == 0))
      continue;
    snprintf(other,sizeof(other),"%s",path);
    slash=strrchr(other,'/');
    if (*e->include == '/')
      strcpy(other,e->include);
    else
      strcpy(slash+1,e->include);
    expect_file(other);
  }
  for (i=0; i < f->elements; i++)
  {
    const element *e=alphabet+f->pick[i];
    if (e->include == NULL)
      expect_entry(path,e->name,mark,e->value,e->stealth);
  }
}

static const entry *expected(const char *name)
{
  int i;
  for (i=0; i < entries; i++)
    if (table[i].has_name && (strcasecmp(table[i].name,name) == 0))
      return(table+i);
  return(NULL);
}

static void look(const char *name)
{
  const ConfigureInfo *c;
  const entry *e=expected(name);
  const char *v;
  if (said)
    mc_note("look up %s\n",name);
  ClearWizardException(exception);
  c=GetConfigureInfo(name,exception);
  if (c == NULL)
    {
      MC_CHECK(e == NULL,"no setting %s; %s defines it",name,e->path);
      MC_CHECK(GetExceptionSeverity(exception) == OptionWarning,"setting %s not found, but no warning",name);
      return;
    }
  MC_CHECK(e != NULL,"setting %s found; no file defines it",name);
  v=GetConfigureValue(c);
  MC_CHECK((v != NULL) == e->has_value && (v == NULL || strcmp(v,e->value) == 0),
    "setting %s is \"%s\" instead of \"%s\" (%s)",name,v ? v : "(none)",e->has_value ? e->value : "(none)",e->path);
  MC_CHECK(strcmp(c->path,e->path) == 0,"setting %s of %s instead of %s",name,c->path,e->path);
  MC_CHECK(c->stealth == (e->stealth ? WizardTrue : WizardFalse),"setting %s visibility",name);
}

static int by_name(const void *a,const void *b)
{
  return(strcasecmp((*(const entry *const *) a)->name,(*(const entry *const *) b)->name));
}

static int by_path(const void *a,const void *b)
{
  int c=strcasecmp((*(const entry *const *) a)->path,(*(const entry *const *) b)->path);
  return(c ? c : by_name(a,b));
}

static void listing(const char *pattern)
{
  const entry *want[4096];
  const ConfigureInfo **info;
  char **list;
  size_t n,i,j,k=0;
  if (said)
    mc_note("list %s\n",pattern);
  for (i=0; i < (size_t) entries; i++)
    if (table[i].has_name && !table[i].stealth &&
        (GlobExpression(table[i].name,pattern,WizardFalse) != WizardFalse))
      want[k++]=table+i;
  qsort(want,k,sizeof(*want),by_name);
  n=77;
  list=GetConfigureList(pattern,&n,exception);
  MC_CHECK(list != NULL,"no list");
  MC_CHECK(n == k,"%zu settings listed for %s instead of %zu",n,pattern,k);
  for (i=0; i < n; i++)
  {
    MC_CHECK(strcasecmp(list[i],want[i]->name) == 0,"%s listed instead of %s",list[i],want[i]->name);
    list[i]=DestroyString(list[i]);
  }
  MC_CHECK(list[n] == NULL,"list does not end");
  list=(char **) RelinquishWizardMemory(list);
  qsort(want,k,sizeof(*want),by_path);
  n=77;
  info=GetConfigureInfoList(pattern,&n,exception);
  MC_CHECK(info != NULL,"no list of settings");
  MC_CHECK(n == k,"%zu settings listed for %s instead of %zu",n,pattern,k);
  for (i=0; i < n; i++)
  {
    MC_CHECK((strcmp(info[i]->path,want[i]->path) == 0) && (strcasecmp(info[i]->name,want[i]->name) == 0),
      "%s of %s listed instead of %s of %s",info[i]->name,info[i]->path,want[i]->name,want[i]->path);
    /* equal ones in any order, but each once */
    for (j=0; j < i; j++)
      MC_CHECK(info[i] != info[j],"%s of %s listed twice",info[i]->name,info[i]->path);
    for (j=0; j < k; j++)
      if ((strcmp(info[i]->path,want[j]->path) == 0) && (strcmp(info[i]->name,want[j]->name) == 0) &&
          (info[i]->value ? want[j]->has_value && (strcmp(info[i]->value,want[j]->value) == 0) : !want[j]->has_value))
        break;
    MC_CHECK(j < k,"%s=\"%s\" of %s listed, no such setting",info[i]->name,info[i]->value ? info[i]->value : "(none)",
      info[i]->path);
  }
  MC_CHECK(info[n] == NULL,"list of settings does not end");
  if (strcmp(pattern,"*") == 0)
    {
      char text[65536],*out=NULL,*p=text;
      size_t size=0;
      FILE *f=open_memstream(&out,&size);
      const char *path=NULL;
      WizardBooleanType ok=ListConfigureInfo(f,exception);
      fclose(f);
      MC_CHECK(ok != WizardFalse,"listing failed");
      *p=0;
      for (i=0; i < n; i++)
      {
        if ((path == NULL) || (strcasecmp(path,info[i]->path) != 0))
          p+=sprintf(p,"\nPath: %s\n\nName          Value\n%.79s\n",info[i]->path,
            "--------------------------------------------------------------------------------");
        path=info[i]->path;
        p+=sprintf(p,"%-13s %s\n",info[i]->name,info[i]->value ? info[i]->value : "unknown");
      }
      MC_CHECK(strcmp(out,text) == 0,"listed:\n%s\ninstead of:\n%s",out,text);
      free(out);
    }
  info=(const ConfigureInfo **) RelinquishWizardMemory((void *) info);
}

static void any(void)
{
  const ConfigureInfo *c;
  int i;
  if (said)
    mc_note("look up any\n");
  c=GetConfigureInfo("*",exception);
  MC_CHECK(c != NULL,"no setting at all");
  for (i=0; i < entries; i++)
    if ((strcmp(table[i].path,c->path) == 0) && (table[i].has_name == (c->name != NULL)) &&
        (c->name == NULL || strcmp(c->name,table[i].name) == 0))
      return;
  mc_fail("a setting that no file defines");
}

#define OPS 9
static void step(int op)
{
  switch (op)
  {
    case 0: look("A"); break;
    case 1: look("b"); break;
    case 2: look("NAME"); break;
    case 3: look("ab"); break;
    case 4: look("missing"); break;
    case 5: listing("*"); break;
    case 6: listing("[Aa]*"); break;
    case 7: look("c"); break;
    case 8: any(); break;
  }
  mc_transition();
}

static void load(void)
{
  ConfigureComponentTerminus();
  ConfigureComponentGenesis();
}

static void start(void)
{
  sim_reset();
  count=0;
  entries=0;
  said=mc_noting();
  expect_entry("[built-in]","NAME","","ImageMagick",0);
  unsetenv("XDG_CONFIG_HOME");
  setenv("HOME","/sim/h",1);
  setenv("WIZARD_CONFIGURE_PATH","/sim/a",1);
}

/*
  Every content of one file, with files to include.
*/
static void contents(void)
{
  static const int inner[][2]={ { 0,2 },{ 3,10 },{ 6,9 },{ 1,5 } },deep[][1]={ { 4 },{ 7 } };
  int n,i,pick[4],j,k,which,sum,which2;
  start();
  n=mc_choose(mc_thorough() ? 5 : 4,"elements");
  for (i=0; i < n; i++)
    pick[i]=mc_choose(ELEMENTS,"element");
  for (i=0, sum=0; i < n; i++)
    if (alphabet[pick[i]].include && *alphabet[pick[i]].include)
      sum++;
  which=sum ? mc_choose(4,"included") : 0;
  which2=0;
  add_file("/sim/a/configure.xml",'x',n,pick);
  if (sum)
    {
      int some[2]={ inner[which][0],inner[which][1] };
      /* a file that includes itself is examined on its own */
      add_file("/sim/a/inc.xml",'y',2,which == 2 ? (const int []) { 6,10 } : some);
      add_file("/sim/a/sub/inc.xml",'z',1,deep[which2]);
      add_file("/sim/a/sub/sub/inc.xml",'w',1,deep[1]);
      add_file("/sim/abs.xml",'v',2,(const int []) { 2,1 });
    }
  expect_file("/sim/a/configure.xml");
  if (n)
    mc_nontrivial();
  /* one history with everything, then all short ones */
  load();
  for (i=0; i < OPS; i++)
    step(i);
  for (i=OPS-1; i >= 0; i--)
    step(i);
  look("");
  listing("");
  listing("?");
  k=n > 2 ? OPS : n > 1 ? OPS*OPS : OPS*OPS*OPS;
  for (i=0; i < k; i++)
  {
    load();
    for (j=i, sum=k; sum > 1; sum/=OPS, j/=OPS)
      step(j%OPS);
    mc_count(0,1);
  }
  for (i=0; i < entries; i++)
    mc_observe(table+i,sizeof(*table));
}

/*
  Where files are searched.
*/
static void places(void)
{
  static const char *const paths[]={ NULL,"/sim/a","/sim/a/","/sim/a:/sim/b","/sim/b/:/sim/a","/sim/a:/sim/none:/sim/b",
    ":/sim/a","/sim/b:","/sim/a:/sim/a" };
  static const char *const order[][3]={ { 0 },{ "a" },{ "a" },{ "a","b" },{ "b","a" },{ "a","b" },{ "a" },{ "b" },
    { "a","a" } };
  static const int choices[]={ 0,1,2,4,7 };
  static const char *const where[]={ "/sim/a/configure.xml","/sim/b/configure.xml",
    "/sim/x/WizardsToolkit/configure.xml","/sim/h/.config/WizardsToolkit/configure.xml" };
  int p=mc_choose(9,"search path"),i,x,home,pick,there[4];
  start();
  if (paths[p])
    setenv("WIZARD_CONFIGURE_PATH",paths[p],1);
  else
    unsetenv("WIZARD_CONFIGURE_PATH");
  x=mc_choose(3,"configuration home");
  if (x == 1)
    setenv("XDG_CONFIG_HOME","/sim/x",1);
  if (x == 2)
    setenv("XDG_CONFIG_HOME","/sim/y",1);
  home=mc_choose(2,"home");
  if (home)
    unsetenv("HOME");
  for (i=0; i < 4; i++)
  {
    there[i]=mc_choose(6,"file");
    if (there[i])
      {
        pick=choices[there[i]-1];
        add_file(where[i],"xyzw"[i],1,&pick);
      }
  }
  for (i=0; (i < 3) && order[p][i]; i++)
    expect_file(*order[p][i] == 'a' ? where[0] : where[1]);
  if (x == 1)
    expect_file(where[2]);
  if (!home)
    expect_file(where[3]);
  if (entries > 1)
    mc_nontrivial();
  if (said)
    mc_note("search path %s, XDG_CONFIG_HOME %s, HOME %s\n",paths[p] ? paths[p] : "(none)",x == 1 ? "/sim/x" : x ? "/sim/y" :
      "(none)",home ? "(none)" : "/sim/h");
  load();
  for (i=0; i < OPS; i++)
    step(i);
  for (i=0; i < OPS; i++)
  {
    load();
    step(i);
  }
  for (i=0; i < entries; i++)
    mc_observe(table+i,sizeof(*table));
}

static void put(const char *path,const char *text)
{
  sim_put(path,text,strlen(text));
}

/*
  Files that include themselves or each other end, and the settings are there.
*/
static void nested(void)
{
  int kind=mc_choose(4,"nesting"),seen,i;
  ExceptionInfo *e;
  const ConfigureInfo *c;
  start();
  mc_nontrivial();
  switch (kind)
  {
    case 0:
      put("/sim/a/configure.xml","<m><include file=\"configure.xml\"/><configure name=\"A\" value=\"1\"/></m>");
      break;
    case 1:
      put("/sim/a/configure.xml","<m><include file=\"inc.xml\"/><configure name=\"A\" value=\"1\"/></m>");
      put("/sim/a/inc.xml","<m><include file=\"configure.xml\"/><configure name=\"B\" value=\"2\"/></m>");
      break;
    case 2:
    case 3:
      /* a chain that ends */
      for (i=0; i < (kind == 2 ? 2 : 24); i++)
      {
        char path[60],text[200];
        sprintf(path,"/sim/a/f%d.xml",i);
        sprintf(text,"<m><include file=\"f%d.xml\"/><configure name=\"N%d\" value=\"%d\"/></m>",i+1,i,i);
        sim_put(i ? path : "/sim/a/configure.xml",text,strlen(text));
      }
      break;
  }
  ConfigureComponentTerminus();
  ConfigureComponentGenesis();
  e=AcquireExceptionInfo();
  c=GetConfigureInfo(kind < 2 ? "A" : "N0",e);
  MC_CHECK(c != NULL,"the setting of a file that includes others is missing");
  if (kind >= 2)
    for (i=0; i < (kind == 2 ? 2 : 24); i++)
    {
      char name[20],value[20];
      sprintf(name,"n%d",i);
      sprintf(value,"%d",i);
      c=GetConfigureInfo(name,e);
      MC_CHECK(c != NULL && strcmp(GetConfigureValue(c),value) == 0,"setting %s of an included file",name);
    }
  seen=c->signature == WizardSignature;
  MC_CHECK(seen,"setting is damaged");
  e=DestroyExceptionInfo(e);
}

static void body(void)
{
  switch (mc_choose(3,"part"))
  {
    case 0: contents(); break;
    case 1: places(); break;
    default: nested(); break;
  }
}

static void init(void)
{
  setenv("HOME","/sim/h",1);
  unsetenv("XDG_CONFIG_HOME");
  unsetenv("LOCALAPPDATA");
  unsetenv("APPDATA");
  unsetenv("USERPROFILE");
  unsetenv("WIZARD_HOME");
  setenv("WIZARD_CONFIGURE_PATH","/sim/a",1);
  mc_counter_name(0,"short histories");
  WizardsToolkitGenesis("config_seq");
  exception=AcquireExceptionInfo();
}

int main(int argc,char **argv)
{
  static mc_harness h={ .property="C48", .name="config_seq",
    .rule="a setting is the one the first file of the search path defines",
    .init=init, .body=body };
  return(mc_main(argc,argv,&h));
}

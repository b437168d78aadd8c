/*
  Expansion of wildcards in command lines.

  The oracle keeps the content of the directories in tables and matches names
  with a pattern matcher of its own.
*/
#include "common.h"
#include <sys/stat.h>
#include <unistd.h>

extern WizardBooleanType ExpandFilenames(int *,char ***);

typedef struct { const char *name; int directory; } thing;

static const thing top[]={ { "a.t" },{ "B.t" },{ "c.u" },{ "[x]" },{ ".h.t" },{ "d.t",1 },{ "e",1 } };
static const thing inner[]={ { "a.t" },{ "z.t" },{ "e",1 },{ "y.t",1 } };
#define TOP 7
#define INNER 4

static int in_top[TOP],in_inner[INNER];
static char base[4096];

/* *, ?, [set] and {a,b} */
static int match(const char *s,const char *p)
{
  for ( ; *p; p++, s++)
    switch (*p)
    {
      case '*':
        for (p++; ; s++)
        {
          if (match(s,p))
            return(1);
          if (*s == 0)
            return(0);
        }
      case '?':
        if (*s == 0)
          return(0);
        break;
      case '[':
        {
          int hit=0;
          for (p++; *p && *p != ']'; p++)
            if (*p == *s)
              hit=1;
          if (!hit || *s == 0)
            return(0);
          break;
        }
      case '{':
        {
          const char *close=strchr(p,'}'),*q=p+1,*e;
          char rest[100];
          for ( ; q <= close; q=e+1)
          {
            for (e=q; *e != ',' && e < close; e++) ;
            snprintf(rest,sizeof(rest),"%.*s%s",(int) (e-q),q,close+1);
            if (match(s,rest))
              return(1);
          }
          return(0);
        }
      default:
        if (*s != *p)
          return(0);
        break;
    }
  return(*s == 0);
}

static const char *const words[]=
{
  "*","*.t","a.t","?.t","{a,c}.?","[aB]*","d.t/*","d.t/*.t","none*","'*'","\"*\"","-hash","-list","~/*.t","./*.t","[x]",
  "d.t/*.u","[x]*","+debug","none/*","-verbose","e/*","d.*","@/d.t/?.t"
};
#define WORDS ((int) (sizeof(words)/sizeof(*words)))

static int parameters(const char *word)
{
  return(strcmp(word,"-hash") == 0 || strcmp(word,"-list") == 0 || strcmp(word,"+debug") == 0);
}

static char want[64][4300];
static int wants;

static int by_name(const void *a,const void *b)
{
  return(strcasecmp(*(const char *const *) a,*(const char *const *) b));
}

static void expect(const char *word)
{
  const char *tail=strrchr(word,'/'),*found[TOP];
  char head[4200];
  const thing *list=NULL;
  const int *there=NULL;
  int n=0,i,count=0;
  snprintf(want[wants++],sizeof(want[0]),"%s",word);
  if (*word == '"' || *word == '\'')
    return;
  tail=tail ? tail+1 : word;
  if (strpbrk(tail,"*?{}[]") == NULL)
    return;
  if (in_top[3] && (strcmp(tail,"[x]") == 0))
    return;
  snprintf(head,sizeof(head),"%.*s",tail == word ? 0 : (int) (tail-word-1),word);
  if (*head == '~')
    snprintf(head,sizeof(head),"%s",base);
  if (*head == 0 || strcmp(head,".") == 0 || strcmp(head,base) == 0)
    list=top, there=in_top, n=TOP;
  if (in_top[5] && (strcmp(head,"d.t") == 0 || (strncmp(head,base,strlen(base)) == 0 && strcmp(head+strlen(base),"/d.t") == 0)))
    list=inner, there=in_inner, n=INNER;
  for (i=0; i < n; i++)
    if (there[i] && !list[i].directory && *list[i].name != '.' && match(list[i].name,tail))
      found[count++]=list[i].name;
  if (count == 0)
    return;
  wants--;
  qsort(found,count,sizeof(*found),by_name);
  for (i=0; i < count; i++)
    snprintf(want[wants++],sizeof(want[0]),"%s%s%s",head,*head ? "/" : "",found[i]);
}

static void run(const int *pick,int n)
{
  char *given[8],**argv=given,absolute[4300],line[9000];
  const char *actual[8];
  int argc=0,i,status;
  wants=0;
  given[argc++]=strdup("command");
  strcpy(want[wants++],"command");
  for (i=0; i < n; i++)
  {
    actual[i]=words[pick[i]];
    if (*actual[i] == '@')
      {
        snprintf(absolute,sizeof(absolute),"%s%s",base,actual[i]+1);
        actual[i]=absolute;
      }
    given[argc++]=strdup(actual[i]);
  }
  given[argc]=NULL;
  for (i=0; i < n; i++)
  {
    if (!parameters(actual[i]))
      {
        expect(actual[i]);
        continue;
      }
    strcpy(want[wants++],actual[i]);
    if (i+1 < n)
      strcpy(want[wants++],actual[++i]);
  }
  for (i=0, *line=0; i < argc; i++)
    snprintf(line+strlen(line),sizeof(line)-strlen(line)," %s",given[i]);
  status=ExpandFilenames(&argc,&argv);
  MC_CHECK(status != WizardFalse,"expansion failed");
  for (i=0; (i < argc) && (i < wants); i++)
    MC_CHECK(strcmp(argv[i],want[i]) == 0,"%s: argument %d is %s instead of %s",line,i,argv[i],want[i]);
  MC_CHECK(argc == wants,"%s: %d arguments instead of %d, %s %s",line,argc,wants,argc > wants ? "one more:" : "missing:",
    argc > wants ? argv[wants] : want[argc]);
  MC_CHECK(argv[argc] == NULL,"the arguments do not end");
  for (i=0; i < argc; i++)
    argv[i]=DestroyString(argv[i]);
  argv=(char **) RelinquishWizardMemory(argv);
  for (i=0; i <= n; i++)
    free(given[i]);
  mc_transition();
}

static void make(const char *path,int directory)
{
  FILE *f;
  if (directory)
    {
      mkdir(path,0700);
      return;
    }
  f=fopen(path,"w");
  if (f != NULL)
    fclose(f);
}

static void empty(const char *directory)
{
  char path[4400];
  int i;
  for (i=0; i < INNER; i++)
  {
    snprintf(path,sizeof(path),"%s/d.t/%s",directory,inner[i].name);
    remove(path);
  }
  for (i=0; i < TOP; i++)
  {
    snprintf(path,sizeof(path),"%s/%s",directory,top[i].name);
    remove(path);
  }
}

/* every worker has a directory of its own */
static void prepare(void)
{
  const char *home=getenv("WIZARD_HOME");
  if (*base != 0)
    return;
  if (home == NULL || snprintf(base,sizeof(base),"%s/expand",home) >= 4000)
    exit(3);
  mkdir(home,0700);
  mkdir(base,0700);
  empty(base);
  setenv("HOME",base,1);
  WizardsToolkitGenesis("expand_enum");
}

static void body(void)
{
  char path[200];
  int i,j,k,pick[3],full=1;
  for (i=0; i < TOP; i++)
    in_top[i]=mc_choose(2,top[i].name);
  memset(in_inner,0,sizeof(in_inner));
  if (in_top[5])
    for (i=0; i < INNER; i++)
      in_inner[i]=mc_choose(2,inner[i].name);
  for (i=0; i < TOP; i++)
    full&=in_top[i];
  prepare();
  if (chdir(base) != 0)
    exit(3);
  for (i=0; i < TOP; i++)
    if (in_top[i])
      make(top[i].name,top[i].directory);
  for (i=0; i < INNER; i++)
    if (in_inner[i])
      {
        snprintf(path,sizeof(path),"d.t/%s",inner[i].name);
        make(path,inner[i].directory);
      }
  mc_nontrivial();
  for (i=0; i < WORDS; i++)
  {
    pick[0]=i;
    run(pick,1);
    for (j=0; j < WORDS; j++)
    {
      pick[1]=j;
      run(pick,2);
      if (full || mc_thorough())
        for (k=0; k < WORDS; k++)
        {
          pick[2]=k;
          run(pick,3);
        }
    }
  }
  for (i=0; i < INNER; i++)
  {
    snprintf(path,sizeof(path),"d.t/%s",inner[i].name);
    if (in_inner[i])
      remove(path);
  }
  for (i=0; i < TOP; i++)
    if (in_top[i])
      remove(top[i].name);
  mc_observe(in_top,sizeof(in_top));
  mc_observe(in_inner,sizeof(in_inner));
}

int main(int argc,char **argv)
{
  static mc_harness h={ .property="C52", .name="expand_enum",
    .rule="a wildcard argument becomes the sorted list of files it matches, every other argument stays", 
    .body=body };
  return(mc_main(argc,argv,&h));
}

/*
  Messages from locale files.

  The oracle writes the locale file together with the table of messages it
  defines, so that it never reads one: the tag of a message is the path of
  the elements around it and its name, and the last definition counts.
*/
#include "common.h"
#include <locale.h>
#include "wizard/locale_.h"
#include "simfs.h"

typedef struct
{
  char tag[120],text[80],path[60];
} message;

extern const char *GetLocaleValue(const LocaleInfo *);

static message table[64];
static int messages,said;
static ExceptionInfo *exception;

static void define(const char *path,const char *prefix,const char *name,const char *text)
{
  char tag[160];
  message *m;
  snprintf(tag,sizeof(tag),"%s%s/",prefix,name);
  for (m=table; m < table+messages; m++)
    if (strcasecmp(m->tag,tag) == 0)
      break;
  if (m == table+messages)
    messages++;
  snprintf(m->tag,sizeof(m->tag),"%s",tag);
  snprintf(m->text,sizeof(m->text),"%s",text);
  snprintf(m->path,sizeof(m->path),"%s",path);
}

static const message *find(const char *tag)
{
  int i;
  for (i=0; i < messages; i++)
    if (strcasecmp(table[i].tag,tag) == 0)
      return(table+i);
  return(NULL);
}

/* a message by the tag without its last separator */
static void look(const char *tag)
{
  char full[200];
  const message *m;
  const char *text;
  const LocaleInfo *info;
  snprintf(full,sizeof(full),"%s/",tag);
  m=find(full);
  if (said)
    mc_note("message %s\n",tag);
  text=GetLocaleMessage(tag);
  MC_CHECK(text != NULL,"no message for %s",tag);
  MC_CHECK(strcmp(text,m ? m->text : tag) == 0,"message %s is \"%s\" instead of \"%s\"",tag,text,m ? m->text : tag);
  info=GetLocaleInfo_(full,exception);
  MC_CHECK((info != NULL) == (m != NULL),"message %s %s",tag,m ? "missing" : "found");
  if (info != NULL)
    {
      MC_CHECK(strcmp(GetLocaleValue(info),m->text) == 0,"message %s is \"%s\" instead of \"%s\"",tag,
        GetLocaleValue(info),m->text);
      MC_CHECK(strcasecmp(info->tag,full) == 0 && strcmp(info->path,m->path) == 0,"message %s is listed as %s of %s",tag,
        info->tag,info->path);
    }
}

static int by_tag(const void *a,const void *b)
{
  return(strcasecmp((*(const message *const *) a)->tag,(*(const message *const *) b)->tag));
}

static int by_path(const void *a,const void *b)
{
  int c=strcasecmp((*(const message *const *) a)->path,(*(const message *const *) b)->path);
  return(c ? c : by_tag(a,b));
}

static size_t wanted(const char *pattern,const message **want)
{
  size_t k=0;
  int i;
  for (i=0; i < messages; i++)
    if (GlobExpression(table[i].tag,pattern,WizardTrue) != WizardFalse)
      want[k++]=table+i;
  return(k);
}

static void list(const char *pattern)
{
  const message *want[64];
  size_t n=77,k=wanted(pattern,want),i;
  char **tags;
  if (said)
    mc_note("list %s\n",pattern);
  qsort(want,k,sizeof(*want),by_tag);
  tags=GetLocaleList(pattern,&n,exception);
  MC_CHECK(tags != NULL,"no list");
  MC_CHECK(n == k,"%zu messages listed for %s instead of %zu",n,pattern,k);
  for (i=0; i < n; i++)
  {
    MC_CHECK(strcmp(tags[i],want[i]->tag) == 0,"%s listed instead of %s",tags[i],want[i]->tag);
    tags[i]=DestroyString(tags[i]);
  }
  MC_CHECK(tags[n] == NULL,"list does not end");
  tags=(char **) RelinquishWizardMemory(tags);
}

static void infos(const char *pattern)
{
  const message *want[64];
  size_t n=77,k=wanted(pattern,want),i;
  const LocaleInfo **info;
  if (said)
    mc_note("list messages %s\n",pattern);
  qsort(want,k,sizeof(*want),by_path);
  info=GetLocaleInfoList(pattern,&n,exception);
  MC_CHECK(info != NULL,"no list");
  MC_CHECK(n == k,"%zu messages listed for %s instead of %zu",n,pattern,k);
  for (i=0; i < n; i++)
    MC_CHECK(strcmp(info[i]->tag,want[i]->tag) == 0 && strcmp(info[i]->message,want[i]->text) == 0 &&
      strcmp(info[i]->path,want[i]->path) == 0,"%s \"%s\" of %s listed instead of %s \"%s\" of %s",info[i]->tag,
      info[i]->message,info[i]->path,want[i]->tag,want[i]->text,want[i]->path);
  MC_CHECK(info[n] == NULL,"list does not end");
  info=(const LocaleInfo **) RelinquishWizardMemory((void *) info);
}

static void print(void)
{
  const message *want[64];
  size_t k=wanted("*",want),i,size=0;
  char text[20000],*out=NULL,*p=text;
  const char *path=NULL;
  FILE *f;
  if (said)
    mc_note("print the list\n");
  qsort(want,k,sizeof(*want),by_path);
  for (i=0, *p=0; i < k; i++)
  {
    if ((path == NULL) || (strcasecmp(path,want[i]->path) != 0))
      p+=sprintf(p,"\nPath: %s\n\nTag/Message\n%.79s\n",want[i]->path,
        "--------------------------------------------------------------------------------");
    path=want[i]->path;
    p+=sprintf(p,"%s\n  %s\n",want[i]->tag,want[i]->text);
  }
  f=open_memstream(&out,&size);
  MC_CHECK(ListLocaleInfo(f,exception) != WizardFalse,"listing failed");
  fclose(f);
  MC_CHECK(strcmp(out,text) == 0,"listed:\n%s\ninstead of:\n%s",out,text);
  free(out);
}

static void load(void)
{
  LocaleComponentTerminus();
  LocaleComponentGenesis();
}

static void everything(void)
{
  static const char *const some[]={ "X","Y","A","A/X","A/Y","B/X","B/Y","A/A/X","A/B/X","B/A/Y","A/A/A/X","/X","A//X","a/x","",
    "A/X/","m","Exception/X","E/X" };
  char tag[120];
  int i;
  for (i=0; i < messages; i++)
  {
    strcpy(tag,table[i].tag);
    tag[strlen(tag)-1]=0;
    look(tag);
    mc_transition();
  }
  for (i=0; i < (int) (sizeof(some)/sizeof(*some)); i++)
    if (*some[i])
      look(some[i]);
}

static void examine(void)
{
  int i;
  load();
  list("*");
  everything();
  list("*");
  infos("*");
  list("A/*");
  infos("*/X/");
  print();
  list("*");
  everything();
  load();
  look("A/X");
  print();
  infos("*");
  for (i=0; i < messages; i++)
    mc_observe(table+i,sizeof(*table));
}

static char text[4000];
static const char *gap;

static void put(const char *s)
{
  strcat(text,s);
  strcat(text,gap);
}

static const char *const texts[][2]=
{
  { "m","m" },
  { "a/b","a/b" },
  { "","" },
  { "\n   two  words \n ","two  words" },
  { "/","/" },
  { "`%s' = \"5\" > 4, x/y/z","`%s' = \"5\" > 4, x/y/z" },
};
#define TEXTS 6

/*
  Every sequence of elements, closed at the end.
*/
static void contents(int restricted)
{
  static const char *const file="/sim/etc/locale.xml";
  static const char *const sub[]={ "A","B" },*const name[]={ "X","Y" };
  char path[10][4],prefix[60],line[200];
  int n,i,j,depth=0,op,sections=1,ops=4+(restricted ? 4 : 2*TEXTS+1);
  n=mc_choose(restricted ? (mc_thorough() ? 8 : 7) : (mc_thorough() ? 6 : 5),"elements");
  gap=mc_choose(2,"layout") ? "\n  " : "";
  sim_reset();
  messages=0;
  strcpy(text,"<?xml version=\"1.0\"?>\n");
  put("<localemap>");
  put("<locale name=\"C\">");
  for (i=0; i < n; i++)
  {
    op=mc_choose(ops,"element");
    switch (op)
    {
      case 0:
        if (depth == 0)
          mc_skip();
        sprintf(line,"</%s>",path[--depth]);
        put(line);
        break;
      case 1:
      case 2:
        strcpy(path[depth++],sub[op-1]);
        sprintf(line,"<%s>",sub[op-1]);
        put(line);
        break;
      case 3:
        /* another section */
        if ((depth > 0) || (sections == 2))
          mc_skip();
        sections++;
        put("</locale>");
        put("<locale name=\"C\">");
        break;
      default:
        op-=4;
        if (!restricted && (op == 2*TEXTS))
          {
            put("<!-- <A> <message name=\"X\">no</message> -->");
            break;
          }
        *prefix=0;
        for (j=0; j < depth; j++)
          sprintf(prefix+strlen(prefix),"%s/",path[j]);
        sprintf(line,"<Message name=\"%s\">%s%s%s",name[op%2],gap,texts[op/2][0],gap);
        strcat(text,line);
        put("</Message>");
        define(file,prefix,name[op%2],texts[op/2][1]);
        break;
    }
  }
  while (depth > 0)
  {
    sprintf(line,"</%s>",path[--depth]);
    put(line);
  }
  put("</locale>");
  put("</localemap>");
  said=mc_noting();
  if (said)
    mc_note("%s\n",text);
  sim_put(file,text,strlen(text));
  if (messages == 0)
    define("built-in","Exception/","","");
  else
    mc_nontrivial();
  examine();
}

static void put_file(const char *path,const char *content)
{
  sim_put(path,content,strlen(content));
  if (said)
    mc_note("%s: %s\n",path,content);
}

/*
  Which files are read.
*/
static void places(void)
{
  static const char *const elements[]={ "<include locale=\"C\" file=\"one.xml\" />","<include locale=\"xx\" file=\"one.xml\" />",
    "<include file=\"sub/two.xml\" />","<include locale=\"C\" file=\"none.xml\" />","<include file=\"/sim/abs.xml\" />",
    "<A><message name=\"X\">here</message></A>" };
  int n=mc_choose(4,"elements"),i,home,english;
  char s[1000]="<localemap>\n";
  sim_reset();
  messages=0;
  said=mc_noting();
  english=mc_choose(2,"english");
  home=mc_choose(3,"home");
  for (i=0; i < n; i++)
  {
    int k=mc_choose(6,"element");
    strcat(s,elements[k]);
    strcat(s,"\n");
    if (k == 0)
      {
        define("/sim/etc/one.xml","A/","X","one");
        define("/sim/etc/one.xml","B/","X","one b");
      }
    if (k == 2)
      {
        define("/sim/etc/sub/three.xml","B/","Y","three");
        define("/sim/etc/sub/two.xml","B/","X","two");
      }
    if (k == 4)
      define("/sim/abs.xml","A/","Y","abs");
    if (k == 5)
      define("/sim/etc/locale.xml","A/","X","here");
  }
  strcat(s,"</localemap>\n");
  put_file("/sim/etc/locale.xml",s);
  put_file("/sim/etc/one.xml","<localemap><locale name=\"C\"><A><message name=\"X\">one</message></A>"
    "<B><message name=\"X\">one b</message></B></locale></localemap>");
  put_file("/sim/etc/sub/two.xml","<localemap><include locale=\"C\" file=\"three.xml\"/><locale name=\"C\"><B><message name=\"X\">two</message></B></locale></localemap>");
  put_file("/sim/etc/sub/three.xml","<localemap><locale name=\"C\"><B><message name=\"Y\">three</message></B></locale></localemap>");
  put_file("/sim/abs.xml","<localemap><locale name=\"C\"><A><message name=\"Y\">abs</message></A></locale></localemap>");
  if (home)
    {
      const char *path="/sim/home/.config/WizardsToolkit/locale.xml";
      put_file(path,home == 1 ? "<localemap></localemap>" :
        "<localemap><locale name=\"C\"><A><message name=\"X\">home</message></A></locale></localemap>");
      if (home == 2)
        define(path,"A/","X","home");
    }
  if (english)
    {
      put_file("/sim/etc/english.xml","<localemap><locale name=\"C\"><E><message name=\"X\">english</message></E></locale></localemap>");
      if (messages == 0)
        define("/sim/etc/english.xml","E/","X","english");
    }
  if (messages == 0)
    define("built-in","Exception/","","");
  mc_nontrivial();
  examine();
}

/*
  A file that includes itself ends.
*/
static void nested(void)
{
  sim_reset();
  messages=0;
  said=mc_noting();
  put_file("/sim/etc/locale.xml","<localemap><include file=\"locale.xml\"/><A><message name=\"X\">m</message></A></localemap>");
  define("/sim/etc/locale.xml","A/","X","m");
  mc_nontrivial();
  examine();
}

static void body(void)
{
  switch (mc_choose(4,"part"))
  {
    case 0: contents(0); break;
    case 1: contents(1); break;
    case 2: places(); break;
    default: nested(); break;
  }
}

static void init(void)
{
  setenv("HOME","/sim/home",1);
  unsetenv("XDG_CONFIG_HOME");
  unsetenv("LOCALAPPDATA");
  unsetenv("APPDATA");
  unsetenv("USERPROFILE");
  unsetenv("WIZARD_HOME");
  setenv("WIZARD_CONFIGURE_PATH","/sim/etc",1);
  WizardsToolkitGenesis("locale_seq");
  setlocale(LC_ALL,"C");
  exception=AcquireExceptionInfo();
}

int main(int argc,char **argv)
{
  static mc_harness h={ .property="C49", .name="locale_seq",
    .rule="a message is the one the locale files define for its tag",
    .init=init, .body=body };
  return(mc_main(argc,argv,&h));
}

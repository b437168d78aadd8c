/*
  Detection of file types by name and content.

  The oracle reads the table on its own: of the entries that match a name or
  content, the one with the smallest priority number, and of several such the
  last of the table.  It has no memory, so any influence of an earlier lookup
  shows as a difference.
*/
#include "common.h"
#include "wizard/mime.h"
#include "wizard/mime-private.h"
#include "simfs.h"

typedef struct
{
  char type[80],description[120],pattern[64];
  int has_pattern,has_magic,kind,endian,stealth;    /* kind 0: string, or bytes of a number */
  long priority,offset,extent,length;
  unsigned long mask,value;
  unsigned char magic[300];
} entry;

static entry table[1400];
static int entries;

/* text of a signature with its escapes replaced */
static int unescape(const char *p,unsigned char *out)
{
  int n=0,k;
  while (*p)
  {
    if (*p != '\\')
      {
        out[n++]=(unsigned char) *p++;
        continue;
      }
    p++;
    if ((*p >= '0') && (*p <= '7'))
      {
        int v=0;
        for (k=0; (k < 3) && (*p >= '0') && (*p <= '7'); k++)
          v=8*v+*p++-'0';
        out[n++]=(unsigned char) v;
        continue;
      }
    if ((*p == 'x') && isxdigit((unsigned char) p[1]))
      {
        char hex[3]={ p[1],isxdigit((unsigned char) p[2]) ? p[2] : 0,0 };
        out[n++]=(unsigned char) strtol(hex,NULL,16);
        p+=1+strlen(hex);
        continue;
      }
    k=*p++;
    out[n++]=(unsigned char) (k == 'b' ? '\b' : k == 'f' ? '\f' : k == 'n' ? '\n' : k == 'r' ? '\r' :
      k == 't' ? '\t' : k == 'v' ? '\v' : k);
  }
  return(n);
}

/* value of an attribute of a tag, entities replaced; 0: absent */
static int attribute(const char *tag,const char *end,const char *name,char *out,size_t size)
{
  static const char *const entity[]={ "&lt;","<","&gt;",">","&quot;","\"","&apos;","'","&amp;","&" };
  const char *p;
  size_t n=0,i,l=strlen(name);
  *out=0;
  for (p=tag; p < end; p++)
    if (isspace((unsigned char) p[0]) && (strncmp(p+1,name,l) == 0) && (p[l+1] == '='))
      break;
  if (p >= end)
    return(0);
  for (p+=l+3; (*p != '"') && (p < end); )
  {
    for (i=0; i < 10; i+=2)
      if (strncmp(p,entity[i],strlen(entity[i])) == 0)
        break;
    if (n+1 >= size)
      return(0);
    out[n++]=(i < 10) ? *entity[i+1] : *p;
    p+=(i < 10) ? strlen(entity[i]) : 1;
  }
  out[n]=0;
  return(1);
}

static void read_table(const char *text)
{
  char a[400];
  const char *p=text,*end;
  entries=0;
  while ((p=strchr(p,'<')) != NULL)
  {
    entry *e=table+entries;
    if (strncmp(p,"<!--",4) == 0)
      {
        p=strstr(p,"-->");
        if (p == NULL)
          return;
        continue;
      }
    if (strncmp(p,"<mime ",6) != 0)
      {
        p++;
        continue;
      }
    for (end=p; *end != '>'; end++)
      if (*end == '"')
        end=strchr(end+1,'"');
    memset(e,0,sizeof(*e));
    attribute(p,end,"type",e->type,sizeof(e->type));
    attribute(p,end,"description",e->description,sizeof(e->description));
    e->has_pattern=attribute(p,end,"pattern",e->pattern,sizeof(e->pattern));
    if (attribute(p,end,"data-type",a,sizeof(a)))
      e->kind=strcmp(a,"byte") == 0 ? 1 : strcmp(a,"short") == 0 ? 2 : strcmp(a,"long") == 0 ? 4 : 0;
    if (attribute(p,end,"endian",a,sizeof(a)))
      e->endian=strcmp(a,"MSB") == 0;
    if (attribute(p,end,"priority",a,sizeof(a)))
      e->priority=atol(a);
    if (attribute(p,end,"stealth",a,sizeof(a)))
      e->stealth=strcmp(a,"True") == 0;
    if (attribute(p,end,"mask",a,sizeof(a)))
      e->mask=strtoul(a,NULL,0);
    if (attribute(p,end,"offset",a,sizeof(a)))
      {
        char *c;
        e->offset=strtol(a,&c,0);
        if (*c == ':')
          e->extent=strtol(c+1,NULL,0);
      }
    e->has_magic=attribute(p,end,"magic",a,sizeof(a));
    if (e->has_magic)
      {
        e->length=unescape(a,e->magic);
        e->value=strtoul(a,NULL,0);
      }
    p=end;
    entries++;
  }
}

static int matches(const entry *e,const char *name,const unsigned char *content,long length)
{
  unsigned long v=0;
  long i;
  if (e->has_pattern && (name != NULL))
    return(GlobExpression(name,e->pattern,WizardFalse) != WizardFalse);
  if (!e->has_magic)
    return(0);
  if (e->kind == 0)
    {
      for (i=0; i <= e->extent; i++)
        if ((e->offset+i+e->length <= length) &&
            (memcmp(content+e->offset+i,e->magic,e->length) == 0))
          return(1);
      return(0);
    }
  if (e->offset+e->kind > length)
    return(0);
  for (i=0; i < e->kind; i++)
    v=(v << 8) | content[e->offset+(e->endian ? i : e->kind-1-i)];
  return(e->mask ? ((v & e->mask) == (e->value & e->mask)) : (v == e->value));
}

static const entry *expected(const char *name,const unsigned char *content,long length)
{
  const entry *best=NULL;
  int i;
  if (length == 0)
    return(entries ? table : NULL);
  for (i=0; i < entries; i++)
    if (((best == NULL) || (table[i].priority <= best->priority)) && matches(table+i,name,content,length))
      best=table+i;
  return(best);
}

static ExceptionInfo *exception;
static int said;

static char *show(const unsigned char *p,long n)
{
  static char s[4][400];
  static int k;
  long i;
  char *t=s[k++ & 3];
  for (i=0, *t=0; (i < n) && (i < 100); i++)
    sprintf(t+strlen(t),(p[i] >= 33) && (p[i] < 127) ? "%c" : "\\%03o",p[i]);
  if (n > 100)
    strcat(t,"...");
  return(t);
}

static void look(const char *name,const unsigned char *content,long length)
{
  unsigned char *exact=malloc(length ? length : 1);
  const entry *e=expected(name,content,length);
  const MimeInfo *m;
  const char *d;
  memcpy(exact,content,length);
  if (length == 0)
    ASAN_POISON_MEMORY_REGION(exact,1);
  if (said)
    mc_note("look up name %s content \"%s\" (%ld bytes)\n",name ? name : "(none)",show(content,length),length);
  m=GetMimeInfo(name,exact,length,exception);
  if (m == NULL)
    MC_CHECK(e == NULL,"no type found for name %s content \"%s\"; the table says %s (%s)",
      name ? name : "(none)",show(content,length),e->type,e->description);
  else
    {
      d=GetMimeDescription(m);
      MC_CHECK(e != NULL,"type %s (%s) found for name %s content \"%s\"; the table has none",
        GetMimeType(m),d ? d : "",name ? name : "(none)",show(content,length));
      MC_CHECK((strcmp(GetMimeType(m),e->type) == 0) && (strcmp(d ? d : "",e->description) == 0),
        "type %s (%s) found for name %s content \"%s\"; the table says %s (%s)",
        GetMimeType(m),d ? d : "",name ? name : "(none)",show(content,length),e->type,e->description);
    }
  if (length == 0)
    ASAN_UNPOISON_MEMORY_REGION(exact,1);
  free(exact);
}

static int compare(const void *a,const void *b)
{
  return(strcasecmp(*(char *const *) a,*(char *const *) b));
}

/* the list of types does not change either */
static void listing(const char *pattern)
{
  size_t n,i,k=0;
  const char *want[1400];
  char **list;
  const MimeInfo **info;
  for (i=0; i < (size_t) entries; i++)
    if (!table[i].stealth && (GlobExpression(table[i].type,pattern,WizardFalse) != WizardFalse))
      want[k++]=table[i].type;
  qsort(want,k,sizeof(*want),compare);
  if (said)
    mc_note("list types %s\n",pattern);
  list=GetMimeList(pattern,&n,exception);
  if (list == NULL)
    MC_CHECK(entries == 0,"no list of %d types",entries);
  else
    {
      MC_CHECK(n == k,"%zu types listed for %s instead of %zu",n,pattern,k);
      for (i=0; i < n; i++)
      {
        MC_CHECK(strcasecmp(list[i],want[i]) == 0,"%s listed instead of %s",list[i],want[i]);
        list[i]=DestroyString(list[i]);
      }
      MC_CHECK(list[n] == NULL,"list of types does not end");
      list=(char **) RelinquishWizardMemory(list);
    }
  info=GetMimeInfoList(pattern,&n,exception);
  if (info != NULL)
    {
      MC_CHECK(n == k,"%zu entries listed for %s instead of %zu",n,pattern,k);
      for (i=0; i < n; i++)
        MC_CHECK(strcasecmp(GetMimeType(info[i]),want[i]) == 0,"entry %s listed instead of %s",
          GetMimeType(info[i]),want[i]);
      info=(const MimeInfo **) RelinquishWizardMemory((void *) info);
    }
}

static void suffix(const char *format)
{
  char name[80],*s,want[160];
  const entry *e;
  snprintf(name,sizeof(name),"file.%s",format);
  e=expected(name,(const unsigned char *) " ",1);
  if (e)
    snprintf(want,sizeof(want),"%s",e->type);
  else
    snprintf(want,sizeof(want),"image/x-%s",format);
  if (said)
    mc_note("type of format %s\n",format);
  s=WizardToMime(format);
  MC_CHECK(strcmp(s,want) == 0,"format %s has type %s instead of %s",format,s,want);
  s=DestroyString(s);
}

static const char *const samples[]={
  "data-type=\"string\" offset=\"0\" magic=\"AB\" priority=\"50\"",
  "data-type=\"string\" offset=\"1\" magic=\"B\" priority=\"50\"",
  "data-type=\"string\" offset=\"0:2\" magic=\"BA\" priority=\"60\"",
  "data-type=\"string\" magic=\"A\\000\\101\" priority=\"40\"",
  "data-type=\"string\" offset=\"1:1\" magic=\"\\x41\\x00\" priority=\"50\"",
  "data-type=\"byte\" offset=\"0\" magic=\"0x41\" priority=\"50\"",
  "data-type=\"byte\" offset=\"2\" mask=\"0x03\" magic=\"0x02\" priority=\"60\"",
  "data-type=\"short\" endian=\"LSB\" offset=\"1\" magic=\"0x4241\" priority=\"50\"",
  "data-type=\"short\" endian=\"MSB\" offset=\"0\" mask=\"0x00ff\" magic=\"0x0041\" priority=\"40\"",
  "data-type=\"short\" offset=\"0\" magic=\"0x4200\" priority=\"50\"",
  "data-type=\"long\" endian=\"MSB\" offset=\"0\" magic=\"0x41420041\" priority=\"40\"",
  "data-type=\"long\" endian=\"LSB\" offset=\"1\" mask=\"0xff0000ff\" magic=\"0x41000042\" priority=\"60\"",
  "pattern=\"*.ab\" priority=\"50\"",
  "pattern=\"*.a?\" priority=\"40\"",
  "pattern=\"*.ab\" data-type=\"string\" magic=\"B\" priority=\"50\" stealth=\"True\"",
  "data-type=\"string\" offset=\"3\" magic=\"A&lt;\" priority=\"50\"",
};
#define SAMPLES ((int) (sizeof(samples)/sizeof(*samples)))

static char text[4000];

static void load(void)
{
  MimeComponentTerminus();
  MimeComponentGenesis();
}

static void step(int op)
{
  switch (op)
  {
    case 0: look(NULL,(const unsigned char *) "ABA",3); break;
    case 1: look(NULL,(const unsigned char *) "BA\0A",4); break;
    case 2: look("x.ab",(const unsigned char *) "\0BAA",4); break;
    case 3: look("x.ac",(const unsigned char *) "B",1); break;
    case 4: look("y",(const unsigned char *) "A\0A",3); break;
    case 5: look(NULL,(const unsigned char *) "",0); break;
    case 6: listing("*"); break;
    case 7: suffix("ab"); break;
    case 8: look(NULL,(const unsigned char *) "\0\0\0",3); break;
  }
}

static void small(void)
{
  static const unsigned char letters[]={ 'A','B',0,'<' };
  static const char *const names[]={ NULL,"x.ab","x.ac","y" };
  int size=mc_choose(4,"entries"),pick[4],i,j,k,n;
  unsigned char content[6];
  snprintf(text,sizeof(text),"<?xml version=\"1.0\"?>\n<mimemap>\n");
  for (i=0; i < size; i++)
  {
    pick[i]=mc_choose(SAMPLES,"entry");
    snprintf(text+strlen(text),sizeof(text)-strlen(text),
      "  <mime type=\"t/%c%d\" description=\"entry %d\" %s />\n",'a'+pick[i]%3,pick[i]/3,i,samples[pick[i]]);
  }
  strcat(text,"</mimemap>\n");
  sim_reset();
  sim_put("/sim/etc/mime.xml",text,strlen(text));
  setenv("WIZARD_CONFIGURE_PATH","/sim/etc",1);
  read_table(text);
  MC_CHECK(entries == size,"oracle read %d entries of %d",entries,size);
  said=mc_noting();
  if (said)
    mc_note("table: %s\n",text);
  load();
  if (size)
    mc_nontrivial();
  /* one long history of every content and name */
  for (k=0; k < 4; k++)
    for (n=1; n <= (mc_thorough() ? 5 : 4); n++)
      for (i=0; i < (1 << (2*n)); i++)
      {
        for (j=0; j < n; j++)
          content[j]=letters[(i >> (2*j)) & 3];
        look(names[k],content,n);
        mc_transition();
      }
  listing("*");
  listing("t/a*");
  listing("none");
  /* every short history in a fresh table */
  n=size > 2 ? 2 : 3;
  if (mc_thorough())
    n++;
  for (i=0, k=1; i < n; i++)
    k*=9;
  for (i=0; i < k; i++)
  {
    load();
    for (j=0, n=i; j < (k == 81 ? 2 : k == 729 ? 3 : 4); j++, n/=9)
    {
      step(n%9);
      mc_transition();
    }
    mc_count(0,1);
  }
  mc_observe(text,strlen(text));
}

static char *shipped;
static char directory[4096];

static void full(void)
{
  int from=mc_choose(256,"group"),i,j,k;
  sim_reset();
  setenv("WIZARD_CONFIGURE_PATH",directory,1);
  said=mc_noting();
  if (entries < 100)
    read_table(shipped);
  load();
  for (i=from; i < entries; i+=256)
  {
    entry *e=table+i;
    unsigned char *content;
    long length=e->offset+e->extent+(e->kind ? e->kind : e->length)+3,at,n;
    char name[80];
    mc_nontrivial();
    if (length > 8192)
      length=8192;
    content=malloc(length);
    if (said)
      mc_note("entry %d: %s (%s)\n",i,e->type,e->description);
    if (e->has_pattern)
      {
        /* a name that the pattern matches */
        for (j=0, k=0; (e->pattern[j] != 0) && (k < 70); j++)
          if (e->pattern[j] == '[')
            {
              name[k++]=e->pattern[j+1];
              while ((e->pattern[j] != ']') && (e->pattern[j] != 0))
                j++;
            }
          else
            name[k++]=(e->pattern[j] == '*') || (e->pattern[j] == '?') ? 'q' : e->pattern[j];
        name[k]=0;
        memset(content,'#',length);
        for (n=0; n <= 3; n++)
        {
          look(name,content,n);
          look(NULL,content,n);
        }
        if (strncmp(e->pattern,"*.",2) == 0)
          {
            for (k=0; name[k]; k++)
              if (isupper((unsigned char) name[k]))
                break;
            if (name[k] == 0)
              suffix(name+2);
          }
      }
    for (at=0; e->has_magic && (at <= e->extent); at+=(at+1 >= e->extent) || (e->extent < 40) ? 1 : e->extent-1)
    {
      memset(content,'#',length);
      if (e->offset+at+(e->kind ? e->kind : e->length) > length)
        break;
      if (e->kind == 0)
        memcpy(content+e->offset+at,e->magic,e->length);
      else
        for (j=0; j < e->kind; j++)
          content[e->offset+j]=(unsigned char) (e->value >> 8*(e->endian ? e->kind-1-j : j));
      for (n=length > 160 ? length-160 : 0; n <= length; n++)
        look(NULL,content,n);
      look("plain",content,length);
      look("plain.txt",content,length);
      look(NULL,(const unsigned char *) "nothing",7);
      /* a changed byte of the signature */
      for (j=0; j < (e->kind ? e->kind : e->length); j++)
      {
        content[e->offset+at+j]^=0x10;
        look(NULL,content,length);
        content[e->offset+at+j]^=0x10;
      }
      mc_transition();
    }
    free(content);
  }
  listing("*");
  listing("image/*");
  mc_observe_int(from);
}

static void body(void)
{
  if (mc_choose(2,"table") == 0)
    small();
  else
    full();
}

static void init(void)
{
  char path[4200];
  FILE *f;
  long n;
  snprintf(directory,sizeof(directory),"%s/config",getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo");
  snprintf(path,sizeof(path),"%s/mime.xml",directory);
  f=fopen(path,"r");
  if (f == NULL)
    {
      fprintf(stderr,"no %s\n",path);
      exit(3);
    }
  shipped=calloc(1,4 << 20);
  n=fread(shipped,1,(4 << 20)-1,f);
  fclose(f);
  if (n < 1000)
    exit(3);
  setenv("HOME","/sim/home",1);
  unsetenv("XDG_CONFIG_HOME");
  unsetenv("WIZARD_HOME");
  mc_counter_name(0,"short histories");
  WizardsToolkitGenesis("mime_seq");
  exception=AcquireExceptionInfo();
}

int main(int argc,char **argv)
{
  static mc_harness h={ .property="C38", .name="mime_seq",
    .rule="every lookup by name or content returns the type the loaded table defines",
    .init=init, .body=body };
  return(mc_main(argc,argv,&h));
}

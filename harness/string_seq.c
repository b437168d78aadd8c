/*
  Counted strings: call sequences on two objects.  Text functions: all short
  inputs.
*/
#include "common.h"
#include "wizard/string-private.h"

#define LONGEST 1024

typedef struct { size_t n; unsigned char b[LONGEST]; unsigned char known[LONGEST]; } model;

static unsigned char pattern[2][LONGEST];

static void agree(const StringInfo *s,const model *m,const char *which)
{
  size_t i;
  MC_CHECK(GetStringInfoLength(s) == m->n,"%s has length %zu instead of %zu",which,
    GetStringInfoLength(s),m->n);
  for (i=0; i < m->n; i++)
    MC_CHECK(!m->known[i] || GetStringInfoDatum(s)[i] == m->b[i],
      "byte %zu of %s is wrong",i,which);
}

static void set(model *m,const unsigned char *p,size_t n)
{
  m->n=n;
  if (p)
    memcpy(m->b,p,n);
  else
    memset(m->b,0,n);
  memset(m->known,1,n);
}

static void counted(void)
{
  static const size_t lengths[]={ 0,1,3,130 };
  StringInfo *s[2],*t;
  model m[2];
  int i,o,op,depth=mc_thorough() ? 5 : 4,sign;
  size_t n,k;
  char *text;
  o=mc_choose(mc_thorough() ? 6 : 2,"initial lengths");
  for (i=0; i < 2; i++)
  {
    n=lengths[i ? o/3 : o%3];
    s[i]=AcquireStringInfo(n);
    set(&m[i],NULL,n);
    if (n)
      {
        SetStringInfoDatum(s[i],pattern[i]);
        set(&m[i],pattern[i],n);
      }
  }
  for (i=0; i < depth; i++)
  {
    o=mc_choose(2,"object");
    op=mc_choose(11,"call");
    switch (op)
    {
      case 0:
        n=lengths[mc_choose(4,"length")];
        mc_note("%c: set length %zu\n",'A'+o,n);
        SetStringInfoLength(s[o],n);
        for (k=m[o].n; k < n; k++)
          m[o].known[k]=m[o].b[k]=0;
        m[o].n=n;
        break;
      case 1:
        mc_note("%c: set bytes\n",'A'+o);
        SetStringInfoDatum(s[o],pattern[!o]+i);
        set(&m[o],pattern[!o]+i,m[o].n);
        break;
      case 2:
        mc_note("%c: set from the other\n",'A'+o);
        SetStringInfo(s[o],s[!o]);
        n=m[o].n < m[!o].n ? m[o].n : m[!o].n;
        set(&m[o],NULL,m[o].n);
        memcpy(m[o].b,m[!o].b,n);
        memcpy(m[o].known,m[!o].known,n);
        break;
      case 3:
        if (m[0].n+m[1].n > LONGEST)
          break;
        mc_note("%c: append the other\n",'A'+o);
        ConcatenateStringInfo(s[o],s[!o]);
        memcpy(m[o].b+m[o].n,m[!o].b,m[!o].n);
        memcpy(m[o].known+m[o].n,m[!o].known,m[!o].n);
        m[o].n+=m[!o].n;
        break;
      case 4:
        n=(size_t []) { 0,1,m[o].n,m[o].n+1 } [mc_choose(4,"offset")];
        mc_note("%c: split at %zu, the other becomes the first part\n",'A'+o,n);
        t=SplitStringInfo(s[o],n);
        if (n > m[o].n)
          {
            MC_CHECK(t == NULL,"split past the end succeeded");
            break;
          }
        MC_CHECK(t != NULL,"split at %zu of %zu failed",n,m[o].n);
        DestroyStringInfo(s[!o]);
        s[!o]=t;
        m[!o]=m[o];
        m[!o].n=n;
        memmove(m[o].b,m[o].b+n,m[o].n-n);
        memmove(m[o].known,m[o].known+n,m[o].n-n);
        m[o].n-=n;
        break;
      case 5:
        mc_note("%c: clone into the other\n",'A'+o);
        t=CloneStringInfo(s[o]);
        DestroyStringInfo(s[!o]);
        s[!o]=t;
        m[!o]=m[o];
        break;
      case 6:
        mc_note("%c: reset\n",'A'+o);
        ResetStringInfo(s[o]);
        set(&m[o],NULL,m[o].n);
        break;
      case 7:
        mc_note("%c: compare with the other\n",'A'+o);
        sign=CompareStringInfo(s[o],s[!o]);
        n=m[o].n < m[!o].n ? m[o].n : m[!o].n;
        if (memchr(m[0].known,0,n) == NULL && memchr(m[1].known,0,n) == NULL)
          {
            int want=memcmp(m[o].b,m[!o].b,n);
            if (want == 0)
              want=(m[o].n > m[!o].n)-(m[o].n < m[!o].n);
            MC_CHECK((sign > 0)-(sign < 0) == (want > 0)-(want < 0),
              "comparison says %d instead of %d",sign,want);
          }
        break;
      case 8:
        mc_note("%c: from a block\n",'A'+o);
        n=lengths[mc_choose(3,"length")];
        {
          unsigned char *p=malloc(n+!n);
          memcpy(p,pattern[o]+7,n);
          DestroyStringInfo(s[o]);
          s[o]=BlobToStringInfo(p,n);
          free(p);
        }
        set(&m[o],pattern[o]+7,n);
        break;
      case 9:
        mc_note("%c: to text\n",'A'+o);
        text=StringInfoToString(s[o]);
        for (k=0; k < m[o].n; k++)
          MC_CHECK(!m[o].known[k] || (unsigned char) text[k] == m[o].b[k],
            "byte %zu of the text is wrong",k);
        MC_CHECK(text[m[o].n] == '\0',"the text is not terminated");
        DestroyString(text);
        break;
      case 10:
        mc_note("%c: from text\n",'A'+o);
        DestroyStringInfo(s[o]);
        s[o]=StringToStringInfo("abcde"+(o ? 2 : 0));
        set(&m[o],(unsigned char *) "abcde"+(o ? 2 : 0),o ? 3 : 5);
        break;
    }
    mc_transition();
    agree(s[0],&m[0],"A");
    agree(s[1],&m[1],"B");
  }
  for (i=0; i < 2; i++)
  {
    /* the whole object can still be copied */
    t=CloneStringInfo(s[i]);
    agree(t,&m[i],i ? "the copy of B" : "the copy of A");
    DestroyStringInfo(t);
    mc_observe(m[i].b,m[i].n);
    mc_observe_int(m[i].n);
    DestroyStringInfo(s[i]);
  }
}

static char *exact(const char *s)
{
  size_t n=strlen(s)+1;
  return(memcpy(malloc(n),s,n));
}

static void word(char *text,int longest,const char *letters,const char *what)
{
  int n=mc_choose(longest+1,what),i;
  for (i=0; i < n; i++)
    text[i]=letters[mc_choose(strlen(letters),what)];
  text[n]='\0';
}

static void bounded(void)
{
  int a=mc_choose(13,"source length"),b=mc_choose(13,"bound"),
    c=mc_choose(13,"present length");
  char source[16],have[32],*d,*p;
  size_t r,n;
  memcpy(source,"abcdefghijklm",a);
  source[a]='\0';
  p=exact(source);
  d=malloc(b+!b);
  memset(d,'#',b+!b);
  mc_note("copy %d characters into %d\n",a,b);
  r=CopyWizardString(d,p,b);
  if (b > 0)
    {
      n=a < b ? a : b-1;
      MC_CHECK(strlen(d) == n && memcmp(d,source,n) == 0,"wrong bounded copy");
      if (a < b)
        MC_CHECK((int) r == a,"bounded copy reports length %zu",r);
      MC_CHECK((int) r >= 0 && (int) r <= b,"bounded copy reports length %zu",r);
    }
  else
    MC_CHECK(*d == '#',"a copy into no space wrote something");
  if (b > 0)
    {
      mc_note("append %d characters to %d within %d\n",a,c,b);
      memset(d,'x',b);
      if (c < b)
        d[c]='\0';
      r=ConcatenateWizardString(d,p,b);
      snprintf(have,sizeof(have),"%.*s%s",c < b ? c : b,"xxxxxxxxxxxxxxxx",source);
      MC_CHECK(r == strlen(have),"bounded append reports %zu",r);
      if (c < b)
        {
          have[b-1]='\0';
          MC_CHECK(strcmp(d,have) == 0,"bounded append gives \"%s\"",d);
        }
    }
  free(d);
  free(p);
  mc_observe_int(a*400+b*20+c);
}

static void dynamic(void)
{
  char text[16],search[8],replace[8],want[256],*s,*p,*q;
  const char *t;
  int matched=0;
  word(text,mc_thorough() ? 5 : 4,"ab","text");
  word(search,2,"ab","search");
  word(replace,3,"ab","replacement");
  mc_note("in \"%s\" replace \"%s\" by \"%s\"\n",text,search,replace);
  for (t=text, q=want; *t; )
    if (*search && strncmp(t,search,strlen(search)) == 0)
      {
        strcpy(q,replace);
        q+=strlen(replace);
        t+=strlen(search);
        matched=1;
      }
    else
      *q++=*t++;
  *q='\0';
  s=AcquireString(text);
  p=exact(search);
  q=exact(replace);
  MC_CHECK(SubstituteString(&s,p,q) == (matched ? WizardTrue : WizardFalse),
    "substitution reports the wrong status");
  MC_CHECK(strcmp(s,want) == 0,"substitution gives \"%s\" instead of \"%s\"",s,want);
  mc_transition();
  ConcatenateString(&s,p);
  strcat(want,search);
  MC_CHECK(strcmp(s,want) == 0,"appending gives \"%s\" instead of \"%s\"",s,want);
  CloneString(&s,q);
  MC_CHECK(strcmp(s,replace) == 0,"copying gives \"%s\" instead of \"%s\"",s,replace);
  DestroyString(s);
  s=ConstantString(p);
  MC_CHECK(strcmp(s,search) == 0,"duplicate differs");
  CloneString(&s,text);
  MC_CHECK(strcmp(s,text) == 0,"copying gives \"%s\" instead of \"%s\"",s,text);
  CloneString(&s,NULL);
  MC_CHECK(s == NULL,"copying nothing leaves a string");
  free(p);
  free(q);
  mc_observe(want,strlen(want));
}

/* text larger than the space every string starts with */
static void large(void)
{
  static const int sizes[]={ 1,4095,4096,4097,8191,8192,9000 };
  int a=sizes[mc_choose(7,"length")],b=sizes[mc_choose(7,"length")],i,k=0;
  char *s=malloc(a+1),*t=malloc(b+1),*d=NULL,*want=malloc(a*3+b*3+10);
  memset(s,'a',a);
  memset(t,'b',b);
  s[a]=t[b]='\0';
  s[a/2]='c';
  *want='\0';
  for (i=0; i < 3; i++)
  {
    int second=mc_choose(2,"which");
    ConcatenateString(&d,second ? t : s);
    memcpy(want+k,second ? t : s,second ? b : a);
    k+=second ? b : a;
    want[k]='\0';
    MC_CHECK(strcmp(d,want) == 0,"appending long texts goes wrong");
  }
  if (mc_choose(2,"substitute"))
    {
      char *q=want,*big=malloc(3*a+3*b+9000*3+10),*r=big;
      for (q=want; *q; q++)
        if (*q == 'c')
          {
            memset(r,'d',3000);
            r+=3000;
          }
        else
          *r++=*q;
      *r='\0';
      q=malloc(3001);
      memset(q,'d',3000);
      q[3000]='\0';
      SubstituteString(&d,"c",q);
      MC_CHECK(strcmp(d,big) == 0,"substituting long texts goes wrong");
      free(q);
      free(big);
    }
  mc_observe_int(a*10000+b);
  DestroyString(d);
  free(s);
  free(t);
  free(want);
}

static void strip(void)
{
  char text[16],want[16],*s,*p,*q;
  word(text,mc_thorough() ? 7 : 6," a'\"\n","text");
  mc_note("strip \"%s\"\n",text);
  s=exact(text);
  StripString(s);
  mc_transition();
  /* blanks at both ends, then one quote at each end; inner newlines to blanks */
  p=text;
  while (isspace((unsigned char) *p))
    p++;
  if (*p == '\'' || *p == '"')
    p++;
  q=text+strlen(text);
  while (q > p+1 && isspace((unsigned char) q[-1]))
    q--;
  if (q > p+1 && (q[-1] == '\'' || q[-1] == '"'))
    q--;
  sprintf(want,"%.*s",(int) (q > p ? q-p : 0),p);
  for (p=want; *p; p++)
    if (*p == '\n')
      *p=' ';
  MC_CHECK(strcmp(s,want) == 0,"stripping \"%s\" gives \"%s\"",text,s);
  free(s);
  mc_observe(want,strlen(want));
}

static int sign(int x) { return((x > 0)-(x < 0)); }

static void compare(void)
{
  char a[8],b[8],*p,*q;
  int n,want=0,i;
  word(a,3,"aAbz_","first");
  word(b,3,"aAbz_","second");
  mc_note("compare \"%s\" with \"%s\"\n",a,b);
  p=exact(a);
  q=exact(b);
  for (n=0; n < 5; n++)
  {
    for (i=0, want=0; i < n && want == 0; i++)
    {
      want=tolower((unsigned char) a[i])-tolower((unsigned char) b[i]);
      if (a[i] == '\0')
        break;
    }
    MC_CHECK(sign(LocaleNCompare(p,q,n)) == sign(want),
      "comparing %d characters of \"%s\" and \"%s\"",n,a,b);
    mc_transition();
  }
  MC_CHECK(sign(LocaleCompare(p,q)) == sign(want),"comparing \"%s\" and \"%s\"",a,b);
  LocaleLower(p);
  for (i=0; a[i]; i++)
    MC_CHECK(p[i] == tolower((unsigned char) a[i]),"lower case of \"%s\"",a);
  MC_CHECK(p[strlen(a)] == '\0' && q[strlen(b)] == '\0',"terminator lost");
  free(p);
  free(q);
  mc_observe_int(want);
  mc_observe(a,strlen(a));
}

static void body(void)
{
  switch (mc_choose(6,"kind"))
  {
    case 0: counted(); break;
    case 1: bounded(); break;
    case 2: dynamic(); break;
    case 3: large(); break;
    case 4: strip(); break;
    case 5: compare(); break;
  }
  mc_nontrivial();
}

static void init(void)
{
  fill(pattern[0],LONGEST,1);
  fill(pattern[1],LONGEST,2);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C28", .name="string_seq",
    .rule="every sequence of 4 (5) calls on two counted strings; every bounded copy and "
      "append to length 12; every substitution, strip and comparison of short texts; "
      "distinct by content",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

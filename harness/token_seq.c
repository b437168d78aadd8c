/*
  Splitting every short text into arguments and into tokens.
*/
#include "common.h"
#include "wizard/token.h"

static char *exact(const char *s)
{
  size_t n=strlen(s)+1;
  return(memcpy(malloc(n),s,n));
}

static void arguments(const char *text)
{
  char *p=exact(text),want[32],**argv;
  const char *t=text;
  int argc=-1,i=0,n;
  argv=StringToArgv(p,&argc);
  MC_CHECK(argv != NULL,"no arguments for \"%s\"",text);
  for ( ; ; )
  {
    while (isspace((unsigned char) *t))
      t++;
    if (*t == '\0')
      break;
    n=0;
    if (*t == '"' || *t == '\'')
      {
        char quote=*t++;
        while (*t && *t != quote)
          want[n++]=*t++;
      }
    else
      while (*t && !isspace((unsigned char) *t))
        want[n++]=*t++;
    want[n]='\0';
    while (*t && !isspace((unsigned char) *t))
      t++;
    MC_CHECK(i < argc && argv[i] && strcmp(argv[i],want) == 0,
      "argument %d of \"%s\" is not \"%s\"",i,text,want);
    i++;
  }
  MC_CHECK(argc == i && argv[i] == NULL,"\"%s\" has %d arguments, %d reported",
    text,i,argc);
  DestroyStringList(argv);
  free(p);
  mc_transition();
}

/* the token a text starts with and how much of the text it takes */
static const char *ref_token(const char *p,char *token)
{
  char *t=token,*q;
  while (isspace((unsigned char) *p))
    p++;
  if (*p == '"' || *p == '\'' || *p == '`' || *p == '{')
    {
      char close=*p == '`' ? '\'' : *p == '{' ? '}' : *p;
      for (p++; *p && *p != close; )
      {
        if (*p == '\\' && (p[1] == close || p[1] == '\\'))
          p++;
        *t++=*p++;
      }
      if (*p)
        p++;
    }
  else if (*p == '/')
    {
      *t++=*p++;
      if (*p == '>' || *p == '/')
        *t++=*p++;
    }
  else if (*p && *p != ',' && (strtod(p,&q),q != p))
    {
      while (p < q)
        *t++=*p++;
      if (*p == '%')
        *t++=*p++;
    }
  else if (*p && !isalpha((unsigned char) *p) && *p != '#' && *p != '<')
    *t++=*p++;
  else
    while (*p)
    {
      if (strchr(" \t\n\v\f\r=,:;",*p) && p[-1] != '\\')
        break;
      if (*p == '<' && t > token)
        break;
      *t++=*p;
      if (*p == '>')
        break;
      if (*p == '(')
        do
        {
          p++;
          if (*p)
            *t++=*p;
        } while (*p && (*p != ')' || p[-1] == '\\'));
      if (*p)
        p++;
    }
  *t='\0';
  if (strncasecmp(token,"url(",4) == 0)
    {
      size_t skip=token[4] == '#' ? 5 : 4,n=strlen(token);
      memmove(token,token+skip,n-skip+1);
      if (n > skip)
        token[n-skip-1]='\0';
    }
  while (isspace((unsigned char) *p))
    p++;
  return(p);
}

static void tokens(const char *text)
{
  static const size_t extents[]={ WizardPathExtent,6,5,3,2,1 };
  char *p=exact(text),want[64],*token;
  const char *at,*end;
  int i,rounds;
  for (i=0; i < 6; i++)
  {
    token=malloc(extents[i]);
    for (at=p,rounds=0; ; at=end, rounds++)
    {
      const char *stop=ref_token(text+(at-p),want);
      end=NULL;
      GetNextToken(at,&end,extents[i],token);
      mc_transition();
      MC_CHECK(end >= at && end <= p+strlen(text),
        "scanning \"%s\" from %d leaves the text",text,(int) (at-p));
      MC_CHECK(strlen(token) < extents[i],"token longer than its buffer");
      if (i == 0)
        MC_CHECK(strcmp(token,want) == 0 && end-p == stop-text,
          "the token at %d of \"%s\" is \"%s\" up to %d instead of \"%s\" up to %d",
          (int) (at-p),text,token,(int) (end-p),want,(int) (stop-text));
      else if (strncasecmp(text+(at-p),"url(",4) != 0)
        MC_CHECK(strncmp(token,want,strlen(token)) == 0,
          "the bounded token at %d of \"%s\" is \"%s\", not the start of \"%s\"",
          (int) (at-p),text,token,want);
      if (*end == '\0' || end == at || rounds > 20)
        break;
    }
    free(token);
  }
  free(p);
}

static void all(void (*f)(const char *),char *text,int start,int n,const char *letters)
{
  int i,a,b,k=strlen(letters);
  for (i=0; i < n-2; i++)
    text[start+i]=letters[mc_choose(k,"letter")];
  text[start+n]='\0';
  mc_note("texts starting \"%.*s\"\n",start+(n < 2 ? 0 : n-2),text);
  mc_observe(text,start+(n < 2 ? 0 : n-2));
  mc_observe_int(n);
  if (n == 0)
    f(text);
  else
    for (a=0; a < k; a++)
      if (n == 1)
        {
          text[start]=letters[a];
          f(text);
        }
      else
        for (b=0; b < k; b++)
        {
          text[start+n-2]=letters[a];
          text[start+n-1]=letters[b];
          f(text);
        }
}

static void body(void)
{
  static const char scan[]="a1 \"'`{}\\/()<>=,.%#-";
  char text[32];
  switch (mc_choose(3,"kind"))
  {
    case 0:
      all(arguments,text,0,mc_choose(mc_thorough() ? 9 : 8,"length"),"a \"'\n\\");
      break;
    case 1:
      all(tokens,text,0,mc_choose(mc_thorough() ? 7 : 6,"length"),scan);
      break;
    case 2:
      strcpy(text,"url(");
      all(tokens,text,4,mc_choose(4,"length"),scan);
      break;
  }
  mc_nontrivial();
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C29", .name="token_seq",
    .rule="all command lines of 6 letters to length 7 (8); all texts of 20 letters to "
      "length 5 (6) and after \"url(\" to length 3, scanned token by token with six "
      "buffer sizes; distinct by prefix",
    .body=body
  };
  return(mc_main(argc,argv,&h));
}

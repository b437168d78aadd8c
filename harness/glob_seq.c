/*
  Wildcard matching: every short pattern against every short text.
*/
#include "common.h"

static int odd;

/* end of the set or alternatives opened before p, NULL when there is none */
static const char *closing(const char *p,char c)
{
  for ( ; *p; p++)
    if (*p == '\\' && p[1])
      p++;
    else if (*p == c)
      return(p);
  return(NULL);
}

static int member(const char *p,const char *end,char c)
{
  int found=0;
  while (p < end)
  {
    char low,high;
    if (*p == '\\')
      p++;
    low=*p++;
    high=low;
    if (p < end && *p == '-')
      {
        if (++p == end)
          odd=1;          /* a range without end: not specified */
        if (*p == '\\')
          p++;
        high=*p++;
      }
    if (c >= low && c <= high)
      found=1;
  }
  return(found);
}

static int ref_glob(const char *t,const char *p,int fold)
{
  const char *end;
  for ( ; *p; )
    switch (*p)
    {
      case '*':
        for (p++; ; t++)
        {
          if (ref_glob(t,p,fold))
            return(1);
          if (*t == '\0')
            return(0);
        }
      case '?':
        if (*t++ == '\0')
          return(0);
        p++;
        break;
      case '[':
        end=closing(p+1,']');
        if (end == NULL || *t == '\0')
          return(0);
        if (!member(p+1,end,*t++))
          return(0);
        p=end+1;
        break;
      case '{':
        end=closing(p+1,'}');
        if (end == NULL)
          return(0);
        for (p++; ; p++)
        {
          const char *u=t;
          int same=1;
          for ( ; p < end && *p != ','; p++)
          {
            if (*p == '\\')
              p++;
            if (*u == '\0' || *u != *p)
              same=0;
            else
              u++;
          }
          if (same && ref_glob(u,end+1,fold))
            return(1);
          if (p >= end)
            return(0);
        }
      case '\\':
        if (*++p == '\0')
          return(0);
        /* fall through */
      default:
        if (*t == '\0' || (fold ? tolower(*t) != tolower(*p) : *t != *p))
          return(0);
        t++;
        p++;
    }
  return(*t == '\0');
}

static char texts[400][8];
static int ntexts;

static void one(const char *pattern)
{
  size_t n=strlen(pattern)+1;
  char *p=memcpy(malloc(n),pattern,n);
  int i,want,got,fold,special=strpbrk(pattern,"[{") != NULL;
  for (i=0; i < ntexts; i++)
    for (fold=0; fold < 2; fold++)
    {
      size_t m=strlen(texts[i])+1;
      char *t=memcpy(malloc(m),texts[i],m);
      odd=0;
      want=*pattern == '\0' ? 1 : ref_glob(t,pattern,fold);
      got=GlobExpression(t,p,fold ? WizardTrue : WizardFalse) != WizardFalse;
      if (!odd && !(fold && special))
        MC_CHECK(got == want,"\"%s\" %s \"%s\"%s but should%s",pattern,
          got ? "matches" : "does not match",t,fold ? " ignoring case" : "",
          want ? "" : " not");
      free(t);
      mc_transition();
      if (want)
        mc_count(0,1);
    }
  free(p);
}

static void body(void)
{
  static const char letters[]="ab?*[]{},\\-";
  int k=sizeof(letters)-1,n=mc_choose(mc_thorough() ? 7 : 6,"pattern length"),i,a,b;
  char pattern[16];
  for (i=0; i < n-2; i++)
    pattern[i]=letters[mc_choose(k,"letter")];
  pattern[n]='\0';
  mc_note("patterns starting %.*s\n",n < 2 ? 0 : n-2,pattern);
  if (n == 0)
    one("");
  else
    for (a=0; a < k; a++)
      if (n == 1)
        {
          pattern[0]=letters[a];
          one(pattern);
        }
      else
        for (b=0; b < k; b++)
        {
          pattern[n-2]=letters[a];
          pattern[n-1]=letters[b];
          one(pattern);
        }
  mc_nontrivial();
  mc_observe(pattern,n);
  mc_observe_int(n);
}

static void init(void)
{
  static const char letters[]="abB-";
  int a,b,c,n;
  mc_counter_name(0,"matches");
  for (n=0; n <= 3; n++)
    for (a=0; a < (n > 0 ? 4 : 1); a++)
      for (b=0; b < (n > 1 ? 4 : 1); b++)
        for (c=0; c < (n > 2 ? 4 : 1); c++)
        {
          char *t=texts[ntexts++];
          t[0]=letters[a];
          t[1]=letters[b];
          t[2]=letters[c];
          t[n]='\0';
        }
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C30", .name="glob_seq",
    .rule="all patterns of 11 significant letters to length 5 (6) against all texts "
      "of 4 letters to length 3; transitions count the pairs; distinct by pattern "
      "prefix",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

/*
  Sizes with units: formatting and reading back.
*/
#include "common.h"
#include <math.h>
#include "wizard/string_.h"
#include "wizard/string-private.h"
#include "wizard/locale_.h"

static const char *const decimal[]={ "","K","M","G","T","P","E" },*const binary[]={ "","Ki","Mi","Gi","Ti","Pi","Ei" };

static void check(unsigned long long size,int bi)
{
  char text[WizardPathExtent],digits[64],*end;
  long double unit=1.0L,base=bi ? 1024.0L : 1000.0L,value,shown,step,exact=(double) size;
  int i=0,n,significant,k;
  ssize_t count;
  double back;
  while ((i < 6) && (exact >= unit*base))
  {
    unit*=base;
    i++;
  }
  memset(text,'#',sizeof(text));
  count=FormatWizardSize(size,bi ? WizardTrue : WizardFalse,sizeof(text),text);
  MC_CHECK(count == (ssize_t) strlen(text),"length %zd of \"%s\"",count,text);
  n=strspn(text,"0123456789.");
  MC_CHECK((n > 0) && (n < 60),"size %llu is written \"%s\"",size,text);
  memcpy(digits,text,n);
  digits[n]=0;
  shown=strtold(digits,&end);
  MC_CHECK(*end == 0,"size %llu is written \"%s\"",size,text);
  MC_CHECK((strncmp(text+n,(bi ? binary : decimal)[i],strlen((bi ? binary : decimal)[i])) == 0) &&
    (strcmp(text+n+strlen((bi ? binary : decimal)[i]),"B") == 0),"size %llu is written \"%s\", its unit is %sB",size,text,
    (bi ? binary : decimal)[i]);
  /* at least as many digits as the unit needs, rounded to the nearest */
  value=exact/unit;
  significant=i+2;
  for (k=0, step=1.0L; step*10.0L <= value; k++)
    step*=10.0L;
  for (k=1; k < significant; k++)
    step/=10.0L;
  if (step > 1.0L)
    step=1.0L;
  MC_CHECK(fabsl(shown-value) <= step*0.5001L,"size %llu is written \"%s\"",size,text);
  if (i == 0)
    MC_CHECK(shown == value,"size %llu is written \"%s\"",size,text);
  /* and read back */
  back=InterpretSiPrefixValue(text,&end);
  MC_CHECK(*end == 0,"\"%s\" is read up to \"%s\"",text,end);
  MC_CHECK(fabsl(back-shown*unit) <= shown*unit*1e-12L,"\"%s\" is read as %.20g instead of %.20Lg",text,back,shown*unit);
  mc_transition();
}

static void formats(void)
{
  int bi=mc_choose(2,"binary units"),part=mc_choose(3,"part"),e,m;
  unsigned long long base,d,span;
  mc_nontrivial();
  switch (part)
  {
    case 0:
      /* small sizes, all of them */
      m=mc_choose(64,"group");
      for (d=0; d < 32768; d++)
        check((unsigned long long) m*32768+d,bi);
      break;
    case 1:
      /* around the units and the powers of two and ten */
      e=mc_choose(64+20,"power");
      base=1;
      if (e < 64)
        base<<=e;
      else
        for (m=64; m < e; m++)
          base*=10;
      for (d=0, span=mc_thorough() ? 100000 : 10000; d <= span; d++)
      {
        check(base+d,bi);
        check(base-d,bi);
      }
      break;
    case 2:
      /* all numbers of four digits in all positions */
      e=mc_choose(17,"position");
      for (base=1, m=0; m < e; m++)
        base*=10;
      for (d=1; d < 10000; d++)
        if (d <= ~0ULL/base)
          {
            check(d*base,bi);
            check(d*base+base/2,bi);
            check(d*base-1,bi);
          }
      for (base=1, m=0; m < e; m++)
        base*=8;
      for (d=1; d < 5000; d++)
        if (d <= ~0ULL/base)
          check(d*base,bi);
      break;
  }
  mc_observe_int(bi);
}

static void bounded(void)
{
  static const unsigned long long sizes[]={ 0,7,999,1000,1023,1024,1536,999999,123456789,~0ULL };
  unsigned long long size=sizes[mc_choose(10,"size")];
  size_t room=1+(size_t) mc_choose(14,"room");
  char full[WizardPathExtent],*exact=malloc(room);
  int bi=mc_choose(2,"binary units");
  mc_nontrivial();
  FormatWizardSize(size,bi ? WizardTrue : WizardFalse,sizeof(full),full);
  FormatWizardSize(size,bi ? WizardTrue : WizardFalse,room,exact);
  MC_CHECK(memchr(exact,0,room) != NULL,"size %llu in %zu bytes does not end",size,room);
  if (room >= 12)
    MC_CHECK(strncmp(full,exact,room-1) == 0,"size %llu in %zu bytes is \"%s\" instead of \"%s\"",size,room,exact,full);
  mc_observe(full,strlen(full));
  free(exact);
}

static const char letters[]="0125.-+eEkKMGPTZYhiBx f";
#define LETTERS ((int) sizeof(letters)-1)

static void check_text(const char *text)
{
  static const char multiples[]="hkKMGTPEZY";
  static const int powers[]={ 2,3,3,6,9,12,15,18,21,24 };
  char *copy=strdup(text),*end=NULL,*number,*want;
  const char *m;
  double value,expected;
  if ((copy[0] == '0') && ((copy[1] == 'x') || (copy[1] == 'X')))
    expected=(double) strtoul(copy,&number,16);
  else
    expected=strtod(copy,&number);
  value=InterpretLocaleValue(copy,&end);
  MC_CHECK(end == number,"number \"%s\" is read up to \"%s\" instead of \"%s\"",text,end,number);
  MC_CHECK((value == expected) || (isnan(value) && isnan(expected)),"number \"%s\" is %.20g instead of %.20g",text,value,
    expected);
  want=number;
  if (number != copy)
    {
      m=*number ? strchr(multiples,*number) : NULL;
      if (m != NULL)
        {
          if (number[1] == 'i')
            {
              expected*=pow(1024.0,powers[m-multiples]/3.0);
              want+=2;
            }
          else
            {
              expected*=pow(10.0,powers[m-multiples]);
              want++;
            }
        }
      if ((*want == 'B') || (*want == 'P'))
        want++;
    }
  value=InterpretSiPrefixValue(copy,&end);
  MC_CHECK(end == want,"\"%s\" is read up to \"%s\" instead of \"%s\"",text,end,want);
  MC_CHECK((value == expected) || (isnan(value) && isnan(expected)) ||
    (fabs(value-expected) <= 1e-12*fabs(expected)),"\"%s\" is %.20g instead of %.20g",text,value,expected);
  MC_CHECK((InterpretSiPrefixValue(copy,NULL) == value) || isnan(value),"\"%s\" is not %.20g when its end is not asked for",
    text,value);
  free(copy);
  mc_transition();
}

static void texts(void)
{
  char text[10];
  int a=mc_choose(LETTERS,"first"),b=mc_choose(LETTERS,"second"),n=mc_thorough() ? 4 : 3,i,j,k,t;
  mc_nontrivial();
  text[0]=letters[a];
  text[1]=letters[b];
  for (k=0; k <= n; k++)
  {
    for (i=0, t=1; i < k; i++)
      t*=LETTERS;
    for (i=0; i < t; i++)
    {
      int v=i;
      for (j=0; j < k; j++, v/=LETTERS)
        text[2+j]=letters[v%LETTERS];
      text[2+k]=0;
      check_text(text);
    }
  }
  text[1]=0;
  check_text(text);
  check_text("");
  mc_observe(text,1);
}

static void body(void)
{
  switch (mc_choose(3,"part"))
  {
    case 0: formats(); break;
    case 1: bounded(); break;
    default: texts(); break;
  }
}

int main(int argc,char **argv)
{
  static const mc_harness h={ .property="C50", .name="size_enum",
    .rule="sizes are written with the right unit and enough digits and read back", .body=body };
  return(mc_main(argc,argv,&h));
}

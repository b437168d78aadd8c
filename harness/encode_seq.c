/*
  Base-64 and hexadecimal text over all short byte strings and all short texts.
*/
#include "common.h"

static const char digits[]=
  "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static void ref_encode(const unsigned char *p,size_t n,char *out)
{
  size_t i;
  for (i=0; i < n; i+=3)
  {
    unsigned v=p[i] << 16 | (i+1 < n ? p[i+1] << 8 : 0) | (i+2 < n ? p[i+2] : 0);
    *out++=digits[v >> 18];
    *out++=digits[v >> 12 & 63];
    *out++=i+1 < n ? digits[v >> 6 & 63] : '=';
    *out++=i+2 < n ? digits[v & 63] : '=';
  }
  *out='\0';
}

/* -1: not base-64; blanks are allowed anywhere */
static int ref_decode(const char *text,unsigned char *out)
{
  char t[64];
  int n=0,i,k,pad=0,used=0;
  unsigned v;
  for ( ; *text; text++)
    if (!isspace((unsigned char) *text))
      t[n++]=*text;
  if (n%4)
    return(-1);
  for (i=0; i < n; i+=4)
  {
    for (k=0,v=0; k < 4; k++)
    {
      const char *d=t[i+k] == '=' ? NULL : strchr(digits,t[i+k]);
      if (t[i+k] == '=' && i == n-4 && k >= 2)
        pad++;
      else if (!d || pad)
        return(-1);
      v=v << 6 | (d ? d-digits : 0);
    }
    if ((pad == 1 && v & 0xff) || (pad == 2 && v & 0xffff))
      return(-1);
    out[used++]=v >> 16;
    if (pad < 2)
      out[used++]=v >> 8;
    if (pad < 1)
      out[used++]=v;
  }
  return(used);
}

static char *exact(const char *s)
{
  size_t n=strlen(s)+1;
  return(memcpy(malloc(n),s,n));
}

static void round_trip(const unsigned char *data,size_t n)
{
  unsigned char *p=malloc(n+!n),*back;
  char want[1024],*text;
  size_t length,i;
  StringInfo *s,*r;
  memcpy(p,data,n);
  if (n)
    {
      text=Base64Encode(p,n,&length);
      ref_encode(p,n,want);
      MC_CHECK(text && length == strlen(want) && strcmp(text,want) == 0,
        "wrong base-64 text for %zu bytes",n);
      back=Base64Decode(text,&length);
      MC_CHECK(back && length == n && memcmp(back,data,n) == 0,
        "base-64 text of %zu bytes does not decode to them",n);
      RelinquishWizardMemory(back);
      RelinquishWizardMemory(text);
    }
  s=sealed(data,n);
  text=StringInfoToHexString(s);
  for (i=0; i < n; i++)
    sprintf(want+2*i,"%02x",data[i]);
  want[2*n]='\0';
  MC_CHECK(strcmp(text,want) == 0,"wrong hexadecimal text for %zu bytes",n);
  unseal(s);
  free(p);
  p=(unsigned char *) exact(want);
  r=HexStringToStringInfo((char *) p);
  MC_CHECK(GetStringInfoLength(r) == n && memcmp(GetStringInfoDatum(r),data,n) == 0,
    "hexadecimal text does not decode to its bytes");
  DestroyStringInfo(r);
  for (i=0; p[i]; i++)
    p[i]=toupper(p[i]);
  r=HexStringToStringInfo((char *) p);
  MC_CHECK(GetStringInfoLength(r) == n && memcmp(GetStringInfoDatum(r),data,n) == 0,
    "upper-case hexadecimal text does not decode to its bytes");
  DestroyStringInfo(r);
  RelinquishWizardMemory(text);
  free(p);
  mc_transition();
}

static void decode(const char *text)
{
  unsigned char want[64],*got;
  char *p=exact(text);
  size_t length=12345;
  int n=ref_decode(text,want);
  StringInfo *s;
  got=Base64Decode(p,&length);
  if (n < 0)
    MC_CHECK(got == NULL,"\"%s\" is not base-64 but decodes to %zu bytes",text,length);
  else
    MC_CHECK((got != NULL || n == 0) && (int) length == n &&
      (n == 0 || memcmp(got,want,n) == 0),"\"%s\" decodes wrongly",text);
  if (got)
    RelinquishWizardMemory(got);
  /* stays within the text whatever it contains */
  s=HexStringToStringInfo(p);
  MC_CHECK(GetStringInfoLength(s) == strlen(text)/2,"hexadecimal length is wrong");
  DestroyStringInfo(s);
  free(p);
  mc_transition();
}

static void body(void)
{
  static const char letters[]="AgQw7+/= \n-\xe9";
  static const unsigned char bytes[]={ 0,1,3,0x0f,0x3f,0x40,0x7f,0x80,0xf0,0xfc,0xff };
  unsigned char data[300];
  char text[16];
  int n,i,a,b,c;
  switch (mc_choose(4,"kind"))
  {
    case 0:   /* all strings of up to three bytes */
      a=mc_choose(256,"first byte");
      data[0]=a;
      if (a == 0)
        round_trip(data,0);
      round_trip(data,1);
      for (b=0; b < 256; b++)
      {
        data[1]=b;
        round_trip(data,2);
        for (c=0; c < 256; c+=mc_thorough() ? 1 : 17)
        {
          data[2]=c;
          round_trip(data,3);
        }
      }
      mc_observe_int(a);
      break;
    case 1:   /* longer ones over significant bytes */
      n=mc_choose(3,"length")+4;
      for (i=0; i < n-2; i++)
        data[i]=bytes[mc_choose(sizeof(bytes),"byte")];
      for (a=0; a < (int) sizeof(bytes); a++)
        for (b=0; b < (int) sizeof(bytes); b++)
        {
          data[n-2]=bytes[a];
          data[n-1]=bytes[b];
          round_trip(data,n);
        }
      mc_observe(data,n-2);
      break;
    case 2:   /* every length */
      n=mc_choose(300,"length");
      fill(data,n,n);
      round_trip(data,n);
      mc_observe_int(1000+n);
      break;
    default:  /* all texts */
      n=mc_choose(mc_thorough() ? 9 : 7,"length");
      for (i=0; i < n-2; i++)
        text[i]=letters[mc_choose(12,"letter")];
      text[n]='\0';
      mc_note("texts starting %.*s\n",n < 2 ? 0 : n-2,text);
      if (n < 2)
        for (a=0; a < (n ? 12 : 1); a++)
        {
          if (n)
            text[0]=letters[a];
          decode(text);
        }
      else
        for (a=0; a < 12; a++)
          for (b=0; b < 12; b++)
          {
            text[n-2]=letters[a];
            text[n-1]=letters[b];
            decode(text);
          }
      mc_observe(text,n);
      mc_observe_int(n);
  }
  mc_nontrivial();
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C27", .name="encode_seq",
    .rule="all byte strings to length 3, significant bytes to length 6, every length "
      "to 299, and all texts of 12 significant letters to length 6 (8); transitions "
      "count the strings; distinct by prefix",
    .body=body
  };
  return(mc_main(argc,argv,&h));
}

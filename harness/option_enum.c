/*
  Option tables: every name in every spelling, every corruption, every list.
*/
#include "common.h"
#include "wizard/mime-private.h"

#define TABLES 14

typedef struct { const char *name; ssize_t value; } pair;

/* what the names mean, by the public constants */
static const pair
  meant_authenticate[]={ { "Undefined",UndefinedAuthenticate }, { "Public",PublicAuthenticateMethod },
    { "Secret",SecretAuthenticateMethod }, { NULL,0 } },
  meant_cipher[]={ { "Undefined",UndefinedCipher }, { "AES",AESCipher }, { "Chacha",ChachaCipher },
    { "None",NoCipher }, { "Serpent",SerpentCipher }, { "Twofish",TwofishCipher }, { NULL,0 } },
  meant_command[]={ { "-hash",1 }, { "+hash",1 }, { "-help",0 }, { "-key-length",1 }, { "-mode",1 },
    { "-verbose",0 }, { "+decipher",0 }, { "-chunksize",1 }, { NULL,0 } },
  meant_data[]={ { "Byte",ByteData }, { "Long",LongData }, { "Short",ShortData },
    { "String",StringData }, { NULL,0 } },
  meant_endian[]={ { "LSB",LSBEndian }, { "MSB",MSBEndian }, { NULL,0 } },
  meant_entropy[]={ { "None",NoEntropy }, { "BZip",BZIPEntropy }, { "LZMA",LZMAEntropy },
    { "Zip",ZIPEntropy }, { NULL,0 } },
  meant_level[]={ { "0",0 }, { "1",1 }, { "2",2 }, { "3",3 }, { "4",4 }, { "5",5 }, { "6",6 },
    { "7",7 }, { "8",8 }, { "9",9 }, { NULL,0 } },
  meant_length[]={ { "256",256 }, { "512",512 }, { "1024",1024 }, { "2048",2048 }, { NULL,0 } },
  meant_hash[]={ { "CRC64",CRC64Hash }, { "MD5",MD5Hash }, { "None",NoHash }, { "SHA1",SHA1Hash },
    { "SHA224",SHA2224Hash }, { "SHA256",SHA2256Hash }, { "SHA384",SHA2384Hash },
    { "SHA512",SHA2512Hash }, { "SHA2",SHA2Hash }, { "SHA2-224",SHA2224Hash },
    { "SHA2-256",SHA2256Hash }, { "SHA2-384",SHA2384Hash }, { "SHA2-512",SHA2512Hash },
    { "SHA3",SHA3Hash }, { "SHA3-224",SHA3224Hash }, { "SHA3-256",SHA3256Hash },
    { "SHA3-384",SHA3384Hash }, { "SHA3-512",SHA3512Hash }, { NULL,0 } },
  meant_list[]={ { "Cipher",WizardCipherOptions }, { "Command",WizardCommandOptions },
    { "Hash",WizardHashOptions }, { "Mode",WizardModeOptions }, { "Entropy",WizardEntropyOptions },
    { "KeyLength",WizardKeyLengthOptions }, { "List",WizardListOptions }, { NULL,0 } },
  meant_mode[]={ { "CBC",CBCMode }, { "CFB",CFBMode }, { "CTR",CTRMode }, { "ECB",ECBMode },
    { "OFB",OFBMode }, { NULL,0 } },
  meant_event[]={ { "All",AllEvents &~ TraceEvent }, { "Blob",BlobEvent },
    { "Configure",ConfigureEvent }, { "Exception",ExceptionEvent }, { "Locale",LocaleEvent },
    { "None",NoEvents }, { "Resource",ResourceEvent }, { "Trace",TraceEvent }, { "User",UserEvent },
    { "Warning",WarningEvent }, { "Deprecate",DeprecateEvent }, { NULL,0 } },
  meant_resource[]={ { "Area",AreaResource }, { "Disk",DiskResource }, { "File",FileResource },
    { "Map",MapResource }, { "Memory",MemoryResource }, { NULL,0 } };

static const struct { WizardOption option; const pair *meant; } tables[TABLES]=
{
  { WizardAuthenticateOptions,meant_authenticate }, { WizardCipherOptions,meant_cipher },
  { WizardCommandOptions,meant_command }, { WizardDataTypeOptions,meant_data },
  { WizardDebugOptions,meant_event }, { WizardEndianOptions,meant_endian },
  { WizardEntropyOptions,meant_entropy }, { WizardEntropyLevelOptions,meant_level },
  { WizardKeyLengthOptions,meant_length }, { WizardHashOptions,meant_hash },
  { WizardListOptions,meant_list }, { WizardModeOptions,meant_mode },
  { WizardLogEventOptions,meant_event }, { WizardResourceOptions,meant_resource }
};

static pair known[64];
static int names,command;

static int same(const char *a,const char *b)
{
  for ( ; *a && *b; a++,b++)
    if ((*a >= 'A' && *a <= 'Z' ? *a+32 : *a) != (*b >= 'A' && *b <= 'Z' ? *b+32 : *b))
      return(0);
  return(*a == *b);
}

static ssize_t find(const char *word)
{
  char bare[200],*q=bare;
  int i;
  for (i=0; i < names; i++)
    if (same(word,known[i].name))
      return(known[i].value);
  for (i=0; word[i]; i++)
    if (i == 0 || (word[i] != '-' && word[i] != '_'))
      *q++=word[i];
  *q='\0';
  for (i=0; i < names; i++)
    if (same(bare,known[i].name))
      return(known[i].value);
  return(-1);
}

static int blank(int c) { return(c == ' ' || (c >= 9 && c <= 13)); }

/* what a text means: one name, or names separated by commas */
static ssize_t reference(const char *p,int list)
{
  ssize_t sum=0,v;
  char word[200];
  int n,minus;
  for (;;)
  {
    while (blank(*p) || *p == ',')
      p++;
    if ((*p == '-' || *p == '+') && !command)
      p++;
    minus=*p == '!';
    if (minus)
      p++;
    for (n=0; *p && !blank(*p) && *p != ','; p++)
      word[n++]=*p;
    word[n]='\0';
    v=find(word);
    if (v < 0)
      return(-1);
    if (minus)
      sum&=~v;
    else
      sum|=v;
    while (*p && *p != ',')
      p++;
    if (!list || !*p)
      return(sum);
  }
}

static void judge(WizardOption option,const char *text)
{
  char *exact=strdup(text);
  int list;
  for (list=0; list < 2; list++)
  {
    ssize_t got=ParseWizardOption(option,list ? WizardTrue : WizardFalse,exact),
      want=reference(text,list);
    mc_transition();
    MC_CHECK(got == want,"table %d: \"%s\" parses to %zd instead of %zd%s",option,text,got,want,
      list ? " as a list" : "");
    mc_count(got < 0 ? 1 : 0,1);
  }
  list=(*text == '-' || *text == '+') && ((text[1] >= 'a' && text[1] <= 'z') ||
    (text[1] >= 'A' && text[1] <= 'Z'));
  MC_CHECK((IsWizardOption(exact) != WizardFalse) == list,"\"%s\" is %san option",text,
    list ? "not " : "");
  free(exact);
}

static void body(void)
{
  int table=mc_choose(TABLES,"table"),kind=mc_choose(5,"kind"),i,k,n;
  WizardOption option=tables[table].option;
  char **list=GetWizardOptions(option),text[400];
  const char *m;
  MC_CHECK(list != NULL,"table %d has no names",option);
  command=option == WizardCommandOptions;
  for (names=0; list[names]; names++)
  {
    known[names].name=list[names];
    known[names].value=ParseWizardOption(option,WizardFalse,list[names]);
    MC_CHECK(known[names].value >= 0,"table %d: \"%s\" is listed and not recognised",option,
      list[names]);
    m=WizardOptionToMnemonic(option,known[names].value);
    MC_CHECK(m && ParseWizardOption(option,WizardFalse,m) == known[names].value,
      "table %d: \"%s\" is %zd, whose name \"%s\" is another value",option,list[names],
      known[names].value,m ? m : "");
    if (!command && kind == 0)
      {
        /* the name of a value is the name itself unless an earlier one has the same value */
        for (i=0; i < names; i++)
          if (known[i].value == known[names].value)
            break;
        MC_CHECK(strcmp(m,list[i]) == 0,"table %d: value %zd is named \"%s\", not \"%s\"",option,
          known[names].value,m,list[i]);
      }
  }
  MC_CHECK(names > 1 && names < 64,"table %d has %d names",option,names);
  for (i=0; tables[table].meant[i].name; i++)
  {
    ssize_t v=ParseWizardOption(option,WizardFalse,tables[table].meant[i].name);
    MC_CHECK(v == tables[table].meant[i].value,"table %d: \"%s\" is %zd instead of %zd",option,
      tables[table].meant[i].name,v,tables[table].meant[i].value);
  }
  switch (kind)
  {
    case 0:
    {
      /* values */
      ssize_t v;
      FILE *f;
      for (v=-3; v < 2100; v++)
      {
        m=WizardOptionToMnemonic(option,v);
        for (i=0; i < names && known[i].value != v; i++) ;
        MC_CHECK(m != NULL && (i < names || strcmp(m,"undefined") == 0),
          "table %d: value %zd is named \"%s\"",option,v,m ? m : "");
      }
      /* the listing */
      f=tmpfile();
      MC_CHECK(ListWizardOptions(f,option,NULL),"table %d cannot be listed",option);
      rewind(f);
      for (i=strcmp(list[0],"Undefined") == 0; i < names; i++)
      {
        MC_CHECK(fgets(text,sizeof(text),f) != NULL,"table %d: the listing ends early",option);
        text[strcspn(text,"\n")]='\0';
        MC_CHECK(strcmp(text,list[i]) == 0,"table %d lists \"%s\" instead of \"%s\"",option,text,
          list[i]);
      }
      MC_CHECK(fgets(text,sizeof(text),f) == NULL,"table %d lists \"%s\" as well",option,text);
      fclose(f);
      break;
    }
    case 1:
    {
      /* spellings of one name */
      int which=mc_choose(names,"name");
      static const char *const before[]={ ""," ","\t ",",",", ","-","+","!","-!","--","+ " },
        *const after[]={ ""," ",","," x",",x"," ,","-","!" };
      n=strlen(list[which]);
      for (i=0; i < 1 << (n < 6 ? n : 6); i++)
        for (k=0; k < 11*8; k++)
        {
          int j;
          sprintf(text,"%s%s%s",before[k%11],list[which],after[k/11]);
          for (j=0; j < n && j < 6; j++)
            if (i >> j & 1 && isalpha((unsigned char) list[which][j]))
              text[strlen(before[k%11])+j]^=32;
          judge(option,text);
        }
      /* separators at every place */
      for (i=0; i <= n; i++)
        for (k=0; k <= n; k++)
        {
          int j=0,l;
          for (l=0; l <= n; l++)
          {
            if (l == i)
              text[j++]='-';
            if (l == k)
              text[j++]='_';
            text[j++]=list[which][l];
          }
          judge(option,text);
        }
      break;
    }
    case 2:
    {
      /* one character changed, added or left out */
      int which=mc_choose(names,"name"),c;
      n=strlen(list[which]);
      for (i=0; i <= n; i++)
      {
        for (c=1; c < 256; c++)
        {
          strcpy(text,list[which]);
          if (i < n)
            {
              text[i]=c;
              judge(option,text);
            }
          memcpy(text,list[which],i);
          text[i]=c;
          strcpy(text+i+1,list[which]+i);
          judge(option,text);
        }
        memcpy(text,list[which],i);
        text[i]='\0';
        judge(option,text);
        if (i < n)
          {
            strcpy(text+i,list[which]+i+1);
            judge(option,text);
          }
      }
      break;
    }
    case 3:
    {
      /* lists of two and three, with a name that is not known */
      int a=mc_choose(names+1,"first");
      static const char *const joint[]={ ",",", "," ,",",!",",-",",,"," " };
      for (i=0; i <= names; i++)
        for (k=0; k < 7; k++)
        {
          sprintf(text,"%s%s%s",a < names ? list[a] : "quux",joint[k],i < names ? list[i] : "quux");
          judge(option,text);
          for (n=0; n <= names; n+=mc_thorough() ? 1 : 3)
          {
            sprintf(text,"%s%s%s%s%s",a < names ? list[a] : "quux",joint[k],
              i < names ? list[i] : "quux",joint[(k+n)%7],n < names ? list[n] : "quux");
            judge(option,text);
          }
        }
      break;
    }
    default:
    {
      /* all short words, and very long ones */
      static const char letters[]="aA0-+!, _\t";
      int length;
      for (length=0; length < (mc_thorough() ? 6 : 5); length++)
      {
        int total=1;
        for (i=0; i < length; i++)
          total*=10;
        for (i=0; i < total; i++)
        {
          for (k=i,n=0; n < length; n++,k/=10)
            text[n]=letters[k%10];
          text[length]='\0';
          judge(option,text);
        }
      }
      for (i=4090; i < 4100; i++)
      {
        char *big=malloc(2*i+20);
        memset(big,'q',i);
        sprintf(big+i,",%s",list[0]);
        MC_CHECK(ParseWizardOption(option,WizardTrue,big) == -1 &&
          ParseWizardOption(option,WizardFalse,big) == -1,"a name of %d letters is recognised",i);
        free(big);
      }
      break;
    }
  }
  for (i=0; i < names; i++)
    DestroyString(list[i]);
  RelinquishWizardMemory(list);
  mc_observe_int(table*10+kind);
  mc_nontrivial();
}

static void init(void)
{
  mc_counter_name(0,"recognised");
  mc_counter_name(1,"not recognised");
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C39", .name="option_enum",
    .rule="14 tables x every name x every case of 6 letters, prefix and suffix, every separator place, "
      "every one-character change; every pair and many triples of names as lists; every word of up to "
      "4 of 10 characters",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

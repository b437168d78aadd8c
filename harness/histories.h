/*
  Histories of calls on every kind of object, on a heap that counts.
*/
#include <execinfo.h>
#include "ring.h"
#include "wizard/hash.h"
#include "wizard/hmac.h"
#include "wizard/cipher.h"
#include "wizard/key.h"
#include "wizard/option.h"
#include "wizard/log.h"
#include "wizard/mime.h"
#include "wizard/configure.h"
#include "wizard/locale_.h"

int seam_mkdir(const char *,mode_t);
int seam_close(int);
extern int sim_announce_entropy;

/*
  A heap that counts.
*/
typedef struct _block
{
  struct _block *next,*previous;
  size_t extent;
  long serial;
  void *from[12];
} block;

static block live={ &live,&live };
static long blocks,serial,requests,refused; /* the number of the request that is refused */

void *seam_malloc(size_t n)
{
  block *b;
  if (n > (1ul << 30) || ++requests == refused)
    {
      errno=ENOMEM;
      return(NULL);
    }
  b=malloc(sizeof(block)+n+!n);
  if (!b)
    return(NULL);
  b->extent=n;
  b->serial=++serial;
  if (getenv("LEAK_TRACE"))
    {
      memset(b->from,0,sizeof(b->from));
      backtrace(b->from,12);
    }
  b->next=live.next;
  b->previous=&live;
  live.next->previous=b;
  live.next=b;
  blocks++;
  return(b+1);
}

void seam_free(void *p)
{
  block *b;
  if (p == NULL)
    return;
  b=(block *) p-1;
  b->next->previous=b->previous;
  b->previous->next=b->next;
  blocks--;
  free(b);
}

void *seam_calloc(size_t a,size_t b)
{
  void *p;
  if (a && b > (1ul << 30)/a)
    return(NULL);
  p=seam_malloc(a*b);
  return(p ? memset(p,0,a*b) : NULL);
}

void *seam_realloc(void *p,size_t n)
{
  void *q;
  size_t old;
  if (p == NULL)
    return(seam_malloc(n));
  q=seam_malloc(n);
  if (q != NULL)
    {
      old=((block *) p)[-1].extent;
      memcpy(q,p,n < old ? n : old);
      seam_free(p);
    }
  return(q);
}

/* the header keeps 16 bytes of alignment, no caller here relies on more */
int seam_posix_memalign(void **p,size_t align,size_t n)
{
  (void) align;
  *p=seam_malloc(n);
  return(*p ? 0 : ENOMEM);
}

void *seam_aligned_alloc(size_t align,size_t n)
{
  void *p;
  return(seam_posix_memalign(&p,align,n) ? NULL : p);
}

void *seam_memalign(size_t align,size_t n)
{
  return(seam_aligned_alloc(align,n));
}

char *seam_strdup(const char *s)
{
  char *p=seam_malloc(strlen(s)+1);
  return(p ? strcpy(p,s) : NULL);
}

char *seam_strndup(const char *s,size_t n)
{
  size_t l=strnlen(s,n);
  char *p=seam_malloc(l+1);
  if (p)
    {
      memcpy(p,s,l);
      p[l]='\0';
    }
  return(p);
}

/*
  Histories.
*/
#define STEPS 6

static int kind,config,steps,step[STEPS];
static char input[200];
static size_t input_length;
static ExceptionInfo *exception;

/* the outcome of a call, "-" when it reports a failure */
static char told[100000];

static void say(const char *format,...)
{
  va_list list;
  size_t n=strlen(told);
  va_start(list,format);
  vsnprintf(told+n,sizeof(told)-n,format,list);
  va_end(list);
  strncat(told,"\n",sizeof(told)-strlen(told)-1);
}

static void say_text(const char *s)
{
  say("%s",s ? s : "-");
}

static void say_status(WizardBooleanType status)
{
  say("%s",status == WizardFalse ? "-" : "done");
}

static void say_data(const StringInfo *s)
{
  if (s)
    say("%zu %016lx",GetStringInfoLength(s),mc_hash(1,GetStringInfoDatum(s),GetStringInfoLength(s)));
  else
    say("-");
}

static void say_list(char **list)
{
  int i;
  if (list == NULL)
    say("-");
  for (i=0; list && list[i]; i++)
    say("item %s",list[i]);
}

static void *drop(void *p)
{
  return(p ? RelinquishWizardMemory(p) : NULL);
}

static char *word(int i)
{
  char s[2]={ (char) ('a'+i),'\0' };
  return(ConstantString(s));
}

static int compare(const void *a,const void *b)
{
  return(strcmp(a,b));
}

static void list(void)
{
  LinkedListInfo *l=NewLinkedList(config ? 3 : 0);
  void *old,*array[STEPS+1];
  char *s;
  int i;
  for (i=0; i < steps; i++)
    switch (step[i])
    {
      case 0: s=word(i); if (AppendValueToLinkedList(l,s) == WizardFalse) { say("-"); drop(s); } else say("done"); break;
      case 1: s=word(i); if (InsertValueInLinkedList(l,0,s) == WizardFalse) { say("-"); drop(s); } else say("done"); break;
      case 2: s=word(i); if (InsertValueInLinkedList(l,2,s) == WizardFalse) { say("-"); drop(s); } else say("done"); break;
      case 3:
        s=word(2);
        old=NULL;
        if (InsertValueInSortedLinkedList(l,compare,&old,s) == WizardFalse)
          {
            say("-");
            drop(s);
          }
        else
          say("done");
        drop(old);
        break;
      case 4: drop(RemoveElementFromLinkedList(l,0)); break;
      case 5: drop(RemoveLastElementFromLinkedList(l)); break;
      case 6: drop(RemoveElementByValueFromLinkedList(l,GetValueFromLinkedList(l,1))); break;
      case 7: ClearLinkedList(l,drop); break;
      default: LinkedListToArray(l,array); break;
    }
  say("%zu",GetNumberOfElementsInLinkedList(l));
  ResetLinkedListIterator(l);
  while ((s=GetNextValueInLinkedList(l)) != NULL)
    say_text(s);
  DestroyLinkedList(l,drop);
}

static void put(HashmapInfo *m,int key,int value)
{
  char *k=word(key),*v=word(value);
  if (PutEntryInHashmap(m,k,v) == WizardFalse)
    {
      say("-");
      drop(k);
      drop(v);
    }
  say("%zu entries",GetNumberOfEntriesInHashmap(m));
}

static void map(void)
{
  HashmapInfo *m=NewHashmap(config ? 2 : SmallHashmapSize,HashStringType,CompareHashmapString,drop,drop);
  int i,k;
  for (i=0; i < steps; i++)
  {
    k=step[i] % 2;
    switch (step[i]/2)
    {
      case 0: put(m,k,i); break;
      case 1:
        {
          char *s=word(k);
          drop(RemoveEntryFromHashmap(m,s));
          drop(s);
          break;
        }
      case 2:
        for (k=0; k < 20; k++)
          put(m,k,k);
        break;
      default:
        ResetHashmapIterator(m);
        (void) GetNextKeyInHashmap(m);
        (void) GetNextValueInHashmap(m);
        break;
    }
  }
  say("%zu",GetNumberOfEntriesInHashmap(m));
  DestroyHashmap(m);
}

static void *copy(void *p)
{
  return(p ? ConstantString(p) : NULL);
}

static void tree(void)
{
  SplayTreeInfo *t=NewSplayTree(CompareSplayTreeString,drop,drop),*u;
  char *s;
  int i,k;
  for (i=0; i < steps; i++)
  {
    k=step[i] % 2;
    s=word(k);
    switch (step[i]/2)
    {
      case 0: say_status(AddValueToSplayTree(t,word(k),word(i))); break;
      case 1: drop(RemoveNodeFromSplayTree(t,s)); break;
      case 2: DeleteNodeFromSplayTree(t,s); break;
      case 3:
        {
          void *v=(void *) GetValueFromSplayTree(t,s);
          if (v)
            {
              if (i & 1)
                drop(RemoveNodeByValueFromSplayTree(t,v));
              else
                DeleteNodeByValueFromSplayTree(t,v);
            }
          break;
        }
      case 4:
        if (k)
          ResetSplayTree(t);
        else
          {
            u=CloneSplayTree(t,copy,copy);
            say("%s",u ? "done" : "-");
            if (u)
              {
                say("%zu",GetNumberOfNodesInSplayTree(u));
                DestroySplayTree(u);
              }
          }
        break;
      default:
        for (k=25; k >= 0; k--)
          say_status(AddValueToSplayTree(t,word(k),word(k)));
        break;
    }
    drop(s);
  }
  say("%zu",GetNumberOfNodesInSplayTree(t));
  DestroySplayTree(t);
}

static void xml_edit(void)
{
  XMLTreeInfo *x=NewXMLTreeTag("root"),*child,*y;
  char *s;
  int i;
  say("%s",x ? "done" : "-");
  if (x == NULL)
    return;
  for (i=0; i < steps; i++)
    switch (step[i])
    {
      case 0: say("%s",AddChildToXMLTree(x,"a",i) ? "done" : "-"); break;
      case 1: say("%s",AddPathToXMLTree(x,"a/b",i) ? "done" : "-"); break;
      case 2: SetXMLTreeContent(x,"content"); break;
      case 3: SetXMLTreeAttribute(x,"k","v"); break;
      case 4: SetXMLTreeAttribute(x,"k",NULL); break;
      case 5: SetXMLTreeAttribute(x,"l","w"); break;
      case 6: child=GetXMLTreeChild(x,"a"); if (child) DestroyXMLTree(PruneTagFromXMLTree(child)); break;
      case 7: child=GetXMLTreeChild(x,"a"); if (child) SetXMLTreeContent(child,i & 1 ? "" : "<&>"); break;
      case 8: child=GetXMLTreeChild(x,"a"); if (child) SetXMLTreeAttribute(child,"k","\x01\"&"); break;
      case 9: s=XMLTreeInfoToXML(x); say_text(s); drop(s); break;
      default:
        child=GetXMLTreeChild(x,"a");
        if (child)
          {
            y=PruneTagFromXMLTree(child);
            SetXMLTreeContent(y,"z");
            InsertTagIntoXMLTree(x,y,i+1);
          }
        break;
    }
  s=XMLTreeInfoToXML(x);
  say_text(s);
  drop(s);
  DestroyXMLTree(x);
}

static const char *const pieces[]={ "<a>","</a>","<b/>","&lt;","&x;","<!--","-->","<![CDATA[","]]>","<?x y?>",
  "<!DOCTYPE a [","<!ENTITY x \"v&lt;\">","]>","<a b='c' d=\"&x;\">","t","<","<a b='c","<!ATTLIST a b CDATA 'd'>",
  "\xff\xfe<\0a\0/\0>\0","<?xml version='1.0' encoding='UTF-8'?>",
  "</a","<!ENTITY y \"&y;\">" };
#define PIECES ((int) (sizeof(pieces)/sizeof(*pieces)))

static void xml_parse(void)
{
  XMLTreeInfo *x=NewXMLTree(input,exception),*y;
  const char **list;
  char *s;
  say("%s",x && GetExceptionSeverity(exception) < ErrorException ? "done" : "-");
  if (x == NULL)
    return;
  list=GetXMLTreeProcessingInstructions(x,"x");
  (void) list;
  y=GetXMLTreePath(x,"a/b");
  (void) y;
  if (config)
    {
      s=XMLTreeInfoToXML(x);
      say_text(s);
      drop(s);
      SetXMLTreeContent(x,"other");
      SetXMLTreeAttribute(x,"b",NULL);
      SetXMLTreeAttribute(x,"d","other");
    }
  DestroyXMLTree(x);
}

/* calls on one text */
static void texts(void)
{
  StringInfo *s;
  char **list,*p,*q;
  size_t n;
  int argc;
  switch (config)
  {
    case 0: list=StringToArgv(input,&argc); say_list(list); if (list) DestroyStringList(list); break;
    case 1: list=GetPathComponents(input,&n); say_list(list); if (list) DestroyStringList(list); break;
    case 2: p=(char *) Base64Decode(input,&n); say("%s",p ? "done" : "-"); drop(p); break;
    case 3: s=HexStringToStringInfo(input); say_data(s); if (s) DestroyStringInfo(s); break;
    case 4:
      p=NULL;
      CloneString(&p,input);
      SubstituteString(&p,"a","xyz");
      SubstituteString(&p," ","");
      ConcatenateString(&p,input);
      say_text(p);
      CloneString(&p,"x");
      CloneString(&p,NULL);
      drop(p);
      break;
    case 5:
      s=StringToStringInfo(input);
      if (s == NULL)
        {
          say("-");
          break;
        }
      p=StringInfoToHexString(s);
      q=StringInfoToString(s);
      say_text(p);
      say_text(q);
      drop(p);
      drop(q);
      if (GetStringInfoLength(s) > 1)
        {
          StringInfo *t=SplitStringInfo(s,1);
          if (t)
            {
              ConcatenateStringInfo(s,t);
              SetStringInfo(t,s);
              SetStringInfoLength(t,1);
              say_data(t);
              DestroyStringInfo(t);
            }
        }
      DestroyStringInfo(s);
      s=BlobToStringInfo(input,strlen(input));
      say_data(s);
      if (s) DestroyStringInfo(s);
      break;
    case 6: if (*input == '\0') break; p=Base64Encode((unsigned char *) input,strlen(input),&n); say_text(p); drop(p); break;
    case 7: p=CanonicalXMLContent(input,WizardFalse); say_text(p); drop(p); p=CanonicalXMLContent(input,WizardTrue); say_text(p); drop(p); break;
    default:
      list=GetMimeList(input,&n,exception);
      say_list(list);
      if (list) DestroyStringList(list);
      list=GetConfigureList(input,&n,exception);
      say_list(list);
      if (list) DestroyStringList(list);
      list=GetLocaleList(input,&n,exception);
      say_list(list);
      if (list) DestroyStringList(list);
      list=GetLogList(input,&n,exception);
      say_list(list);
      if (list) DestroyStringList(list);
      drop(GetMimeInfoList(input,&n,exception));
      drop(GetConfigureInfoList(input,&n,exception));
      drop(GetLocaleInfoList(input,&n,exception));
      drop(GetLogInfoList(input,&n,exception));
      (void) GetConfigureInfo(input,exception);
      (void) GetLocaleInfo_(input,exception);
      p=WizardToMime(input);
      say_text(p);
      drop(p);
      DestroyConfigureOptions(GetConfigureOptions(input,exception));
      DestroyLocaleOptions(GetLocaleOptions(input,exception));
      DestroyLinkedList(GetConfigurePaths(input,exception),drop);
      break;
  }
}

static void quiet(const ExceptionType s,const char *r,const char *d) { (void) s; (void) r; (void) d; }

static void exceptions(void)
{
  ExceptionInfo *x=AcquireExceptionInfo(),*y=AcquireExceptionInfo();
  char *s;
  int i;
  for (i=0; i < steps; i++)
    switch (step[i])
    {
      case 0: ThrowException(x,OptionWarning,"a","b"); break;
      case 1: ThrowException(y,OptionError,"c",NULL); break;
      case 2: InheritException(x,y); break;
      case 3: ClearWizardException(x); break;
      case 4: CatchException(x); break;
      case 5: InheritException(y,x); break;
      case 6: s=GetExceptionMessage(i); drop(s); break;
      default: ThrowWizardException(y,"m","f",(size_t) 1,ResourceError,"%d",i); break;
    }
  DestroyExceptionInfo(x);
  DestroyExceptionInfo(y);
}

static StringInfo *material(int n)
{
  StringInfo *s=AcquireStringInfo(n);
  fill(GetStringInfoDatum(s),n,3);
  return(s);
}

static const CipherType ciphers[]={ AESCipher,SerpentCipher,TwofishCipher,ChachaCipher };
static const CipherMode modes[]={ CBCMode,CFBMode,CTRMode,ECBMode,OFBMode };
static const HashType hashes[]={ SHA2256Hash,CRC64Hash,MD5Hash,SHA1Hash,SHA2Hash,SHA2224Hash,SHA2384Hash,
  SHA2512Hash,SHA3Hash,SHA3224Hash,SHA3256Hash,SHA3384Hash,SHA3512Hash };
static const EntropyType coders[]={ ZIPEntropy,BZIPEntropy,LZMAEntropy };

static void crypto(void)
{
  StringInfo *s=material(40),*t;
  int i,keyed=0;
  if (config < 20)
    {
      CipherInfo *c=AcquireCipherInfo(ciphers[config/5],modes[config % 5]);
      StringInfo *key=material(32),*nonce=material(GetCipherBlocksize(c));
      for (i=0; i < steps; i++)
        switch (step[i])
        {
          case 0: SetCipherKey(c,key); keyed=1; break;
          case 1: if (keyed) EncipherCipher(c,s); break;
          case 2: if (keyed) DecipherCipher(c,s); break;
          case 3: SetCipherNonce(c,nonce); break;
          default: ResetCipherNonce(c); break;
        }
      DestroyStringInfo(key);
      DestroyStringInfo(nonce);
      DestroyCipherInfo(c);
    }
  else
    if (config < 33)
      {
        HashInfo *h=AcquireHashInfo(hashes[config-20]);
        HMACInfo *m=AcquireHMACInfo(hashes[config-20]);
        char *hex;
        t=material(300);
        for (i=0; i < steps; i++)
          switch (step[i])
          {
            case 0: InitializeHash(h); UpdateHash(h,s); FinalizeHash(h); break;
            case 1: hex=GetHashHexDigest(h); drop(hex); break;
            case 2: InitializeHMAC(m,s); UpdateHMAC(m,t); FinalizeHMAC(m); break;
            case 3: InitializeHMAC(m,t); UpdateHMAC(m,s); FinalizeHMAC(m); break;
            default: ResetHMAC(m); break;
          }
        DestroyHMACInfo(m);
        DestroyHashInfo(h);
        DestroyStringInfo(t);
      }
    else
      if (config < 36)
        {
          EntropyInfo *e=AcquireEntropyInfo(coders[config-33],1);
          t=CloneStringInfo(s);
          for (i=0; i < steps; i++)
            switch (step[i])
            {
              case 0: IncreaseEntropy(e,s,exception); break;
              case 1:
                if (GetEntropyChaos(e))
                  {
                    StringInfo *chaos=CloneStringInfo(GetEntropyChaos(e));
                    RestoreEntropy(e,40,chaos,exception);
                    DestroyStringInfo(chaos);
                  }
                break;
              case 2: RestoreEntropy(e,40,t,exception); break;
              case 3: RestoreEntropy(e,0,t,exception); break;
              default:
                {
                  StringInfo *none=AcquireStringInfo(0);
                  IncreaseEntropy(e,none,exception);
                  DestroyStringInfo(none);
                  break;
                }
            }
          DestroyStringInfo(t);
          DestroyEntropyInfo(e);
        }
      else
        {
          RandomInfo *r=AcquireRandomInfo(hashes[config-36]);
          KeyInfo *k=AcquireKeyInfo();
          for (i=0; i < steps; i++)
            switch (step[i])
            {
              case 0: DestroyStringInfo(GetRandomKey(r,20)); break;
              case 1: (void) GetRandomValue(r); break;
              case 2: SetKeyInfo(k,s,s); keyed=1; break;
              case 3: DestroyStringInfo(GenerateSessionKey(k)); break;
              default: if (keyed) DestroyStringInfo(GetKeyInfo(k,s)); break;
            }
          DestroyKeyInfo(k);
          DestroyRandomInfo(r);
        }
  DestroyStringInfo(s);
}

/* a keyring that is good, cut at any place or damaged */
static unsigned char ring[600];
static size_t ring_length;

static void keyrings(void)
{
  int i,listed[IDS],others;
  ring_path=ring_file;
  if (config == 1)
    sim_remove(ring_file);
  else
    {
      unsigned char damaged[600];
      memcpy(damaged,ring,ring_length);
      if (config >= 1000)
        damaged[config-1000]^=0x81;
      sim_put(ring_file,damaged,config >= 2 && config < 1000 ? (size_t) config-2 : ring_length);
    }
  for (i=0; i < steps; i++)
    switch (step[i])
    {
      case 0: ring_import(0,1); break;
      case 1: ring_import(3,2); break;
      case 2: ring_export(0); break;
      case 3: ring_export(4); break;
      default: ring_list(listed,&others); break;
    }
}

static void secrets(void)
{
  AuthenticateInfo *a=AcquireAuthenticateInfo(SecretAuthenticateMethod,ring_file,hashes[config]);
  StringInfo *id=NULL,*wrong=text("none",4);
  int i;
  sim_remove(ring_file);
  sim_put("/sim/phrase0","one",3);
  sim_put("/sim/phrase1","other",5);
  SetAuthenticatePassphrase(a,"/sim/phrase0");
  SetAuthenticateKeyLength(a,256);
  for (i=0; i < steps; i++)
    switch (step[i])
    {
      case 0:
        if (GenerateAuthenticateKey(a,exception) != WizardFalse)
          {
            if (id)
              DestroyStringInfo(id);
            id=CloneStringInfo(GetAuthenticateId(a));
          }
        break;
      case 1: if (id) { SetAuthenticateId(a,id); AuthenticateKey(a,exception); } break;
      case 2: SetAuthenticateId(a,wrong); AuthenticateKey(a,exception); break;
      case 3: SetAuthenticatePassphrase(a,"/sim/phrase1"); break;
      default: SetAuthenticatePassphrase(a,"/sim/missing"); break;
    }
  if (id)
    DestroyStringInfo(id);
  DestroyStringInfo(wrong);
  DestroyAuthenticateInfo(a);
}

/* a failing call while files are read and written */
static int fail_at,calls;

static void hook(const sim_call *c,sim_answer *a)
{
  if (++calls == fail_at || (c->op == SIM_ENTROPY && config >= 14))
    a->error=EIO;
  if (calls > 5000)
    mc_fail("the call does not end");
}

static void files(void)
{
  BlobInfo *blob;
  FileInfo *file;
  StringInfo *s;
  unsigned char buffer[100];
  size_t n;
  char *p;
  sim_put("/sim/data","0123456789<a/>",14);
  calls=0;
  if (config >= 14)
    {
      seam_mkdir("/sim/dev",0700);
      sim_put("/sim/dev/urandom",ring,ring_length);
    }
  sim_hook=hook;
  sim_announce_entropy=1;
  SetRandomTrueRandom(config == 15 ? WizardTrue : WizardFalse);
  switch (config)
  {
    case 0: p=FileToBlob("/sim/data",1000,&n,exception); drop(p); break;
    case 1: s=FileToStringInfo("/sim/data",5,exception); if (s) DestroyStringInfo(s); break;
    case 2: s=ConfigureFileToStringInfo("/sim/data"); if (s) DestroyStringInfo(s); break;
    case 3: case 4: case 5: case 6: case 7:
      blob=OpenBlob(config == 7 ? "/sim/none/x" : "/sim/data",config == 3 ? ReadBinaryBlobMode : config == 4 ?
        WriteBinaryBlobMode : config == 6 ? ReadBlobMode : WriteBlobMode,
        WizardFalse,exception);
      if (blob)
        {
          if (config == 3 || config == 6)
            (void) ReadBlob(blob,20,buffer);
          else
            (void) WriteBlob(blob,20,buffer);
          SetBlobExtent(blob,100);
          CloseBlob(blob);
          DestroyBlob(blob);
        }
      break;
    case 8: case 9:
      file=AcquireFileInfo("/sim/data","data",config == 8 ? ReadFileMode : WriteFileMode,exception);
      if (file)
        {
          if (config == 8)
            ReadFileChunk(file,buffer,5);
          else
            DestroyFile(file,exception);
          DestroyFileInfo(file,exception);
        }
      break;
    case 10:
      {
        char name[WizardPathExtent]="";
        int d;
        WizardsToolkitGenesis("leak_seq");
        d=AcquireUniqueFileResource("",name,exception);
        if (d != -1)
          seam_close(d);
        WizardsToolkitTerminus();
        break;
      }
    case 11: ring_path=ring_file; sim_put(ring_file,ring,ring_length); ring_import(3,2); break;
    case 12: ring_path=ring_file; sim_put(ring_file,ring,ring_length); ring_export(0); break;
    default:
      {
        RandomInfo *r=AcquireRandomInfo(SHA2256Hash);
        if (r)
          DestroyRandomInfo(r);
        break;
      }
  }
  SetRandomTrueRandom(WizardFalse);
  sim_announce_entropy=0;
  sim_hook=NULL;
}

/* uses of the toolkit between a start and a stop */
static void lives(void)
{
  char name[WizardPathExtent];
  size_t n;
  int i;
  WizardsToolkitGenesis("leak_seq");
  for (i=0; i < steps; i++)
    switch (step[i])
    {
      case 0: (void) GetMimeInfo("x.c",(unsigned char *) "x",1,exception); break;
      case 1: (void) GetConfigureInfo("NAME",exception); break;
      case 2: (void) GetLocaleMessage("Exception/Option/x"); break;
      case 3: if (AcquireUniqueFilename(name,exception) && i & 1) RelinquishUniqueFileResource(name,WizardTrue); break;
      case 4: SetLogEventMask("None"); (void) GetLogInfo("*",exception); break;
      case 5: DestroyStringList(GetWizardOptions(WizardHashOptions)); break;
      default: { char **l=GetLocaleList("*",&n,exception); if (l) DestroyStringList(l); break; }
    }
  WizardsToolkitTerminus();
}

static const struct { const char *name; void (*run)(void); int calls,quick,thorough; } kinds[]=
{
  { "list",list,9,5,6 }, { "map",map,8,5,6 }, { "tree",tree,12,4,5 }, { "XML editing",xml_edit,11,4,5 },
  { "XML parsing",xml_parse,PIECES,4,5 }, { "text",texts,8,5,6 }, { "exceptions",exceptions,8,5,6 },
  { "keyring",keyrings,5,2,3 }, { "ciphers",crypto,5,3,4 }, { "secrets",secrets,5,3,4 },
  { "files",files,0,0,0 }, { "start and stop",lives,7,3,4 }
};
#define BRIEF_KINDS 7 /* those that use no random data */
#define KINDS ((int) (sizeof(kinds)/sizeof(*kinds)))

/* chooses a history; a short one when something is tried at every place of it */
static void choose(int brief)
{
  static const char letters[]=" a\"'\\/.<=4*";
  int i,most;
  kind=mc_choose(brief ? BRIEF_KINDS : KINDS,"object");
  config=0;
  fail_at=0;
  most=mc_thorough() ? kinds[kind].thorough : kinds[kind].quick;
  if (brief && most > 2)
    most=mc_thorough() ? 3 : 2;
  if (kinds[kind].run == list || kinds[kind].run == map || kinds[kind].run == xml_parse)
    config=mc_choose(2,"variant");
  else if (kinds[kind].run == texts)
    {
      config=mc_choose(9,"call");
      if (config == 8)
        most=2;
    }
  else if (kinds[kind].run == crypto)
    config=mc_choose(49,"configuration");
  else if (kinds[kind].run == keyrings)
    {
      config=mc_choose(brief ? 2 : 2*ring_length+2,"keyring");
      if (config > (int) ring_length+1)
        config+=1000-ring_length-2;
    }
  else if (kinds[kind].run == secrets)
    config=mc_choose(brief ? 1 : 3,"hash");
  else if (kinds[kind].run == files)
    {
      config=mc_choose(16,"call");
      fail_at=brief ? 0 : mc_choose(60,"failing call");
    }
  if (kinds[kind].run == xml_parse && config && most > 3)
    most=mc_thorough() ? 4 : 3;
  steps=most ? mc_choose(most+1,"steps") : 0;
  *input='\0';
  input_length=0;
  for (i=0; i < steps; i++)
  {
    step[i]=mc_choose(kinds[kind].run == texts ? (int) sizeof(letters)-1 : kinds[kind].calls,"call");
    if (kinds[kind].run == xml_parse)
      strcat(input,pieces[step[i]]);
    if (kinds[kind].run == texts)
      strncat(input,letters+step[i],1);
  }
  mc_note("%s, variant %d, failing call %d, \"%s\"\n",kinds[kind].name,config,fail_at,input);
  SetWarningHandler(quiet);
  SetErrorHandler(quiet);
  sim_hook=NULL;
}

static void fresh(void)
{
  sim_reset();
  seam_mkdir("/sim/home",0700);
  seam_mkdir("/sim/tmp",0700);
  *told='\0';
}

static void init(void)
{
  unsigned char *p;
  setenv("WIZARD_TMPDIR","/sim/tmp",1);
  setenv("WIZARD_AREA_LIMIT","1GB",1);
  setenv("WIZARD_DISK_LIMIT","1GB",1);
  setenv("WIZARD_FILE_LIMIT","100",1);
  setenv("WIZARD_MAP_LIMIT","1GB",1);
  setenv("WIZARD_MEMORY_LIMIT","1GB",1);
  SetFatalErrorHandler(quiet);
  sim_reset();
  seam_mkdir("/sim/home",0700);
  ring_path=ring_file;
  ring_import(0,0);
  ring_import(1,1);
  p=sim_get(ring_file,&ring_length);
  memcpy(ring,p,ring_length);
}

/*
  Keyring helpers: identifiers, keys and the calls on them.
*/
#include "common.h"
#include "wizard/blob-private.h"
#include "simfs.h"
#include <errno.h>

#define IDS 5
#define KEYS 3

static const struct { const char *p; int n; } ids[IDS]=
{
  { "a",1 }, { "ab",2 }, { "",0 }, { "0123456789abcdef0123456789abcdeF",32 }, { "a\0b",3 }
};

static const struct { const char *key; int n; const char *nonce; int m; } keys[KEYS]=
{
  { "first key material.............!",32,"nonce 01",8 },
  { "k",1,"n\0n",3 },
  { "another key with a zero \0 inside it, longer than the others, 0123456789 0123456789 0123456789 "
    "0123456789 0123456789 0123456789",124,"",0 }
};

static const char *ring_path;     /* NULL: default location */
static const char *ring_file="/sim/ring";

static inline StringInfo *text(const char *p,int n)
{
  StringInfo *s=AcquireStringInfo(n);
  if (n)
    SetStringInfoDatum(s,(const unsigned char *) p);
  return(s);
}

static inline int same(const StringInfo *s,const char *p,int n)
{
  return(s && (int) GetStringInfoLength(s) == n && memcmp(GetStringInfoDatum(s),p,n) == 0);
}

static inline int ring_import(int id,int key)
{
  ExceptionInfo *exception=AcquireExceptionInfo();
  KeyringInfo *k=AcquireKeyringInfo(ring_path);
  StringInfo *s;
  int status;
  s=text(ids[id].p,ids[id].n); SetKeyringId(k,s); DestroyStringInfo(s);
  s=text(keys[key].key,keys[key].n); SetKeyringKey(k,s); DestroyStringInfo(s);
  s=text(keys[key].nonce,keys[key].m); SetKeyringNonce(k,s); DestroyStringInfo(s);
  status=ImportKeyringKey(k,exception);
  DestroyKeyringInfo(k);
  DestroyExceptionInfo(exception);
  return(status != WizardFalse);
}

/* -1: missing or failed, -2: something that was never stored, else the key */
static inline int ring_export(int id)
{
  ExceptionInfo *exception=AcquireExceptionInfo();
  KeyringInfo *k=AcquireKeyringInfo(ring_path);
  StringInfo *s;
  int status,i,result=-1;
  s=text(ids[id].p,ids[id].n); SetKeyringId(k,s); DestroyStringInfo(s);
  status=ExportKeyringKey(k,exception);
  if (status != WizardFalse)
    {
      result=-2;
      for (i=0; i < KEYS; i++)
        if (same(GetKeyringKey(k),keys[i].key,keys[i].n) &&
            same(GetKeyringNonce(k),keys[i].nonce,keys[i].m))
          result=i;
    }
  DestroyKeyringInfo(k);
  DestroyExceptionInfo(exception);
  return(result);
}

/* how often each identifier is listed; returns the status */
static inline int ring_list(int *listed,int *others)
{
  ExceptionInfo *exception=AcquireExceptionInfo();
  BlobInfo *blob;
  size_t n;
  int status,i;
  char *p,*copy,*hex;
  sim_remove("/sim/list");
  blob=OpenBlob("/sim/list",WriteBinaryBlobMode,WizardFalse,exception);
  MC_CHECK(blob != NULL,"the listing cannot be opened");
  status=PrintKeyringProperties(ring_path,blob,exception);
  CloseBlob(blob);
  DestroyBlob(blob);
  p=(char *) sim_get("/sim/list",&n);
  copy=malloc(n+1);
  if (n)
    memcpy(copy,p,n);
  copy[n]='\0';
  memset(listed,0,IDS*sizeof(*listed));
  *others=0;
  for (p=copy; (p=strstr(p,"<keyring:Key rdf:about=\"")) != NULL; p++)
  {
    int hit=0;
    char *q=p+strlen("<keyring:Key rdf:about=\"");
    for (i=0; i < IDS; i++)
    {
      StringInfo *s=text(ids[i].p,ids[i].n);
      hex=StringInfoToHexString(s);
      if (strncmp(q,hex,strlen(hex)) == 0 && q[strlen(hex)] == '"')
        {
          listed[i]++;
          hit=1;
        }
      DestroyString(hex);
      DestroyStringInfo(s);
    }
    *others+=!hit;
  }
  free(copy);
  sim_remove("/sim/list");
  DestroyExceptionInfo(exception);
  return(status != WizardFalse);
}

/*
  What destroyed objects leave in the memory they release.

  Every history runs twice with different keys, seeds and messages and is
  otherwise identical, down to the addresses.  A byte of a released block that
  differs was derived from them.
*/
#include <sys/mman.h>
#include <sys/wait.h>
#include "ring.h"
#include "wizard/random_.h"
#include "wizard/hash.h"
#include "wizard/hmac.h"
#include "wizard/cipher.h"

int seam_mkdir(const char *,mode_t);
int seam_getentropy(void *,size_t);

/*
  A heap that never reuses memory and gives equal runs equal addresses.
*/
#define ARENA (48ul << 20)
#define TRACE (1ul << 20)

static unsigned char *arena;
static size_t top;
static int watching;

typedef struct
{
  size_t n,blocks;
  int done;
  unsigned char data[TRACE];
} trace;

static trace *traces[2],*current;

static size_t extent_of(const void *p)
{
  return(((const size_t *) p)[-2]);
}

void *seam_malloc(size_t n)
{
  unsigned char *p;
  size_t need=(n+31) & ~15ul;
  if (arena == NULL)
    {
      arena=mmap(NULL,ARENA,PROT_READ | PROT_WRITE,MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,-1,0);
      if (arena == MAP_FAILED)
        abort();
    }
  if (n > ARENA || top+need > ARENA)
    {
      errno=ENOMEM;
      return(NULL);
    }
  p=arena+top+16;
  top+=need;
  ((size_t *) p)[-2]=n;
  return(p);
}

static void released(const void *p)
{
  size_t n=extent_of(p);
  if (!watching || current == NULL)
    return;
  if (current->n+n+8 > TRACE)
    mc_fail("too much memory is released for the trace");
  memcpy(current->data+current->n,&n,8);
  memcpy(current->data+current->n+8,p,n);
  current->n+=8+n;
  current->blocks++;
}

void seam_free(void *p)
{
  if (p != NULL)
    released(p);
}

void *seam_calloc(size_t a,size_t b)
{
  return(a && b > ARENA/a ? NULL : seam_malloc(a*b));
}

void *seam_realloc(void *p,size_t n)
{
  void *q;
  if (p == NULL)
    return(seam_malloc(n));
  q=seam_malloc(n);
  if (q != NULL)
    {
      memcpy(q,p,n < extent_of(p) ? n : extent_of(p));
      released(p);
    }
  return(q);
}

int seam_posix_memalign(void **p,size_t align,size_t n)
{
  top=((top+16+align-1) & ~(align-1))-16;
  *p=seam_malloc(n);
  return(*p ? 0 : ENOMEM);
}

void *seam_aligned_alloc(size_t align,size_t n)
{
  void *p;
  return(seam_posix_memalign(&p,align,n) ? NULL : p);
}

void *seam_memalign(size_t align,size_t n)
{
  return(seam_aligned_alloc(align,n));
}

char *seam_strdup(const char *s)
{
  char *p=seam_malloc(strlen(s)+1);
  return(p ? strcpy(p,s) : NULL);
}

char *seam_strndup(const char *s,size_t n)
{
  size_t l=strnlen(s,n);
  char *p=seam_malloc(l+1);
  if (p)
    {
      memcpy(p,s,l);
      p[l]='\0';
    }
  return(p);
}

/*
  Histories.
*/
#define STEPS 6

static int secret,kind,config,mode,steps,step[STEPS];

static const CipherType ciphers[]={ AESCipher,SerpentCipher,TwofishCipher,ChachaCipher };
static const CipherMode modes[]={ CBCMode,CFBMode,CTRMode,ECBMode,OFBMode };
static const HashType hashes[]={ SHA2256Hash,CRC64Hash,MD5Hash,SHA1Hash,SHA2Hash,SHA2224Hash,SHA2384Hash,
  SHA2512Hash,SHA3Hash,SHA3224Hash,SHA3256Hash,SHA3384Hash,SHA3512Hash };
static const char *kinds[]={ "cipher","hash","keyed hash","generator","keyring","secret" };
static const int calls[]={ 7,5,6,7,5,3 };

/* bytes that differ between the two runs in every position */
static StringInfo *material(int n,int seed)
{
  StringInfo *s=AcquireStringInfo(n);
  int i;
  fill(GetStringInfoDatum(s),n,seed);
  for (i=0; i < n; i++)
    GetStringInfoDatum(s)[i]^=secret ? 0xff : 0;
  return(s);
}

static void cipher(void)
{
  CipherInfo *c=AcquireCipherInfo(ciphers[config],modes[mode]);
  StringInfo *s;
  int i;
  for (i=0; i < steps; i++)
    switch (step[i])
    {
      case 0: s=material(16,1); SetCipherKey(c,s); break;
      case 1: s=material(32,2); SetCipherKey(c,s); break;
      case 2: s=material(i == 0 ? 0 : 5,3); if (i) EncipherCipher(c,s); break;
      case 3: s=material(i == 0 ? 0 : 100,4); if (i) EncipherCipher(c,s); break;
      case 4: s=material(i == 0 ? 0 : 64,5); if (i) DecipherCipher(c,s); break;
      case 5: s=material(GetCipherBlocksize(c),6); SetCipherNonce(c,s); break;
      default: s=NULL; ResetCipherNonce(c); break;
    }
  watching=1;
  DestroyCipherInfo(c);
}

static void hash(void)
{
  HashInfo *h=AcquireHashInfo(hashes[config]);
  StringInfo *s;
  int i;
  InitializeHash(h);
  for (i=0; i < steps; i++)
    switch (step[i])
    {
      case 0: s=material(5,1); UpdateHash(h,s); break;
      case 1: s=material(GetHashBlocksize(h)-1,2); UpdateHash(h,s); break;
      case 2: s=material(300,3); UpdateHash(h,s); break;
      case 3: FinalizeHash(h); InitializeHash(h); break;
      default: if (i == steps-1) FinalizeHash(h); break;
    }
  watching=1;
  DestroyHashInfo(h);
}

static void keyed(void)
{
  HMACInfo *h=AcquireHMACInfo(hashes[config]);
  HashInfo *b=AcquireHashInfo(hashes[config]);
  StringInfo *s;
  int i,ready=0;
  for (i=0; i < steps; i++)
  {
    if (!ready && step[i] > 2)
      {
        s=material(20,9);
        InitializeHMAC(h,s);
        ready=1;
      }
    switch (step[i])
    {
      case 0: s=material(8,1); InitializeHMAC(h,s); ready=1; break;
      case 1: s=material(GetHashBlocksize(b),2); InitializeHMAC(h,s); ready=1; break;
      case 2: s=material(GetHashBlocksize(b)+9,3); InitializeHMAC(h,s); ready=1; break;
      case 3: s=material(7,4); UpdateHMAC(h,s); break;
      case 4: s=material(200,5); UpdateHMAC(h,s); break;
      default: FinalizeHMAC(h); ready=0; break;
    }
  }
  watching=1;
  DestroyHMACInfo(h);
}

static void generator(void)
{
  static const int sizes[]={ 1,8,32,100,0 };
  unsigned char c[128];
  RandomInfo *r;
  int i;
  r=AcquireRandomInfo(hashes[config]);
  for (i=0; i < steps; i++)
    switch (step[i])
    {
      case 5: (void) GetRandomValue(r); break;
      case 6: (void) GetPseudoRandomValue(r); break;
      case 1:
      case 2: (void) GetRandomKey(r,sizes[step[i]]); break;
      default: SetRandomKey(r,sizes[step[i]],c); break;
    }
  watching=1;
  DestroyRandomInfo(r);
}

static void keyring(void)
{
  ExceptionInfo *exception=AcquireExceptionInfo();
  KeyringInfo *k=AcquireKeyringInfo("/sim/ring");
  StringInfo *s;
  int i;
  s=material(8,8);
  SetKeyringKey(k,s);
  SetKeyringNonce(k,s);
  for (i=0; i < steps; i++)
    switch (step[i])
    {
      case 0: s=material(32,1); SetKeyringKey(k,s); break;
      case 1: s=material(500,2); SetKeyringKey(k,s); break;
      case 2: s=text("id",2); SetKeyringId(k,s); ImportKeyringKey(k,exception); break;
      case 3: s=text("id",2); SetKeyringId(k,s); ExportKeyringKey(k,exception); break;
      default: s=material(16,3); SetKeyringNonce(k,s); break;
    }
  watching=1;
  DestroyKeyringInfo(k);
}

static void authenticate(void)
{
  ExceptionInfo *exception=AcquireExceptionInfo();
  AuthenticateInfo *a=AcquireAuthenticateInfo(SecretAuthenticateMethod,"/sim/ring",hashes[config]);
  StringInfo *id=NULL;
  int i;
  SetAuthenticatePassphrase(a,"/sim/phrase");
  SetAuthenticateKeyLength(a,256);
  for (i=0; i < steps; i++)
    switch (step[i])
    {
      case 0:
        if (GenerateAuthenticateKey(a,exception) != WizardFalse)
          id=CloneStringInfo(GetAuthenticateId(a));
        break;
      case 1:
        if (id != NULL)
          {
            SetAuthenticateId(a,id);
            AuthenticateKey(a,exception);
          }
        break;
      default:
        SetAuthenticateKeyLength(a,512);
        break;
    }
  watching=1;
  DestroyAuthenticateInfo(a);
}

static void run(int which)
{
  unsigned char c[8],phrase[20];
  pid_t child;
  int status,i;
  current=traces[which];
  current->n=current->blocks=0;
  current->done=0;
  child=fork();
  if (child == 0)
    {
      secret=which;
      sim_reset();
      seam_mkdir("/sim/home",0700);
      fill(phrase,20,7);
      for (i=0; i < 20; i++)
        phrase[i]=(secret ? 'A' : 'a')+phrase[i]%26;
      sim_put("/sim/phrase",phrase,20);
      if (which)
        seam_getentropy(c,8);
      switch (kind)
      {
        case 0: cipher(); break;
        case 1: hash(); break;
        case 2: keyed(); break;
        case 3: generator(); break;
        case 4: keyring(); break;
        default: authenticate(); break;
      }
      current->done=1;
      _exit(0);
    }
  while (waitpid(child,&status,0) < 0 && errno == EINTR) ;
  MC_CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0 && current->done,"the history ended the program");
}

static void body(void)
{
  size_t a,b,n,m,i,k;
  int j;
  for (j=0; j < 2; j++)
    if (traces[j] == NULL)
      traces[j]=mmap(NULL,sizeof(trace),PROT_READ | PROT_WRITE,MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,-1,0);
  setenv("WIZARD_HOME","/sim/home",1);
  setenv("HOME","/sim/home",1);
  kind=mc_choose(6,"object");
  mode=0;
  switch (kind)
  {
    case 0: config=mc_choose(4,"cipher"); mode=mc_choose(5,"mode"); break;
    case 4: config=0; break;
    case 5: config=mc_choose(mc_thorough() ? 13 : 3,"hash"); break;
    default: config=mc_choose(13,"hash"); break;
  }
  steps=mc_choose((kind == 3 || kind == 4 || kind == 5 || mc_thorough() ? 4 : 3)+1,"steps");
  if (kind == 3 && steps > 3 && !mc_thorough())
    mc_skip();
  mc_note("%s, configuration %d, mode %d\n",kinds[kind],config,mode);
  for (j=0; j < steps; j++)
  {
    step[j]=mc_choose(kind == 0 && j == 0 ? 2 : calls[kind],"call");
    mc_note("call %d\n",step[j]);
  }
  run(0);
  run(1);
  mc_transition();
  mc_note("%zu blocks released\n",traces[0]->blocks);
  MC_CHECK(traces[0]->blocks != 0,"nothing was released");
  for (a=b=k=0; a < traces[0]->n && b < traces[1]->n; a+=8+n,b+=8+m,k++)
  {
    const unsigned char *p=traces[0]->data+a+8,*q=traces[1]->data+b+8;
    memcpy(&n,traces[0]->data+a,8);
    memcpy(&m,traces[1]->data+b,8);
    if (n != m)
      mc_fail("release %zu is of %zu bytes with one key and of %zu with another",k,n,m);
    for (i=0; i < n; i++)
      if (p[i] != q[i])
        {
          size_t l=0,t;
          for (t=i; t < n; t++)
            l+=p[t] != q[t];
          mc_fail("%zu bytes made from the key are left in a released block of %zu bytes (release %zu) of a %s, "
            "first at offset %zu",l,n,k,kinds[kind],i);
        }
  }
  mc_observe_int(traces[0]->blocks);
  if (steps > 0)
    mc_nontrivial();
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C43", .name="wipe_seq",
    .rule="every kind of object in every configuration after every history of calls up to the depth bound, each run "
      "with two different keys; non-trivial when there was a call",
    .time_cap=420, .body=body
  };
  return(mc_main(argc,argv,&h));
}

/*
  Damaged enciphered files, damaged properties and wrong passphrases.
*/
#include "command.h"
#include "ref.h"

#define PROPERTIES "/sim/properties"

static const struct
{
  const char *cipher,*mode,*entropy,*hmac,*chunk,*properties;
  int size,flat;
} configs[]=
{
  { "AES","CTR","None","SHA2-256","16","",40,0 },
  { "AES","CBC","ZIP","SHA2-256","20","",40,1 },
  { "AES","CTR","ZIP","SHA2-256","48",PROPERTIES,100,1 },
  { "Chacha","CFB","BZIP","SHA3-256","16","",40,0 },
  { "Serpent","ECB","LZMA","SHA2-512","200","",400,1 },
  { "Twofish","OFB","BZIP","SHA2-224","200","",400,1 },
  { "AES","CTR","ZIP","None","48","",100,1 },
  { "AES","CBC","None","None","16","",100,0 }
};

static unsigned char plain[400],*cipher,*ring,*properties;
static size_t size,cipher_size,ring_size,properties_size;
static int config;
static char ends[500];

static unsigned char *copy_of(const char *path,size_t *n)
{
  unsigned char *p=sim_get(path,n),*c;
  MC_CHECK(p != NULL,"%s is missing",path);
  c=malloc(*n+2);
  memcpy(c,p,*n);
  return(c);
}

static void prepare(void)
{
  int status;
  size=configs[config].size;
  if (configs[config].flat)
    memset(plain,'a',sizeof(plain));
  else
    fill(plain,sizeof(plain),5);
  command_reset();
  sim_put(PLAIN,plain,size);
  status=command(encipher_main,"encipher","-passphrase",PHRASE,"-keyring",RING,"-cipher",
    configs[config].cipher,"-mode",configs[config].mode,"-entropy",configs[config].entropy,"-level","1",
    "-hmac",configs[config].hmac,"-chunksize",configs[config].chunk,
    *configs[config].properties ? "-properties" : "",configs[config].properties,PLAIN,CIPHER,NULL);
  MC_CHECK(status == 0,"encipher exits with %d",status);
  cipher=copy_of(CIPHER,&cipher_size);
  ring=copy_of(RING,&ring_size);
  properties=NULL;
  if (*configs[config].properties)
    properties=copy_of(PROPERTIES,&properties_size);
}

static void forget(void)
{
  free(cipher);
  free(ring);
  free(properties);
}

/* deciphers the files given; -1 if it failed, else the size of the output */
static long decipher(const unsigned char *c,size_t c_size,const unsigned char *p,size_t p_size,
  const char *phrase,size_t phrase_size,size_t *left)
{
  unsigned char *again;
  size_t n=0;
  int status;
  command_reset();
  sim_put(CIPHER,c,c_size);
  sim_put(RING,ring,ring_size);
  if (phrase)
    sim_put(PHRASE,phrase,phrase_size);
  if (p)
    sim_put(PROPERTIES,p,p_size);
  status=command(decipher_main,"decipher","-passphrase",PHRASE,"-keyring",RING,p ? "-properties" : "",
    p ? PROPERTIES : "",CIPHER,AGAIN,NULL);
  again=sim_get(AGAIN,&n);
  *left=again ? n : 0;
  if (status != 0)
    return(-1);
  MC_CHECK(again != NULL,"decipher succeeds without output");
  if (strcmp(configs[config].hmac,"None") == 0)
    return(n);
  MC_CHECK(n <= size && memcmp(again,plain,n) == 0,"different content is deciphered without an error");
  return(n);
}

static void try(unsigned char *c,size_t c_size,unsigned char *p,size_t p_size,const char *what,size_t at,
  int value)
{
  size_t left;
  long n;
  mc_note("%s at %zu, %d\n",what,at,value);
  n=decipher(c,c_size,p,p_size,NULL,0,&left);
  mc_observe_int(n);
  if (n < 0 || strcmp(configs[config].hmac,"None") == 0)
    return;
  if (n == (long) size)
    return;
  if (strcmp(what,"cut") == 0 && !ends[n])
    {
      ends[n]=1;    /* only one place is the end of this chunk */
      if (mc_known("cut-between-chunks"))
        return;
    }
  mc_fail("%s at %zu: %ld of %zu bytes are deciphered without an error",what,at,n,size);
}

static void damage(int which)
{
  unsigned char *base=which ? properties : cipher,*copy;
  size_t n=which ? properties_size : cipher_size,at,part,parts;
  int kind=mc_choose(4,"kind"),k;
  parts=kind == 1 ? 1 : 32;
  part=mc_choose(parts,"part");
  memset(ends,0,sizeof(ends));
  for (at=part; at < n+(kind == 2); at+=parts)
  {
    static const unsigned char values[]={ 0,' ','>','<','\n','?','=','9',0xff };
    int count=kind == 1 ? 1 : kind == 2 ? 5 : kind == 3 ? 1 : mc_thorough() && config < 2 ? 255 : 17;
    for (k=0; k < count; k++)
    {
      size_t m=n;
      const char *what="changed";
      copy=malloc(n+1);
      memcpy(copy,base,n);
      switch (kind)
      {
        case 0:
          if (count == 255)
            copy[at]^=k+1;
          else if (k < 8)
            copy[at]^=1 << k;
          else
            copy[at]=values[k-8];
          break;
        case 1: m=at; what="cut"; break;
        case 2: memmove(copy+at+1,copy+at,n-at); copy[at]=values[k]; m=n+1; what="inserted"; break;
        case 3: memmove(copy+at,copy+at+1,n-at-1); m=n-1; what="removed"; break;
      }
      if (which)
        try(cipher,cipher_size,copy,m,what,at,copy[at]);
      else
        try(copy,m,properties,properties_size,what,at,copy[at]);
      free(copy);
    }
  }
}

/* a property changed, and the unkeyed digest of the properties with it */
static void reseal(void)
{
  static const unsigned char values[]={ '<','>','0','9','-',' ','&','/',0x80,'x' };
  unsigned char *base=properties ? properties : cipher,*copy,digest[32];
  size_t n=properties ? properties_size : cipher_size,at,part=mc_choose(32,"part"),length,start,k,i;
  char *body=strstr((char *) base,"?>\n"),*bytes=strstr((char *) base,"bytes=\""),*hex;
  MC_CHECK(body != NULL && bytes != NULL,"the properties have no digest");
  start=body+3-(char *) base;
  length=atoi(bytes+7);
  hex=strstr((char *) base,"digest=\"")+8;
  for (at=part; at < length; at+=32)
    for (k=0; k < sizeof(values); k++)
    {
      copy=malloc(n);
      memcpy(copy,base,n);
      copy[start+at]=values[k];
      ref_hash(REF_SHA256,copy+start,length,digest);
      for (i=0; i < 32; i++)
      {
        char text[3];
        snprintf(text,sizeof(text),"%02x",digest[i]);
        memcpy(copy+(hex-(char *) base)+2*i,text,2);
      }
      if (properties)
        try(cipher,cipher_size,copy,n,"resealed",at,values[k]);
      else
        try(copy,n,NULL,0,"resealed",at,values[k]);
      free(copy);
    }
}

static void wrong_phrase(void)
{
  static const char right[]="open sesame\n";
  char text[20];
  size_t n=12,left;
  int at=mc_choose(11,"position"),k,count=2;
  for (k=0; k < 255+count; k++)
  {
    memcpy(text,right,12);
    n=12;
    if (k < 255)
      text[at]^=k+1;
    else if (k == 255)
      {
        memmove(text+at,text+at+1,11-at);
        n=11;
      }
    else
      {
        memmove(text+at+1,text+at,12-at);
        n=13;
      }
    /* a passphrase ends at a line end or zero byte; zero bytes at its end do not count */
    if (memchr(text,'\0',n) || memchr(text,'\n',n-1))
      continue;
    mc_note("passphrase %.*s\n",(int) n-1,text);
    mc_observe_int(k);
    if (decipher(cipher,cipher_size,properties,properties_size,text,n,&left) >= 0)
      mc_fail("a wrong passphrase is accepted");
    MC_CHECK(left == 0,"a wrong passphrase produces %zu bytes",left);
  }
}

static void body(void)
{
  size_t left;
  config=mc_choose(sizeof(configs)/sizeof(*configs),"setting");
  prepare();
  MC_CHECK(decipher(cipher,cipher_size,properties,properties_size,NULL,0,&left) == (long) size,
    "the unchanged file is not deciphered");
  switch (mc_choose(*configs[config].properties ? 4 : 3,"what"))
  {
    case 2: reseal(); break;
    case 0: wrong_phrase(); break;
    case 1: damage(0); break;
    case 3: damage(1); break;
  }
  forget();
  mc_nontrivial();
}

static void init(void)
{
  command_init();
}

const char *__asan_default_options(void)
{
  return("quarantine_size_mb=1");
}

static const mc_harness h=
{
  .property="C35",.name="cipher_tamper",.rule="every byte changed (17 or all 255 ways), removed, "
    "inserted (5 ways) or the file cut there; near-miss passphrases",.init=init,.body=body
};

int main(int argc,char **argv)
{
  return(mc_main(argc,argv,&h));
}

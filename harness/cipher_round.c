/*
  Enciphered files decipher to the original, for every size and setting.
*/
#include "command.h"

static const char *const ciphers[]={ "AES","Chacha","Serpent","Twofish" },
  *const modes[]={ "CBC","CFB","CTR","ECB","OFB" },
  *const entropies[]={ "None","BZIP","LZMA","ZIP" },
  *const hashes[]={ "None","CRC64","MD5","SHA","SHA2-224","SHA2-256","SHA2-384","SHA2-512","SHA3-224",
    "SHA3-256","SHA3-384","SHA3-512" };

static unsigned char noise[600000],flat[600000];

typedef struct
{
  const char *cipher,*mode,*entropy,*hmac,*key,*random,*bits,*level,*plain,*enciphered,*again,
    *properties;
  const char *phrase;
  size_t phrase_size;
  int chunk,flat,check_key;
  size_t size;
} setting;

static const setting usual=
{
  "AES","CTR","BZIP","SHA2-256","SHA2-256","","512","6",PLAIN,CIPHER,AGAIN,"","",0,48,0,0,0
};

static int known(const char *name)
{
  return(*name == '\0' || ParseWizardOption(WizardHashOptions,WizardFalse,name) >= 0);
}

static void check_file(const char *path,const unsigned char *content,size_t size)
{
  unsigned char *p;
  size_t n=0;
  if (strncmp(path,"/sim/",5) == 0)
    {
      p=sim_get(path,&n);
      MC_CHECK(p != NULL,"there is no deciphered file");
      MC_CHECK(n == size,"%zu bytes deciphered instead of %zu",n,size);
      MC_CHECK(memcmp(p,content,n) == 0,"the deciphered file has other content");
      return;
    }
}

/* the number of bits of the key in the keyring */
static int key_bits(const char *path)
{
  ExceptionInfo *exception=AcquireExceptionInfo();
  KeyringInfo *ring=AcquireKeyringInfo(RING);
  StringInfo *id;
  unsigned char *p;
  char *text,*at,*end;
  size_t n;
  int bits=-1;
  p=sim_get(path,&n);
  MC_CHECK(p != NULL,"there is no enciphered file");
  text=malloc(n+1);
  memcpy(text,p,n);
  text[n]='\0';
  at=strstr(text,"<cipher:id>");
  end=at ? strchr(at+1,'<') : NULL;
  if (end)
    {
      *end='\0';
      id=HexStringToStringInfo(at+11);
      SetKeyringId(ring,id);
      DestroyStringInfo(id);
      if (ExportKeyringKey(ring,exception) != WizardFalse)
        bits=8*(int) GetStringInfoLength(GetKeyringKey(ring));
    }
  free(text);
  DestroyKeyringInfo(ring);
  DestroyExceptionInfo(exception);
  return(bits);
}

static void round_trip(const setting *s)
{
  char chunk[20];
  const unsigned char *content=s->flat ? flat : noise;
  int status;
  command_reset();
  if (s->phrase_size)
    sim_put(PHRASE,s->phrase,s->phrase_size);
  sim_put(s->plain,content,s->size);
  snprintf(chunk,sizeof(chunk),"%d",s->chunk);
  mc_note("%zu bytes%s\n",s->size,s->flat ? ", all alike" : "");
  status=command(encipher_main,"encipher","-passphrase",PHRASE,"-keyring",RING,"-cipher",s->cipher,
    "-mode",s->mode,"-entropy",s->entropy,"-hmac",s->hmac,"-key",s->key,"-key-length",s->bits,
    "-level",s->level,*s->random ? "-random" : "",s->random,s->chunk ? "-chunksize" : "",
    s->chunk ? chunk : "",*s->properties ? "-properties" : "",s->properties,
    s->plain,s->enciphered,NULL);
  MC_CHECK(status == 0,"encipher exits with %d",status);
  if (s->check_key)
    {
      int bits;
      WizardsToolkitGenesis(NULL);
      bits=key_bits(s->properties[0] ? s->properties : s->enciphered);
      WizardsToolkitTerminus();
      MC_CHECK(bits == atoi(s->bits),"a key of %d bits is stored, asked were %s",bits,s->bits);
    }
  status=command(decipher_main,"decipher","-passphrase",PHRASE,"-keyring",RING,
    *s->properties ? "-properties" : "",s->properties,
    s->enciphered,s->again,NULL);
  MC_CHECK(status == 0,"decipher exits with %d",status);
  check_file(s->again,content,s->size);
  check_file(s->plain,content,s->size);
  MC_CHECK(sim_open_descriptors() == 0,"a descriptor is left open");
}

/* every size around the block and chunk limits, for each cipher, mode and framing */
static void sizes(void)
{
  static const int chunks[]={ 16,48,17,64,100 };
  setting s=usual;
  size_t most,at;
  int part,parts=8;
  s.cipher=ciphers[mc_choose(4,"cipher")];
  s.mode=modes[mc_choose(5,"mode")];
  s.entropy=entropies[mc_choose(4,"entropy")];
  s.hmac=mc_choose(2,"hmac") ? "SHA2-256" : "None";
  s.chunk=chunks[mc_choose(mc_thorough() ? 5 : 3,"chunk")];
  s.level="1";
  s.flat=mc_choose(2,"content");
  part=mc_choose(parts,"part");
  most=2*s.chunk+(mc_thorough() ? 66 : 18);
  for (at=part; at <= most; at+=parts)
  {
    s.size=at;
    round_trip(&s);
  }
  mc_observe_int(s.chunk);
  mc_observe_int(part);
}

/* settings in pairs */
static void settings(void)
{
  static const char *const bits[]={ "256","512","1024","2048","128" };
  static const char *const levels[]={ "1","2","3","4","5","6","7","8" };
  setting s=usual;
  s.size=100;
  s.flat=mc_choose(2,"content");
  s.check_key=1;
  switch (mc_choose(4,"which"))
  {
    case 0:
      s.hmac=hashes[mc_choose(12,"hmac")];
      s.key=hashes[1+mc_choose(11,"key hash")];
      break;
    case 1:
      s.cipher=ciphers[mc_choose(4,"cipher")];
      s.mode=modes[mc_choose(5,"mode")];
      s.bits=bits[mc_choose(5,"bits")];
      break;
    case 2:
      s.entropy=entropies[mc_choose(4,"entropy")];
      s.level=levels[mc_choose(8,"level")];
      break;
    case 3:
      s.hmac=hashes[mc_choose(12,"hmac")];
      s.cipher=ciphers[mc_choose(4,"cipher")];
      s.properties=mc_choose(2,"properties") ? "/sim/properties" : "";
      break;
  }
  if (!known(s.hmac) || !known(s.key))
    {
      mc_observe_int(1);
      return;
    }
  round_trip(&s);
  mc_observe_int(2);
}

/* file names */
static void names(void)
{
  static const char special[]="<>&\"' ;%=/#";
  char plain[64],enciphered[64],again[64],name[8];
  setting s=usual;
  int a=mc_choose(2,"pair");
  if (a)
    snprintf(name,sizeof(name),"%c%c",special[mc_choose(11,"first")],special[mc_choose(11,"second")]);
  else
    {
      int c=1+mc_choose(255,"character");
      snprintf(name,sizeof(name),"%c",c);
    }
  if (strpbrk(name,"*?[{/"))
    {
      mc_observe_int(0);
      return;
    }
  snprintf(plain,sizeof(plain),"/sim/p%sx",name);
  snprintf(enciphered,sizeof(enciphered),"/sim/c%sx",name);
  snprintf(again,sizeof(again),"/sim/d%sx",name);
  s.plain=plain;
  s.enciphered=enciphered;
  s.again=again;
  s.size=50;
  round_trip(&s);
  mc_observe_int(1);
}

/* the default chunk */
static void defaults(void)
{
  static const size_t edges[]={ 0,262144,524288 };
  setting s=usual;
  s.chunk=0;
  s.flat=mc_choose(2,"content");
  s.mode=modes[mc_choose(mc_thorough() ? 5 : 3,"mode")];
  s.size=edges[mc_choose(mc_thorough() ? 3 : 2,"edge")]+mc_choose(36,"offset")-18;
  if (s.size > 600000)
    s.size=8192;
  round_trip(&s);
  mc_observe_int(s.size);
}

/* passphrases: every character, and every length to 300 */
static void phrases(void)
{
  char text[400];
  setting s=usual;
  int n=2+mc_choose(299,"length or character");
  s.phrase=text;
  s.size=50;
  memset(text,'p',sizeof(text));
  if (mc_choose(2,"which"))
    s.phrase_size=n;
  else
    {
      text[1]=n-1;
      s.phrase_size=3;
    }
  round_trip(&s);
  mc_observe_int(n);
}

/* several files under one keyring, deciphered in every order */
static void several(void)
{
  static const int order[6][3]={ {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} };
  int i,o=mc_choose(6,"order"),alike=mc_choose(2,"same setting"),mode=mc_choose(5,"mode"),status;
  int cipher=mc_choose(4,"cipher");
  char plain[20],enciphered[20];
  command_reset();
  for (i=0; i < 3; i++)
  {
    snprintf(plain,sizeof(plain),"/sim/p%d",i);
    snprintf(enciphered,sizeof(enciphered),"/sim/c%d",i);
    sim_put(plain,noise+i,60);
    status=command(encipher_main,"encipher","-passphrase",PHRASE,"-keyring",RING,"-chunksize","32",
      "-mode",modes[alike ? mode : (mode+i)%5],"-cipher",ciphers[alike ? cipher : (cipher+i)%4],plain,
      enciphered,NULL);
    MC_CHECK(status == 0,"encipher exits with %d",status);
  }
  for (i=0; i < 3; i++)
  {
    snprintf(enciphered,sizeof(enciphered),"/sim/c%d",order[o][i]);
    status=command(decipher_main,"decipher","-passphrase",PHRASE,"-keyring",RING,enciphered,AGAIN,NULL);
    MC_CHECK(status == 0,"decipher exits with %d",status);
    check_file(AGAIN,noise+order[o][i],60);
  }
  mc_observe_int(o);
}

static void body(void)
{
  switch (mc_choose(6,"part"))
  {
    case 0: sizes(); break;
    case 1: settings(); break;
    case 2: names(); break;
    case 3: defaults(); break;
    case 4: phrases(); break;
    case 5: several(); break;
  }
  mc_nontrivial();
}

static void init(void)
{
  fill(noise,sizeof(noise),3);
  memset(flat,'a',sizeof(flat));
  command_init();
}

const char *__asan_default_options(void)
{
  return("quarantine_size_mb=1");
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C34", .name="cipher_round",
    .rule="every size to two chunks + 18 (66) for each cipher, mode, entropy coder, chunk size, with "
      "and without authentication; hashes, key lengths and levels in pairs; every name character; "
      "sizes around the default chunk",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

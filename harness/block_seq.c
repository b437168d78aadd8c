/*
  Block ciphers over structured keys and blocks, and histories of two objects.
*/
#include "common.h"
#include "wizard/aes.h"
#include "wizard/chacha.h"
#include "wizard/serpent.h"
#include "wizard/twofish.h"
#include "modes.h"

static void *acquire(int c)
{
  switch (c)
  {
    case REF_AES: return(AcquireAESInfo());
    case REF_CHACHA: return(AcquireChachaInfo());
    case REF_SERPENT: return(AcquireSerpentInfo());
    default: return(AcquireTwofishInfo());
  }
}

static void destroy(int c,void *p)
{
  switch (c)
  {
    case REF_AES: DestroyAESInfo(p); break;
    case REF_CHACHA: DestroyChachaInfo(p); break;
    case REF_SERPENT: DestroySerpentInfo(p); break;
    default: DestroyTwofishInfo(p); break;
  }
}

static void set_key(int c,void *p,const unsigned char *key,int n)
{
  StringInfo *s=sealed(key,n);
  switch (c)
  {
    case REF_AES: SetAESKey(p,s); break;
    case REF_CHACHA: SetChachaKey(p,s); break;
    case REF_SERPENT: SetSerpentKey(p,s); break;
    default: SetTwofishKey(p,s); break;
  }
  MC_CHECK((int) GetStringInfoLength(s) == n &&
    memcmp(GetStringInfoDatum(s),key,n) == 0,"setting the key changed it");
  unseal(s);
  mc_transition();
}

static void crypt_block(int c,void *p,int decipher,const unsigned char *in,
  unsigned char *out)
{
  switch (c)
  {
    case REF_AES:
      decipher ? DecipherAESBlock(p,in,out) : EncipherAESBlock(p,in,out);
      break;
    case REF_CHACHA:
      decipher ? DecipherChachaBlock(p,in,out) : EncipherChachaBlock(p,in,out);
      break;
    case REF_SERPENT:
      decipher ? DecipherSerpentBlock(p,in,out) : EncipherSerpentBlock(p,in,out);
      break;
    default:
      decipher ? DecipherTwofishBlock(p,in,out) : EncipherTwofishBlock(p,in,out);
      break;
  }
  mc_transition();
}

static void one(int c,void *p,const ref_key *k,const unsigned char *block,
  int separate)
{
  int b=ref_cipher_block[c];
  unsigned char want[64],*x=malloc(b),*y=separate ? malloc(b) : x;
  memcpy(x,block,b);
  ref_encipher(k,block,want);
  crypt_block(c,p,0,x,y);
  MC_CHECK(memcmp(y,want,b) == 0,"%s with a %d-bit key enciphers wrongly",
    ref_cipher_name[c],8*k->length);
  if (separate)
    MC_CHECK(memcmp(x,block,b) == 0,"enciphering changed its input");
  crypt_block(c,p,1,y,x);
  MC_CHECK(memcmp(x,block,b) == 0,"%s with a %d-bit key does not decipher what "
    "it enciphered",ref_cipher_name[c],8*k->length);
  ref_decipher(k,block,want);
  memcpy(y,block,b);
  crypt_block(c,p,1,y,y);
  MC_CHECK(memcmp(y,want,b) == 0,"%s with a %d-bit key deciphers wrongly",
    ref_cipher_name[c],8*k->length);
  if (separate)
    free(y);
  free(x);
}

static void *pool[REF_CIPHERS];

static void values(void)
{
  int c=mc_choose(REF_CIPHERS,"cipher"),n,at,value,vary,base,b=ref_cipher_block[c];
  unsigned char key[32],block[64];
  ref_key k;
  n=key_lengths(c,mc_choose(c == REF_CHACHA ? 2 : 3,"key length"));
  base=mc_choose(3,"background");
  vary=mc_choose(2,"vary key or block");
  at=mc_choose(vary == 0 ? n : b,"byte position");
  value=mc_choose(mc_thorough() ? 256 : 32,"byte value");
  if (!mc_thorough())
    value=value < 8 ? 1<<value : value < 16 ? 255^(1<<(value-8)) : (value-16)*17;
  if (base == 2)
    {
      fill(key,32,5);
      fill(block,64,6);
    }
  else
    {
      memset(key,base ? 0xff : 0,32);
      memset(block,base ? 0xff : 0,64);
    }
  if (vary == 0)
    key[at]=value;
  else
    block[at]=value;
  mc_note("%s, %d-bit key, background %d, %s byte %d is %d\n",ref_cipher_name[c],
    8*n,base,vary ? "block" : "key",at,value);
  ref_set_key(&k,c,key,n);
  set_key(c,pool[c],key,n);
  one(c,pool[c],&k,block,(at+value)&1);
  mc_nontrivial();
  mc_observe_int(((((long) c*3+n)*3+base)*2+vary)*100000+at*256+value);
}

static void histories(void)
{
  int c[2],n[2]={ 0,0 },i,o,op,depth=mc_thorough() ? 6 : 5;
  unsigned char key[4][32],block[64];
  void *p[2];
  ref_key k[2];
  c[0]=mc_choose(REF_CIPHERS,"first cipher");
  c[1]=mc_choose(2,"second cipher") ? (c[0]+1)%REF_CIPHERS : c[0];
  for (i=0; i < 4; i++)
    fill(key[i],32,20+i);
  fill(block,64,30);
  for (i=0; i < 2; i++)
    p[i]=acquire(c[i]);
  for (i=0; i < depth; i++)
  {
    o=mc_choose(2,"object");
    op=n[o] == 0 ? mc_choose(3,"call") : mc_choose(4,"call");
    if (op < 3)
      {
        n[o]=key_lengths(c[o],op%(c[o] == REF_CHACHA ? 2 : 3));
        set_key(c[o],p[o],key[op],n[o]);
        ref_set_key(&k[o],c[o],key[op],n[o]);
        mc_note("%s %d: key %d of %d bytes\n",ref_cipher_name[c[o]],o,op,n[o]);
      }
    else
      {
        mc_note("%s %d: encipher and decipher\n",ref_cipher_name[c[o]],o);
        one(c[o],p[o],&k[o],block,i&1);
        mc_nontrivial();
      }
  }
  for (o=0; o < 2; o++)
  {
    if (n[o])
      one(c[o],p[o],&k[o],block,0);
    mc_observe_int(c[o]*1000+n[o]);
    destroy(c[o],p[o]);
  }
}

static void body(void)
{
  if (mc_choose(2,"values or histories") == 0)
    values();
  else
    histories();
}

static void init(void)
{
  int i;
  for (i=0; i < REF_CIPHERS; i++)
    pool[i]=acquire(i);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C12", .name="block_seq",
    .rule="every byte position of key and block with 32 values (thorough: all 256) "
      "on three backgrounds for four ciphers and every key length, and every "
      "history of 5 (6) set-key and encipher/decipher calls on two objects; "
      "distinct by cipher, key and block",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

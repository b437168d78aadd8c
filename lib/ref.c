#include <openssl/evp.h>
#include <openssl/aes.h>
#include <stdlib.h>
#include <string.h>
#include "ref.h"

const char *ref_hash_name[]={ "crc64","md5","sha1","sha224","sha256","sha384",
  "sha512","sha3","sha3-224","sha3-256","sha3-384","sha3-512" };
const int ref_digest[]={ 8,16,20,28,32,48,64,36,28,32,48,64 };
/* bytes between two compressions */
const int ref_block[]={ 1,64,64,64,64,128,128,128,144,136,104,72 };
const char *ref_cipher_name[]={ "aes","chacha","serpent","twofish" };
const int ref_cipher_block[]={ 16,64,16,16 };

struct ref_stream { int hash; EVP_MD_CTX *md; uint64_t crc,lane[25]; int rate,n;
  unsigned char queue[200]; };

/*
  Keccak with the padding of the competition entry, as SHA-3 was before the
  standard added a domain suffix.
*/
static uint64_t rol(uint64_t x,int n)
{
  return(n ? (x << n) | (x >> (64-n)) : x);
}

static void keccak_f(uint64_t a[25])
{
  static const uint64_t rc[24]={ 0x0000000000000001,0x0000000000008082,
    0x800000000000808a,0x8000000080008000,0x000000000000808b,0x0000000080000001,
    0x8000000080008081,0x8000000000008009,0x000000000000008a,0x0000000000000088,
    0x0000000080008009,0x000000008000000a,0x000000008000808b,0x800000000000008b,
    0x8000000000008089,0x8000000000008003,0x8000000000008002,0x8000000000000080,
    0x000000000000800a,0x800000008000000a,0x8000000080008081,0x8000000000008080,
    0x0000000080000001,0x8000000080008008 };
  static const int rot[25]={ 0,1,62,28,27,36,44,6,55,20,3,10,43,25,39,41,45,15,
    21,8,18,2,61,56,14 };
  uint64_t b[25],c[5];
  int r,x,y;
  for (r=0; r < 24; r++)
  {
    for (x=0; x < 5; x++)
      c[x]=a[x]^a[x+5]^a[x+10]^a[x+15]^a[x+20];
    for (x=0; x < 5; x++)
      for (y=0; y < 5; y++)
        a[x+5*y]^=c[(x+4)%5]^rol(c[(x+1)%5],1);
    for (x=0; x < 5; x++)
      for (y=0; y < 5; y++)
        b[y+5*((2*x+3*y)%5)]=rol(a[x+5*y],rot[x+5*y]);
    for (x=0; x < 5; x++)
      for (y=0; y < 5; y++)
        a[x+5*y]=b[x+5*y]^(~b[(x+1)%5+5*y]&b[(x+2)%5+5*y]);
    a[0]^=rc[r];
  }
}

static void keccak_block(ref_stream *s)
{
  uint64_t v;
  int i;
  for (i=0; i < s->rate/8; i++)
  {
    memcpy(&v,s->queue+8*i,8);
    s->lane[i]^=v;
  }
  keccak_f(s->lane);
  memset(s->queue,0,sizeof(s->queue));
  s->n=0;
}

ref_stream *ref_begin(int hash)
{
  static const EVP_MD *(*md[])(void)={ NULL,EVP_md5,EVP_sha1,EVP_sha224,
    EVP_sha256,EVP_sha384,EVP_sha512 };
  ref_stream *s=calloc(1,sizeof(*s));
  s->hash=hash;
  if (hash >= REF_MD5 && hash <= REF_SHA512)
    {
      s->md=EVP_MD_CTX_new();
      EVP_DigestInit_ex(s->md,md[hash](),NULL);
    }
  else if (hash >= REF_SHA3)
    s->rate=ref_block[hash];
  return(s);
}

void ref_add(ref_stream *s,const void *data,size_t length)
{
  const unsigned char *p=data;
  int j;
  if (s->md)
    {
      EVP_DigestUpdate(s->md,data,length);
      return;
    }
  for ( ; length > 0; length--, p++)
    if (s->hash == REF_CRC64)
      {
        s->crc^=*p;
        for (j=0; j < 8; j++)
          s->crc=(s->crc >> 1)^((s->crc & 1) ? 0xd800000000000000ull : 0);
      }
    else
      {
        s->queue[s->n++]=*p;
        if (s->n == s->rate)
          keccak_block(s);
      }
}

void ref_end(ref_stream *s,unsigned char *digest)
{
  int i;
  if (s->md)
    {
      EVP_DigestFinal_ex(s->md,digest,NULL);
      EVP_MD_CTX_free(s->md);
    }
  else if (s->hash == REF_CRC64)
    for (i=0; i < 8; i++)
      digest[i]=(unsigned char) (s->crc >> (56-8*i));
  else
    {
      s->queue[s->n]^=0x01;
      s->queue[s->rate-1]^=0x80;
      keccak_block(s);
      memcpy(digest,s->lane,ref_digest[s->hash]);
    }
  free(s);
}

void ref_hash(int hash,const void *data,size_t length,unsigned char *digest)
{
  ref_stream *s=ref_begin(hash);
  ref_add(s,data,length);
  ref_end(s,digest);
}

void ref_hmac(int hash,int block,const void *key,size_t key_length,
  const void *data,size_t length,unsigned char *digest)
{
  unsigned char k[256],pad[256],inner[64];
  ref_stream *s;
  int i;
  memset(k,0,sizeof(k));
  if (key_length > (size_t) block)
    ref_hash(hash,key,key_length,k);
  else
    memcpy(k,key,key_length);
  for (i=0; i < block; i++)
    pad[i]=k[i]^0x36;
  s=ref_begin(hash);
  ref_add(s,pad,block);
  ref_add(s,data,length);
  ref_end(s,inner);
  for (i=0; i < block; i++)
    pad[i]=k[i]^0x5c;
  s=ref_begin(hash);
  ref_add(s,pad,block);
  ref_add(s,inner,ref_digest[hash]);
  ref_end(s,digest);
}

/*
  Little-endian words.
*/
static uint32_t get32(const unsigned char *p)
{
  return(p[0]|p[1]<<8|p[2]<<16|(uint32_t) p[3]<<24);
}

static void put32(unsigned char *p,uint32_t v)
{
  p[0]=v; p[1]=v>>8; p[2]=v>>16; p[3]=v>>24;
}

static uint32_t rl(uint32_t x,int n)
{
  return((x << n)|(x >> (32-n)));
}

/*
  Serpent, from the S-box tables.
*/
static const unsigned char serpent_s[8][16]=
{
  { 3,8,15,1,10,6,5,11,14,13,4,2,7,0,9,12 },
  { 15,12,2,7,9,0,5,10,1,11,14,8,6,13,3,4 },
  { 8,6,7,9,3,12,10,15,13,1,14,4,0,11,5,2 },
  { 0,15,11,8,12,9,6,3,13,1,2,4,10,7,5,14 },
  { 1,15,8,3,12,0,11,6,2,5,4,10,9,14,7,13 },
  { 15,5,2,11,4,10,9,12,0,3,14,8,13,6,7,1 },
  { 7,2,12,5,8,4,6,11,14,9,1,15,13,3,10,0 },
  { 1,13,15,0,14,8,2,11,7,4,12,10,9,3,5,6 }
};

static void serpent_box(int box,int inverse,uint32_t x[4])
{
  uint32_t y[4]={ 0,0,0,0 };
  int i,j,v,o;
  for (i=0; i < 32; i++)
  {
    v=((x[0]>>i)&1)|((x[1]>>i)&1)<<1|((x[2]>>i)&1)<<2|((x[3]>>i)&1)<<3;
    o=serpent_s[box][v];
    if (inverse)
      for (o=0; serpent_s[box][o] != v; o++) ;
    for (j=0; j < 4; j++)
      y[j]|=(uint32_t) ((o>>j)&1)<<i;
  }
  memcpy(x,y,16);
}

static void serpent_key(ref_key *k)
{
  unsigned char pad[32];
  uint32_t w[140];
  int i;
  memset(pad,0,32);
  memcpy(pad,k->key,k->length);
  if (k->length < 32)
    pad[k->length]=1;
  for (i=0; i < 8; i++)
    w[i]=get32(pad+4*i);
  for (i=8; i < 140; i++)
    w[i]=rl(w[i-8]^w[i-5]^w[i-3]^w[i-1]^0x9e3779b9u^(uint32_t) (i-8),11);
  for (i=0; i < 33; i++)
  {
    serpent_box((35-i)%8,0,w+8+4*i);
    memcpy(k->w+4*i,w+8+4*i,16);
  }
}

static void serpent_encipher(const ref_key *k,const unsigned char *in,
  unsigned char *out)
{
  uint32_t x[4];
  int i,j;
  for (j=0; j < 4; j++)
    x[j]=get32(in+4*j);
  for (i=0; i < 32; i++)
  {
    for (j=0; j < 4; j++)
      x[j]^=k->w[4*i+j];
    serpent_box(i%8,0,x);
    if (i == 31)
      break;
    x[0]=rl(x[0],13); x[2]=rl(x[2],3);
    x[1]^=x[0]^x[2]; x[3]^=x[2]^(x[0]<<3);
    x[1]=rl(x[1],1); x[3]=rl(x[3],7);
    x[0]^=x[1]^x[3]; x[2]^=x[3]^(x[1]<<7);
    x[0]=rl(x[0],5); x[2]=rl(x[2],22);
  }
  for (j=0; j < 4; j++)
    put32(out+4*j,x[j]^k->w[128+j]);
}

static void serpent_decipher(const ref_key *k,const unsigned char *in,
  unsigned char *out)
{
  uint32_t x[4];
  int i,j;
  for (j=0; j < 4; j++)
    x[j]=get32(in+4*j)^k->w[128+j];
  for (i=31; i >= 0; i--)
  {
    if (i != 31)
      {
        x[2]=rl(x[2],10); x[0]=rl(x[0],27);
        x[2]^=x[3]^(x[1]<<7); x[0]^=x[1]^x[3];
        x[3]=rl(x[3],25); x[1]=rl(x[1],31);
        x[3]^=x[2]^(x[0]<<3); x[1]^=x[0]^x[2];
        x[2]=rl(x[2],29); x[0]=rl(x[0],19);
      }
    serpent_box(i%8,1,x);
    for (j=0; j < 4; j++)
      x[j]^=k->w[4*i+j];
  }
  for (j=0; j < 4; j++)
    put32(out+4*j,x[j]);
}

/*
  Twofish, from the nibble tables and matrices.
*/
static unsigned char gf(int a,int b,int poly)
{
  int r=0;
  for ( ; b; b>>=1, a<<=1)
  {
    if (a & 0x100)
      a^=poly;
    if (b & 1)
      r^=a;
  }
  return(r);
}

static int twofish_q(int q,int x)
{
  static const unsigned char t[2][4][16]=
  {
    { { 8,1,7,13,6,15,3,2,0,11,5,9,14,12,10,4 },
      { 14,12,11,8,1,2,3,5,15,4,10,6,7,0,9,13 },
      { 11,10,5,14,6,13,9,0,12,8,15,3,2,4,7,1 },
      { 13,7,15,4,1,2,6,14,9,11,3,0,8,5,12,10 } },
    { { 2,8,11,13,15,7,6,14,3,1,9,4,0,10,12,5 },
      { 1,14,2,11,4,12,3,7,6,13,10,5,15,9,0,8 },
      { 4,12,7,5,1,6,9,10,0,14,13,8,2,11,3,15 },
      { 11,9,5,1,12,3,13,14,6,4,7,15,2,0,8,10 } }
  };
  int a=x>>4,b=x&15,c,d;
  c=a^b;
  d=a^((b>>1)|((b&1)<<3))^((8*a)&15);
  a=t[q][0][c]; b=t[q][1][d];
  c=a^b;
  d=a^((b>>1)|((b&1)<<3))^((8*a)&15);
  return(t[q][3][d]<<4|t[q][2][c]);
}

static uint32_t twofish_h(const unsigned char x[4],const unsigned char *l,int k)
{
  static const int order[5][4]={ { 1,0,1,0 },{ 0,0,1,1 },{ 0,1,0,1 },
    { 1,1,0,0 },{ 1,0,0,1 } };
  static const unsigned char mds[4][4]={ { 0x01,0xEF,0x5B,0x5B },
    { 0x5B,0xEF,0xEF,0x01 },{ 0xEF,0x5B,0x01,0xEF },{ 0xEF,0x01,0xEF,0x5B } };
  unsigned char y[4];
  uint32_t z=0;
  int i,j,v;
  memcpy(y,x,4);
  for (i=k; i > 0; i--)
    for (j=0; j < 4; j++)
      y[j]=twofish_q(order[i][j],y[j])^l[4*(i-1)+j];
  for (j=0; j < 4; j++)
    y[j]=twofish_q(order[0][j],y[j]);
  for (i=0; i < 4; i++)
  {
    v=0;
    for (j=0; j < 4; j++)
      v^=gf(mds[i][j],y[j],0x169);
    z|=(uint32_t) v<<(8*i);
  }
  return(z);
}

static void twofish_key(ref_key *k)
{
  static const unsigned char rs[4][8]={
    { 0x01,0xA4,0x55,0x87,0x5A,0x58,0xDB,0x9E },
    { 0xA4,0x56,0x82,0xF3,0x1E,0xC6,0x68,0xE5 },
    { 0x02,0xA1,0xFC,0xC1,0x47,0xAE,0x3D,0x19 },
    { 0xA4,0x55,0x87,0x5A,0x58,0xDB,0x9E,0x03 } };
  unsigned char even[16],odd[16],s[16],x[4];
  uint32_t a,b;
  int n=k->length/8,i,j,m,v;
  for (i=0; i < n; i++)
  {
    memcpy(even+4*i,k->key+8*i,4);
    memcpy(odd+4*i,k->key+8*i+4,4);
    for (j=0; j < 4; j++)
    {
      v=0;
      for (m=0; m < 8; m++)
        v^=gf(rs[j][m],k->key[8*i+m],0x14D);
      s[4*(n-1-i)+j]=v;
    }
  }
  for (i=0; i < 20; i++)
  {
    memset(x,2*i,4);
    a=twofish_h(x,even,n);
    memset(x,2*i+1,4);
    b=rl(twofish_h(x,odd,n),8);
    k->w[2*i]=a+b;
    k->w[2*i+1]=rl(a+2*b,9);
  }
  memcpy(k->s,s,16);
}

static uint32_t twofish_g(const ref_key *k,uint32_t v)
{
  unsigned char x[4];
  put32(x,v);
  return(twofish_h(x,k->s[0],k->length/8));
}

static void twofish(const ref_key *k,const unsigned char *in,unsigned char *out,
  int decipher)
{
  uint32_t r[4],t0,t1,f0,f1,s;
  int i,n;
  for (i=0; i < 4; i++)
    r[i]=get32(in+4*i)^k->w[decipher ? 4+i : i];
  for (n=0; n < 16; n++)
  {
    i=decipher ? 15-n : n;
    t0=twofish_g(k,r[0]);
    t1=twofish_g(k,rl(r[1],8));
    f0=t0+t1+k->w[2*i+8];
    f1=t0+2*t1+k->w[2*i+9];
    if (decipher)
      {
        r[2]=rl(r[2],1)^f0;
        r[3]=rl(r[3]^f1,31);
      }
    else
      {
        r[2]=rl(r[2]^f0,31);
        r[3]=rl(r[3],1)^f1;
      }
    s=r[0]; r[0]=r[2]; r[2]=s;
    s=r[1]; r[1]=r[3]; r[3]=s;
  }
  for (i=0; i < 4; i++)
    put32(out+4*i,r[(i+2)%4]^k->w[decipher ? i : 4+i]);
}

/*
  The keystream block of ChaCha20 with counter and nonce zero.
*/
static void chacha(const ref_key *k,const unsigned char *in,unsigned char *out)
{
  uint32_t s[16],x[16];
  int i;
  memcpy(s,k->length == 32 ? "expand 32-byte k" : "expand 16-byte k",16);
  memcpy(s+4,k->key,16);
  memcpy(s+8,k->key+(k->length == 32 ? 16 : 0),16);
  memset(s+12,0,16);
  memcpy(x,s,64);
#define QR(a,b,c,d) x[a]+=x[b]; x[d]=rl(x[d]^x[a],16); x[c]+=x[d]; \
  x[b]=rl(x[b]^x[c],12); x[a]+=x[b]; x[d]=rl(x[d]^x[a],8); x[c]+=x[d]; \
  x[b]=rl(x[b]^x[c],7);
  for (i=0; i < 10; i++)
  {
    QR(0,4,8,12) QR(1,5,9,13) QR(2,6,10,14) QR(3,7,11,15)
    QR(0,5,10,15) QR(1,6,11,12) QR(2,7,8,13) QR(3,4,9,14)
  }
  for (i=0; i < 16; i++)
    put32(out+4*i,get32(in+4*i)^(x[i]+s[i]));
}

void ref_set_key(ref_key *k,int cipher,const void *key,int length)
{
  memset(k,0,sizeof(*k));
  k->cipher=cipher;
  k->length=length;
  memcpy(k->key,key,length);
  if (cipher == REF_SERPENT)
    serpent_key(k);
  if (cipher == REF_TWOFISH)
    twofish_key(k);
}

void ref_encipher(const ref_key *k,const unsigned char *in,unsigned char *out)
{
  unsigned char t[64];
  AES_KEY aes;
  memcpy(t,in,ref_cipher_block[k->cipher]);
  if (k->cipher == REF_AES)
    {
      AES_set_encrypt_key(k->key,8*k->length,&aes);
      AES_encrypt(t,out,&aes);
    }
  else if (k->cipher == REF_CHACHA)
    chacha(k,t,out);
  else if (k->cipher == REF_SERPENT)
    serpent_encipher(k,t,out);
  else
    twofish(k,t,out,0);
}

void ref_decipher(const ref_key *k,const unsigned char *in,unsigned char *out)
{
  unsigned char t[64];
  AES_KEY aes;
  memcpy(t,in,ref_cipher_block[k->cipher]);
  if (k->cipher == REF_AES)
    {
      AES_set_decrypt_key(k->key,8*k->length,&aes);
      AES_decrypt(t,out,&aes);
    }
  else if (k->cipher == REF_CHACHA)
    chacha(k,t,out);
  else if (k->cipher == REF_SERPENT)
    serpent_decipher(k,t,out);
  else
    twofish(k,t,out,1);
}

/*
  Reference cipher modes over the reference block ciphers.
*/
#include "ref.h"

static const CipherType cipher_type[]={ AESCipher,ChachaCipher,SerpentCipher,
  TwofishCipher };
static const CipherMode mode_type[]={ CBCMode,CFBMode,CTRMode,ECBMode,OFBMode };
static const char *mode_name[]={ "cbc","cfb","ctr","ecb","ofb" };
enum { CBC, CFB, CTR, ECB, OFB, MODES };

static inline int key_lengths(int cipher,int n)
{
  return(cipher == REF_CHACHA ? (n == 0 ? 16 : 32) : 16+8*n);
}

static inline size_t padded(int mode,size_t n,int block)
{
  return(mode == CFB ? n : (n+block-1)/block*block);
}

/* in and out hold padded() bytes */
static inline void ref_mode_encipher(const ref_key *k,int mode,
  const unsigned char *nonce,const unsigned char *in,size_t n,unsigned char *out)
{
  int b=ref_cipher_block[k->cipher],i;
  unsigned char v[64],t[64];
  size_t at;
  memcpy(v,nonce,b);
  for (at=0; at < n; at+=mode == CFB ? 1 : b)
    switch (mode)
    {
      case ECB: ref_encipher(k,in+at,out+at); break;
      case CBC:
        for (i=0; i < b; i++)
          t[i]=in[at+i]^v[i];
        ref_encipher(k,t,out+at);
        memcpy(v,out+at,b);
        break;
      case OFB:
        ref_encipher(k,v,v);
        for (i=0; i < b; i++)
          out[at+i]=in[at+i]^v[i];
        break;
      case CTR:
        ref_encipher(k,v,t);
        for (i=0; i < b; i++)
          out[at+i]=in[at+i]^t[i];
        for (i=b-1; i >= 0 && ++v[i] == 0; i--) ;
        break;
      case CFB:
        ref_encipher(k,v,t);
        out[at]=in[at]^t[0];
        memmove(v,v+1,b-1);
        v[b-1]=out[at];
        break;
    }
}

static inline void ref_mode_decipher(const ref_key *k,int mode,
  const unsigned char *nonce,const unsigned char *in,size_t n,unsigned char *out)
{
  int b=ref_cipher_block[k->cipher],i;
  unsigned char v[64],t[64];
  size_t at;
  if (mode == OFB || mode == CTR)
    {
      ref_mode_encipher(k,mode,nonce,in,n,out);
      return;
    }
  memcpy(v,nonce,b);
  for (at=0; at < n; at+=mode == CFB ? 1 : b)
    switch (mode)
    {
      case ECB: ref_decipher(k,in+at,out+at); break;
      case CBC:
        ref_decipher(k,in+at,t);
        for (i=0; i < b; i++)
          t[i]^=v[i];
        memcpy(v,in+at,b);
        memcpy(out+at,t,b);
        break;
      case CFB:
        ref_encipher(k,v,t);
        memmove(v,v+1,b-1);
        v[b-1]=in[at];
        out[at]=in[at]^t[0];
        break;
    }
}

/* a counted string of n bytes with only its padding usable beyond */
static inline StringInfo *message(const unsigned char *p,size_t n,size_t pad)
{
  StringInfo *s=AcquireStringInfo(n);
  memcpy(GetStringInfoDatum(s),p,n);
  ASAN_POISON_MEMORY_REGION(GetStringInfoDatum(s)+n+pad,
    SLACK(GetStringInfoDatum(s),n+pad));
  return(s);
}

static inline void discard(StringInfo *s,size_t n,size_t pad)
{
  ASAN_UNPOISON_MEMORY_REGION(GetStringInfoDatum(s)+n+pad,
    SLACK(GetStringInfoDatum(s),n+pad));
  DestroyStringInfo(s);
}

/*
  Encipher n bytes and compare with the definition; the ciphertext of padded()
  bytes is left in out.
*/
static inline void check_encipher(CipherInfo *c,const ref_key *k,int mode,
  const unsigned char *nonce,const unsigned char *text,size_t n,
  unsigned char *out,StringInfo **keep)
{
  int b=ref_cipher_block[k->cipher],i;
  size_t full=padded(mode,n,b),pad=mode == CFB ? 0 : b-n%b,whole=n/b*b;
  unsigned char *want=malloc(full+b),*in=malloc(full+b);
  StringInfo *s=message(text,n,pad),*r;
  r=EncipherCipher(c,s);
  mc_transition();
  MC_CHECK(r == s && GetStringInfoLength(r) == n,"encipher changed the length");
  memcpy(out,GetStringInfoDatum(r),full);
  memset(in,0,full+b);
  memcpy(in,text,n);
  ref_mode_encipher(k,mode,nonce,in,full,want);
  if (mode == CFB)
    MC_CHECK(memcmp(out,want,n) == 0,"ciphertext differs from the definition");
  else
    {
      MC_CHECK(memcmp(out,want,whole) == 0,
        "ciphertext differs from the definition");
      if (whole < n)
        {
          ref_mode_decipher(k,mode,nonce,out,full,in);
          for (i=0; i < (int) n; i++)
            MC_CHECK(in[i] == text[i],"the last ciphertext block is not the "
              "message's");
          MC_CHECK(in[full-1] == full-n-1,"the padding does not give its length");
        }
    }
  free(want);
  free(in);
  if (keep)
    *keep=r;
  else
    discard(r,n,pad);
}

static inline void check_decipher(CipherInfo *c,const ref_key *k,int mode,
  const unsigned char *nonce,const unsigned char *cipher,size_t full,size_t n,
  const unsigned char *text)
{
  unsigned char *want;
  StringInfo *s=message(cipher,full,0),*r;
  r=DecipherCipher(c,s);
  mc_transition();
  MC_CHECK(r == s && GetStringInfoLength(r) == full,"decipher changed the length");
  if (text)
    MC_CHECK(memcmp(GetStringInfoDatum(r),text,n) == 0,
      "deciphering does not give the message back");
  want=malloc(full+64);
  ref_mode_decipher(k,mode,nonce,cipher,full,want);
  MC_CHECK(memcmp(GetStringInfoDatum(r),want,full) == 0,
    "deciphering differs from the definition");
  free(want);
  discard(r,full,0);
}

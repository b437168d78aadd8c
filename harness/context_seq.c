/*
  Histories of calls on cipher contexts.
*/
#include "common.h"
#include "modes.h"

static unsigned char text[1024],keys[2][32],nonces[2][64];
static CipherInfo *pool[REF_CIPHERS][MODES][2];

static void histories(void)
{
  int c=mc_choose(REF_CIPHERS,"cipher"),m=mc_choose(MODES,"mode"),
    b=ref_cipher_block[c],i,o,op,depth=mc_thorough() ? 5 : 4,used[2]={ 0,0 },
    kn[2]={ 0,0 },nn[2]={ 0,0 },n;
  CipherInfo *p[2];
  StringInfo *s;
  unsigned char out[256],nonce[2][64];
  ref_key k[2];
  for (o=0; o < 2; o++)
  {
    /* both contexts start from the same known key and nonce */
    p[o]=pool[c][m][o];
    ref_set_key(&k[o],c,keys[0],16);
    s=sealed(keys[0],16);
    SetCipherKey(p[o],s);
    unseal(s);
    memcpy(nonce[o],nonces[0],b);
    s=sealed(nonces[0],b);
    SetCipherNonce(p[o],s);
    unseal(s);
  }
  mc_note("%s %s\n",ref_cipher_name[c],mode_name[m]);
  for (i=0; i < depth; i++)
  {
    o=mc_choose(2,"context");
    op=mc_choose(6,"call");
    mc_note("context %d: %s\n",o,(const char *[]) { "set the other key",
      "set the other nonce","reset the nonce","encipher a short message",
      "encipher a long message","decipher" }[op]);
    switch (op)
    {
      case 0:
        kn[o]^=1;
        n=kn[o] ? 32 : 16;
        s=sealed(keys[kn[o]],n);
        SetCipherKey(p[o],s);
        MC_CHECK(memcmp(GetStringInfoDatum(s),keys[kn[o]],n) == 0,
          "the caller's key changed");
        unseal(s);
        ref_set_key(&k[o],c,keys[kn[o]],n);
        break;
      case 1:
        nn[o]^=1;
        s=sealed(nonces[nn[o]],b);
        SetCipherNonce(p[o],s);
        MC_CHECK(memcmp(GetStringInfoDatum(s),nonces[nn[o]],b) == 0,
          "the caller's nonce changed");
        unseal(s);
        memcpy(nonce[o],nonces[nn[o]],b);
        break;
      case 2:
        ResetCipherNonce(p[o]);
        memset(nonce[o],0,b);
        break;
      case 3:
      case 4:
        check_encipher(p[o],&k[o],m,nonce[o],text,op == 3 ? 5 : 2*b+1,out,NULL);
        used[o]++;
        break;
      case 5:
        check_decipher(p[o],&k[o],m,nonce[o],text+100,2*b,0,NULL);
        used[o]++;
        break;
    }
    for (n=0; n < 2; n++)
      MC_CHECK((int) GetStringInfoLength(GetCipherNonce(p[n])) == b &&
        memcmp(GetStringInfoDatum(GetCipherNonce(p[n])),nonce[n],b) == 0,
        "the nonce of context %d is not the one set",n);
  }
  for (o=0; o < 2; o++)
  {
    check_encipher(p[o],&k[o],m,nonce[o],text,b+3,out,NULL);
    mc_observe_int((((c*10+m)*2+kn[o])*2+nn[o])*100+used[o]);
  }
  if (used[0]+used[1] > 0)
    mc_nontrivial();
}

/* no two positions of a message are enciphered with the same key stream */
static void streams(void)
{
  static const int stream_mode[]={ CFB,CTR,OFB };
  int c=mc_choose(REF_CIPHERS,"cipher"),m=stream_mode[mc_choose(3,"mode")],
    b=ref_cipher_block[c],n=16*b,i,j,kl,zero;
  unsigned char *stream;
  StringInfo *s;
  kl=key_lengths(c,mc_choose(c == REF_CHACHA ? 2 : 3,"key length"));
  zero=mc_choose(2,"nonce");
  mc_note("%s %s, %d-bit key\n",ref_cipher_name[c],mode_name[m],8*kl);
  s=sealed(keys[1],kl);
  SetCipherKey(pool[c][m][0],s);
  unseal(s);
  s=sealed(nonces[0],b);
  SetCipherNonce(pool[c][m][0],s);
  unseal(s);
  if (zero)
    ResetCipherNonce(pool[c][m][0]);
  s=AcquireStringInfo(n);
  ResetStringInfo(s);
  EncipherCipher(pool[c][m][0],s);
  mc_transition();
  stream=GetStringInfoDatum(s);
  for (i=0; i+8 <= n; i+=8)
    for (j=i+8; j+8 <= n; j+=8)
      if (memcmp(stream+i,stream+j,8) == 0)
        {
          if (c == REF_CHACHA && mc_known("chacha-stream"))
            goto done;
          mc_fail("%s in %s mode uses the same key stream at bytes %d and %d",
            ref_cipher_name[c],mode_name[m],i,j);
        }
done:
  DestroyStringInfo(s);
  mc_nontrivial();
  mc_observe_int(-(((c*10+m)*40+kl)*2+zero));
}

static void body(void)
{
  if (mc_choose(2,"histories or key streams") == 0)
    histories();
  else
    streams();
}

static void init(void)
{
  int c,m,i;
  fill(text,sizeof(text),11);
  for (i=0; i < 2; i++)
  {
    fill(keys[i],32,12+i);
    fill(nonces[i],64,14+i);
  }
  for (c=0; c < REF_CIPHERS; c++)
    for (m=0; m < MODES; m++)
      for (i=0; i < 2; i++)
        pool[c][m][i]=AcquireCipherInfo(cipher_type[c],mode_type[m]);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C14", .name="context_seq",
    .rule="every history of 4 (5) calls on two contexts of one cipher and mode, and "
      "the key stream of 16 blocks for every stream mode and key length; "
      "non-trivial when something was enciphered; distinct by setting",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

/*
  Every cipher, mode, key length, nonce and message length.
*/
#include "common.h"
#include "modes.h"

static CipherInfo *context[REF_CIPHERS][MODES];
static unsigned char text[1024],keys[32];

static void body(void)
{
  int c=mc_choose(REF_CIPHERS,"cipher"),m=mc_choose(MODES,"mode"),
    b=ref_cipher_block[c],n,kl,nk,i;
  unsigned char nonce[64],out[512];
  size_t full;
  StringInfo *s,*same;
  ref_key k;
  kl=key_lengths(c,mc_choose(c == REF_CHACHA ? 2 : 3,"key length"));
  nk=mc_choose(4,"nonce");
  n=mc_choose((mc_thorough() ? 5 : 3)*b+2,"message length");
  fill(nonce,64,9);
  if (nk == 0)
    memset(nonce,0,64);
  else if (nk == 1)
    memset(nonce+b-2,0xff,2);
  else if (nk == 2)
    {
      memset(nonce,0xff,64);
      nonce[0]=0xfe;
    }
  mc_note("%s %s, %d-bit key, nonce %d, %d bytes\n",ref_cipher_name[c],
    mode_name[m],8*kl,nk,n);
  MC_CHECK((int) GetCipherBlocksize(context[c][m]) == b,
    "the reported block size is %d instead of %d",
    (int) GetCipherBlocksize(context[c][m]),b);
  ref_set_key(&k,c,keys,kl);
  s=sealed(keys,kl);
  SetCipherKey(context[c][m],s);
  unseal(s);
  s=sealed(nonce,b);
  SetCipherNonce(context[c][m],s);
  unseal(s);
  check_encipher(context[c][m],&k,m,nonce,text,n,out,&same);
  full=padded(m,n,b);
  /* the object enciphered in place deciphers in place */
  same=DecipherCipher(context[c][m],same);
  MC_CHECK((int) GetStringInfoLength(same) == n &&
    memcmp(GetStringInfoDatum(same),text,n) == 0,
    "deciphering in place does not give the message back");
  discard(same,n,m == CFB ? 0 : b-n%b);
  /* what was written out deciphers elsewhere */
  check_decipher(context[c][m],&k,m,nonce,out,full,n,text);
  for (i=0; i < b; i++)
    MC_CHECK(GetStringInfoDatum(GetCipherNonce(context[c][m]))[i] == nonce[i],
      "the context's nonce changed");
  mc_nontrivial();
  mc_observe(out,n);
  mc_observe_int(((c*10+m)*40+kl)*1000+n);
}

static void init(void)
{
  int c,m;
  fill(text,sizeof(text),11);
  fill(keys,32,12);
  for (c=0; c < REF_CIPHERS; c++)
    for (m=0; m < MODES; m++)
      context[c][m]=AcquireCipherInfo(cipher_type[c],mode_type[m]);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C13", .name="mode_seq",
    .rule="every cipher, mode and key length with four nonces and every message "
      "length up to three (five) blocks and one byte; distinct by setting and "
      "ciphertext",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

/*
  Reference algorithms, written from their specifications or taken from the
  system's libcrypto.  No code of the toolkit is used.
*/
#ifndef REF_H
#define REF_H
#include <stddef.h>
#include <stdint.h>

enum { REF_CRC64, REF_MD5, REF_SHA1, REF_SHA224, REF_SHA256, REF_SHA384,
  REF_SHA512, REF_SHA3, REF_SHA3_224, REF_SHA3_256, REF_SHA3_384, REF_SHA3_512,
  REF_HASHES };
enum { REF_AES, REF_CHACHA, REF_SERPENT, REF_TWOFISH, REF_CIPHERS };

extern const char *ref_hash_name[],*ref_cipher_name[];
extern const int ref_digest[],ref_block[],ref_cipher_block[];

typedef struct ref_stream ref_stream;

void ref_hash(int hash,const void *data,size_t length,unsigned char *digest);
void ref_hmac(int hash,int block,const void *key,size_t key_length,
  const void *data,size_t length,unsigned char *digest);
/* incremental, for messages too long for memory */
ref_stream *ref_begin(int hash);
void ref_add(ref_stream *s,const void *data,size_t length);
void ref_end(ref_stream *s,unsigned char *digest);

typedef struct { int cipher,length; unsigned char key[32]; uint32_t w[140];
  unsigned char s[4][256]; } ref_key;

void ref_set_key(ref_key *k,int cipher,const void *key,int length);
void ref_encipher(const ref_key *k,const unsigned char *in,unsigned char *out);
void ref_decipher(const ref_key *k,const unsigned char *in,unsigned char *out);
#endif

/*
  cipher-info describes every file as it was enciphered.
*/
#include "command.h"
#include "ref.h"

extern int cipher_info_main(int,char **);

#define FILES 3

static const char *const ciphers[]={ "AES","Chacha","Serpent","Twofish" },
  *const modes[]={ "CBC","CFB","CTR","ECB","OFB" },
  *const entropies[]={ "None","BZIP","LZMA","ZIP" },
  *const hashes[]={ "SHA2-256","MD5","SHA2-512","SHA3-224" },
  *const bits[]={ "512","128","256" },
  *const shown_hashes[]={ "SHA256","MD5","SHA512","SHA3-224" },
  *const levels[]={ "6","1","4" },
  *const chunks[]={ "262144","1000","48","1024","999" },
  *const shown_chunks[]={ "262KB","1KB","48B","1.02KB","999B" },
  *const names[FILES]={ "/sim/one","/sim/two","/sim/three" };

/* the values a file was enciphered with, in the order they are shown */
typedef struct
{
  int cipher,mode,entropy,hmac,key,bits,level,chunk;
} setting;

static char *output;
static size_t output_length;

static char *text_of(const char *path)
{
  size_t n;
  void *p=sim_get(path,&n);
  return(p == NULL ? NULL : strndup(p,n));
}

/* the text of an element of the header */
static void header(const char *path,const char *tag,char *value)
{
  char *text=text_of(path),name[64],*p,*e;
  snprintf(name,sizeof(name),"<cipher:%s>",tag);
  MC_CHECK(text != NULL && (p=strstr(text,name)) != NULL,"%s has no %s",path,tag);
  p+=strlen(name);
  e=strchr(p,'<');
  MC_CHECK(e != NULL && e-p < 390,"%s has no end of %s",path,tag);
  memcpy(value,p,e-p);
  value[e-p]='\0';
  free(text);
}

static void put_line(char *s,const char *format,const char *value)
{
  sprintf(s+strlen(s),format,value);
}

static const char *expected(const char *path,const setting *s)
{
  static char text[8192];
  char value[400];
  *text='\0';
  put_line(text,"Filename: %s\n  Cipher:\n",path);
  put_line(text,"    type: %s\n",ciphers[s->cipher]);
  put_line(text,"    mode: %s\n",modes[s->mode]);
  header(path,"nonce",value);
  put_line(text,"    nonce: %s\n  Authenticate:\n",value);
  put_line(text,"    method: %s\n  Key:\n","Secret");
  put_line(text,"    hash: %s\n",shown_hashes[s->key]);
  put_line(text,"    length: %s\n",bits[s->bits]);
  header(path,"id",value);
  put_line(text,"    id: %s\n  Entropy Generator:\n",value);
  put_line(text,"    type: %s\n",entropies[s->entropy]);
  put_line(text,"    level: %s\n  Keyed-Hashed Message Authentication Code:\n",levels[s->level]);
  put_line(text,"    hash: %s\n",shown_hashes[s->hmac]);
  return(text);
}

static const char *dates(const char *path,const setting *s)
{
  static char text[2048];
  char value[400];
  *text='\0';
  /* a chunk must not end where a block does in some modes */
  header(path,"chunksize",value);
  MC_CHECK(atoi(value)-atoi(chunks[s->chunk]) >= 0 && atoi(value)-atoi(chunks[s->chunk]) <= 1,"chunks of %s bytes",value);
  put_line(text,"  Chunksize: %s\n  Dates:\n",strcmp(value,"49") == 0 ? "49B" : shown_chunks[s->chunk]);
  header(path,"modify-date",value);
  put_line(text,"    modify: %s\n",value);
  header(path,"create-date",value);
  put_line(text,"    create: %s\n",value);
  header(path,"timestamp",value);
  put_line(text,"    timestamp: %s\n",value);
  return(text);
}

static int show(const char *a,const char *b,const char *c,const char *d,const char *e)
{
  FILE *saved=stdout,*f;
  char *p;
  int status;
  free(output);
  output=NULL;
  f=open_memstream(&output,&output_length);
  stdout=f;
  status=command(cipher_info_main,"cipher-info",a,b,c,d,e,NULL);
  fclose(f);
  stdout=saved;
  /* a hash has two names */
  for (p=output; (p=strstr(p,"SHA2-")) != NULL; )
    memmove(p+3,p+5,strlen(p+5)+1);
  output_length=strlen(output);
  return(status);
}

static void encipher(const char *path,const setting *s)
{
  int status=command(encipher_main,"encipher","-passphrase",PHRASE,"-keyring",RING,"-cipher",ciphers[s->cipher],
    "-mode",modes[s->mode],"-entropy",entropies[s->entropy],"-hmac",hashes[s->hmac],"-key",hashes[s->key],
    "-key-length",bits[s->bits],"-level",levels[s->level],"-chunksize",chunks[s->chunk],PLAIN,path,NULL);
  MC_CHECK(status == 0,"encipher exits with %d",status);
}

/* the descriptions must be there in order, nothing else */
static void described(int n,const int *which,const setting *s)
{
  const char *p=output,*want,*q;
  int i;
  for (i=0; i < n; i++)
  {
    want=expected(names[which[i]],s+which[i]);
    MC_CHECK(strncasecmp(p,want,strlen(want)) == 0,"description %d is not\n%sbut\n%s",i,want,p);
    p+=strlen(want);
    want=dates(names[which[i]],s+which[i]);
    q=strstr(p,"  Chunksize:");
    MC_CHECK(q != NULL && strncmp(q,want,strlen(want)) == 0,"description %d has not\n%sbut\n%s",i,want,p);
    p=q+strlen(want);
    q=strstr(p,"Filename:");
    p=q == NULL ? p+strlen(p) : q;
  }
  MC_CHECK(*p == '\0',"there is more: %s",p);
}

static void one(void)
{
  setting s[FILES];
  int which=0,pick,value;
  memset(s,0,sizeof(s));
  command_reset();
  sim_put(PLAIN,"some text to encipher",21);
  /* two settings differ from the usual ones */
  for (pick=0; pick < 2; pick++)
  {
    int *field[]={ &s[0].cipher,&s[0].mode,&s[0].entropy,&s[0].hmac,&s[0].key,&s[0].bits,&s[0].level,&s[0].chunk };
    static const int many[]={ 4,5,4,4,4,3,3,5 };
    int k=mc_choose(8,"setting");
    value=mc_choose(many[k],"value");
    *field[k]=value;
  }
  encipher(names[0],s);
  MC_CHECK(show(names[0],"","","","") == 0,"a good file is not described");
  described(1,&which,s);
  mc_nontrivial();
  mc_observe(output,output_length);
}

static void several(void)
{
  static const char *const options[][2]={ { "","" },{ "-debug","resource" },{ "-log","%e" } };
  setting s[FILES];
  int i,n,which[FILES],kind[FILES],bad=0,good=0,option,status;
  const char *arg[FILES]={ "","","" };
  memset(s,0,sizeof(s));
  command_reset();
  sim_put(PLAIN,"some text to encipher",21);
  n=1+mc_choose(FILES,"files");
  option=mc_choose(3,"option");
  for (i=0; i < n; i++)
  {
    /* good in three ways, missing, empty, text, damaged header, cut in the header */
    kind[i]=mc_choose(8,"file");
    arg[i]=names[i];
    s[i].cipher=i;
    s[i].mode=kind[i]%3;
    s[i].level=i;
    s[i].chunk=kind[i]%3+1;
    s[i].entropy=(i+kind[i]) % 4;
    if (kind[i] < 3 || kind[i] > 5)
      encipher(names[i],s+i);
    if (kind[i] == 4)
      sim_put(names[i],"",0);
    if (kind[i] == 5)
      sim_put(names[i],"just a text that is no enciphered file\n",39);
    if (kind[i] > 5)
      {
        size_t length;
        char *p=(char *) sim_get(names[i],&length),*copy=strndup(p,length),*q=strstr(copy,"<cipher:level>");
        copy=realloc(copy,length);
        memcpy(copy,p,length);
        q=memmem(copy,length,"<cipher:level>",14);
        MC_CHECK(q != NULL,"there is no header");
        if (kind[i] == 6)
          q[14]^=1;
        sim_put(names[i],copy,kind[i] == 6 ? length : (size_t) (q-copy));
        free(copy);
      }
    if (kind[i] > 2)
      bad=1;
    if (!bad)
      which[good++]=i;
  }
  status=show(options[option][0],options[option][1],arg[0],arg[1],arg[2]);
  MC_CHECK((status != 0) == bad,"%s, but the exit status is %d",bad ? "a file cannot be described" : "all is well",status);
  if (!bad)
    {
      described(n,which,s);
      mc_nontrivial();
    }
  else
    {
      /* those before the first bad one are described */
      const char *p=output;
      for (i=0; i < good; i++)
      {
        const char *want=expected(names[which[i]],s+which[i]);
        p=strcasestr(p,want);
        MC_CHECK(p != NULL,"%s is not described",names[which[i]]);
        p+=strlen(want);
      }
      for (i=0; i < n; i++)
        if (kind[i] > 2)
          {
            char line[64];
            snprintf(line,sizeof(line),"Filename: %s\n",names[i]);
            MC_CHECK(strstr(output,line) == NULL,"%s is described",names[i]);
          }
    }
  mc_observe(output,output_length);
}

/* a changed file is not described, or as before when the change does not touch the description */
static void damaged(void)
{
  static const unsigned char values[]={ '<','>','0','9','"',' ','?','/',0x80,'x' };
  setting s;
  char *before,*base,*copy,*end;
  size_t length,start,at,n;
  int kind=mc_choose(5,"change"),part=mc_choose(16,"part"),k,status;
  memset(&s,0,sizeof(s));
  command_reset();
  sim_put(PLAIN,"some text to encipher",21);
  encipher(names[0],&s);
  MC_CHECK(show(names[0],"","","","") == 0,"a good file is not described");
  before=strdup(output);
  base=(char *) sim_get(names[0],&length);
  copy=malloc(length);
  memcpy(copy,base,length);
  base=copy;
  end=memmem(base,length,"</rdf:RDF>",10);
  MC_CHECK(end != NULL,"there is no header");
  end+=10;
  start=(char *) memmem(base,length,"?>\n",3)+3-base;
  for (at=part; base+at < end; at+=16)
    for (k=0; k < (kind == 0 || kind == 2 ? 10 : 1); k++)
    {
      n=length;
      copy=malloc(length+100);
      memcpy(copy,base,length);
      switch (kind)
      {
        case 0: copy[at]=values[k]; break;
        case 1: memmove(copy+at,copy+at+1,length-at-1); n=length-1; break;
        case 2: memmove(copy+at+1,copy+at,length-at); copy[at]=values[k]; n=length+1; break;
        case 3: n=at; break;
        case 4:
          {
            /* a digest of which only so many digits are there */
            unsigned char digest[32];
            char hex[65],*d=memmem(base,length,"digest=\"",8)+8,*level=memmem(base,length,"<cipher:level>",14)+14;
            size_t i,bytes=atoi((char *) memmem(base,length,"bytes=\"",7)+7);
            if (at >= 64)
              break;
            copy[level-base]='5';
            ref_hash(REF_SHA256,(unsigned char *) copy+start,bytes,digest);
            for (i=0; i < 32; i++)
              snprintf(hex+2*i,3,"%02x",digest[i]);
            memcpy(copy+(d-base),hex,at);
            memmove(copy+(d-base)+at,copy+(d-base)+64,length-(d-base)-64);
            n=length-64+at;
            break;
          }
      }
      if (n != length || memcmp(copy,base,length) != 0)
        {
          sim_put(names[0],copy,n);
          mc_note("change %d at %zu, %d\n",kind,at,k);
          status=show(names[0],"","","","");
          if (status == 0 || strstr(output,"Filename") != NULL)
            MC_CHECK(status == 0 && strcmp(output,before) == 0,"a file changed at %zu is described as\n%swith exit status %d",at,
              output,status);
          else
            mc_nontrivial();
        }
      free(copy);
    }
  free(base);
  free(before);
}

static void body(void)
{
  switch (mc_choose(3,"part"))
  {
    case 0: one(); break;
    case 1: several(); break;
    case 2: damaged(); break;
  }
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C54", .name="cipher_info",
    .rule="every pair of settings of a file, and every 1-3 files that are good, missing, empty, no enciphered file, changed "
      "or cut, and every change of a byte, cut and shortened digest of one file; non-trivial when a good file was described",
    .init=command_init, .body=body, .time_cap=420
  };
  return(mc_main(argc,argv,&h));
}

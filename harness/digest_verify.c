/*
  Digest lists: what the command lists and what it finds when it verifies.
*/
#include "command.h"
#include "ref.h"

#define LIST "/sim/list"
#define REPORT "/sim/report"

static const struct { const char *name; int ref; } hashes[]=
{
  { "CRC64",REF_CRC64 },{ "MD5",REF_MD5 },{ "SHA1",REF_SHA1 },{ "SHA2-224",REF_SHA224 },
  { "SHA2-256",REF_SHA256 },{ "SHA2-384",REF_SHA384 },{ "SHA2-512",REF_SHA512 },
  { "SHA3-224",REF_SHA3_224 },{ "SHA3-256",REF_SHA3_256 },{ "SHA3-384",REF_SHA3_384 },
  { "SHA3-512",REF_SHA3_512 },{ "SHA2",REF_SHA256 },{ "SHA3",REF_SHA3 },{ "SHA256",REF_SHA256 },
  { "",REF_SHA256 }
};
#define HASHES ((int) (sizeof(hashes)/sizeof(*hashes)))

static unsigned char content[3*8192+2];

static char *text(const char *path)
{
  size_t n=0;
  unsigned char *p=sim_get(path,&n);
  static char *copy[4];
  static int next;
  char *q=malloc(n+1);
  free(copy[next]);
  copy[next]=q;
  next=(next+1) % 4;
  if (n)
    memcpy(q,p,n);
  q[n]='\0';
  return(q);
}

static int make(int hash,const char *a,const char *b,const char *c)
{
  return(command(digest_main,"digest",*hashes[hash].name ? "-hash" : "",hashes[hash].name,a,b,c,LIST,NULL));
}

static int verify(void)
{
  sim_put(REPORT,"old report\n",11);
  return(command(digest_main,"digest","-authenticate",LIST,REPORT,NULL));
}

/* the path is reported with its present digest */
static int reported(const char *path)
{
  char line[256];
  snprintf(line,sizeof(line),"Path: %s\n",path);
  return(strstr(text(REPORT),line) != NULL);
}

static int quiet(void)
{
  return(*text(REPORT) == '\0');
}

static void listed(int hash,const void *data,size_t n)
{
  unsigned char digest[64];
  char hex[129];
  int i;
  ref_hash(hashes[hash].ref,data,n,digest);
  for (i=0; i < ref_digest[hashes[hash].ref]; i++)
    snprintf(hex+2*i,3,"%02x",digest[i]);
  MC_CHECK(strcasestr(text(LIST),hex) != NULL,"the digest of the file is not listed:\n%s",text(LIST));
}

/* sizes around the block and buffer boundaries, and a change of the first,
   last or a boundary byte */
static void sizes(void)
{
  static const int around[]={ 0,1,55,63,64,65,111,112,127,128,129,143,144,8191,8192,8193,16383,16384,16385,
    24575,24576,24577 };
  int hash=mc_choose(HASHES,"hash"),n=mc_thorough() ? 22 : 19,size=around[mc_choose(n,"size")],change,at;
  sim_put(PLAIN,content,size);
  MC_CHECK(make(hash,PLAIN,"","") == 0,"no digest of %d bytes with %s",size,hashes[hash].name);
  listed(hash,content,size);
  MC_CHECK(verify() == 0 && quiet(),"the unchanged file of %d bytes is reported: %s",size,text(REPORT));
  for (change=0; change < 6; change++)
  {
    at=change == 0 ? 0 : change == 1 ? size-1 : change == 2 ? 8191 : 8192;
    if (change < 4)
      {
        if (at < 0 || at >= size)
          continue;
        content[at]^=1;
        sim_put(PLAIN,content,size);
        content[at]^=1;
      }
    else
      if (change == 4)
        {
          if (size == 0)
            continue;
          sim_put(PLAIN,content,size-1);
        }
      else
        sim_put(PLAIN,content,size+1);
    MC_CHECK(verify() == 0 && reported(PLAIN),"change %d of %d bytes with %s goes unnoticed",change,size,
      hashes[hash].name);
    mc_count(0,1);
  }
  mc_nontrivial();
  mc_observe(text(LIST),strlen(text(LIST)));
}

/* every change of one byte, every cut, insertion and exchange of a small file */
static void changes(void)
{
  enum { SIZE=12 };
  int hash=mc_choose(HASHES-4,"hash"),at=mc_choose(SIZE,"at"),c,n=mc_thorough() ? 256 : 9;
  unsigned char data[SIZE+1];
  sim_put(PLAIN,content,SIZE);
  MC_CHECK(make(hash,PLAIN,"","") == 0,"no digest");
  for (c=1; c < n; c++)
  {
    memcpy(data,content,SIZE);
    data[at]^=n == 256 ? c : 1 << (c-1);
    sim_put(PLAIN,data,SIZE);
    MC_CHECK(verify() == 0 && reported(PLAIN),"a change of byte %d goes unnoticed",at);
  }
  sim_put(PLAIN,content,at);
  MC_CHECK(verify() == 0 && reported(PLAIN),"a file cut to %d bytes goes unnoticed",at);
  memcpy(data,content,SIZE);
  memmove(data+at+1,data+at,SIZE-at);
  sim_put(PLAIN,data,SIZE+1);
  MC_CHECK(verify() == 0 && reported(PLAIN),"an insertion at byte %d goes unnoticed",at);
  if (at)
    {
      memcpy(data,content,SIZE);
      c=data[at], data[at]=data[at-1], data[at-1]=c;
      sim_put(PLAIN,data,SIZE);
      MC_CHECK(verify() == 0 && reported(PLAIN),"an exchange at byte %d goes unnoticed",at);
    }
  sim_put(PLAIN,content,SIZE);
  MC_CHECK(verify() == 0 && quiet(),"the unchanged file is reported");
  mc_nontrivial();
  mc_observe_int(hash*SIZE+at);
}

/* three files, each unchanged, changed, missing or emptied */
static void several(void)
{
  static const char *const path[3]={ "/sim/a","/sim/b","/sim/c" };
  static const unsigned char other[4]="othe";
  int state[3],i,hash=mc_choose(2,"hash")*4,missing=0,status,lists=mc_choose(2,"lists");
  for (i=0; i < 3; i++)
    sim_put(path[i],content+i,4+i);
  if (lists)
    {
      /* two lists verified by one command */
      MC_CHECK(command(digest_main,"digest","-hash",hashes[hash].name,path[0],"/sim/list2",NULL) == 0,"no list");
      MC_CHECK(make(hash,path[1],path[2],"") == 0,"no list");
    }
  else
    MC_CHECK(make(hash,path[0],path[1],path[2]) == 0,"no list");
  for (i=0; i < 3; i++)
  {
    state[i]=mc_choose(4,"state");
    if (state[i] == 1)
      sim_put(path[i],other,4);
    if (state[i] == 2)
      {
        sim_remove(path[i]);
        missing=1;
      }
    if (state[i] == 3)
      sim_put(path[i],"",0);
  }
  sim_put(REPORT,"old report\n",11);
  status=lists ? command(digest_main,"digest","-authenticate","/sim/list2",LIST,REPORT,NULL) :
    command(digest_main,"digest","-authenticate",LIST,REPORT,NULL);
  MC_CHECK(missing ? status != 0 : status == 0,missing ? "a missing file is not reported" :
    "the command fails though every file can be verified");
  for (i=0; i < 3; i++)
    if (state[i] != 2)
      MC_CHECK(reported(path[i]) == (state[i] != 0),state[i] ? "the changed file %s is not reported" :
        "the unchanged file %s is reported",path[i]);
  mc_nontrivial();
  mc_observe_int(((state[0]*4+state[1])*4+state[2])*4+hash+lists);
}

/* names of files */
static void names(void)
{
  static const char *const letter[]={ "a"," ","&","<",">","\"","'",";","#","x","%","=","/",".","\\","\303\251",
    "\342\202\254" };
  char path[32]="/sim/n",name[32]="";
  int n=mc_choose(mc_thorough() ? 4 : 3,"length")+1,i;
  for (i=0; i < n; i++)
    strcat(name,letter[mc_choose(sizeof(letter)/sizeof(*letter),"letter")]);
  if (strstr(name,"/.") != NULL || strstr(name,"//") != NULL)
    mc_skip();
  strcat(path,name);
  strcat(path,"e");
  sim_put(path,content,20);
  MC_CHECK(make(4,path,"","") == 0,"no digest of a file named \"%s\"",path);
  MC_CHECK(verify() == 0 && quiet(),"the unchanged file \"%s\" is reported:\n%s%s",path,text(REPORT),text(LIST));
  sim_put(path,content,19);
  MC_CHECK(verify() == 0 && reported(path),"the changed file \"%s\" is not reported",path);
  sim_remove(path);
  MC_CHECK(verify() != 0,"the missing file \"%s\" is not reported",path);
  mc_nontrivial();
  mc_observe(path,strlen(path));
}

/* a damaged list never lets a changed file pass */
static void damage(void)
{
  int kind=mc_choose(4,"damage"),changed,c,n,status,hash=mc_choose(2,"hash") ? 0 : 4;
  size_t size=0,at;
  unsigned char *list,*copy;
  sim_put(PLAIN,content,20);
  MC_CHECK(make(hash,PLAIN,"","") == 0,"no digest");
  list=sim_get(LIST,&size);
  copy=malloc(size+1);
  memcpy(copy,list,size);
  at=mc_choose(size,"at");
  n=kind == 0 ? 255 : kind == 1 ? 6 : 1;
  for (changed=1; changed >= 0; changed--)
  {
    sim_put(PLAIN,content,changed ? 19 : 20);
    for (c=1; c <= n; c++)
    {
      static const char insert[]="<>/\"& ";
      unsigned char *damaged=malloc(size+1);
      size_t m=size;
      memcpy(damaged,copy,size);
      if (kind == 0)
        {
          if (!mc_thorough() && (c & (c-1)) != 0 && strchr("<>/\"& !?-",damaged[at]^c) == NULL)
            {
              free(damaged);
              continue;
            }
          damaged[at]^=c;
        }
      if (kind == 1)
        {
          memmove(damaged+at+1,damaged+at,size-at);
          damaged[at]=insert[c-1];
          m=size+1;
        }
      if (kind == 2)
        {
          memmove(damaged+at,damaged+at+1,size-at-1);
          m=size-1;
        }
      if (kind == 3)
        m=at;
      sim_put(LIST,damaged,m);
      free(damaged);
      status=verify();
      if (changed)
        MC_CHECK(status != 0 || !quiet(),"the list%s byte %zu (by %d) hides a changed file:\n%s",kind == 0 ?
          " changed at" : kind == 1 ? " with an insertion at" : kind == 2 ? " without" : " cut before",at,c,
          text(LIST));
      if (kind == 3 && at+1 < size)
        MC_CHECK(status != 0,"the list cut before byte %zu is accepted",at);
      mc_count(1,1);
    }
  }
  free(copy);
  mc_nontrivial();
  mc_observe_int(at*4+kind);
}

/* lists that cannot be read */
static void unusable(void)
{
  int which=mc_choose(6,"list"),status;
  sim_put(PLAIN,content,20);
  sim_put(LIST,content,0);
  switch (which)
  {
    case 0: sim_remove(LIST); break;
    case 1: break;
    case 2: sim_put(LIST,"\n",1); break;
    case 3: sim_put(LIST,content,5000); break;
    case 4: break;
    case 5: break;
  }
  if (which == 4)
    status=command(digest_main,"digest","-authenticate",REPORT,NULL);
  else
    if (which == 5)
      {
        sim_remove(PLAIN);
        status=make(4,PLAIN,"","");
      }
    else
      status=verify();
  MC_CHECK(status != 0,"case %d is not reported",which);
  mc_observe_int(which);
}

static void body(void)
{
  command_reset();
  switch (mc_choose(6,"part"))
  {
    case 0: sizes(); break;
    case 1: changes(); break;
    case 2: several(); break;
    case 3: names(); break;
    case 4: damage(); break;
    case 5: unusable(); break;
  }
}

static void init(void)
{
  size_t i;
  for (i=0; i < sizeof(content); i++)
    content[i]=(unsigned char) ((i*167+i/256*13+5) & 0xff);
  command_init();
  mc_counter_name(0,"changed files verified");
  mc_counter_name(1,"damaged lists verified");
}

int main(int argc,char **argv)
{
  mc_harness h={ .property="C37",.name="digest_verify",.init=init,.body=body,.watchdog=60,
    .rule="A file is reported if and only if its bytes changed; a damaged list is never silent." };
  return(mc_main(argc,argv,&h));
}

/*
  The keyring command: every small state of the default keyring and two named
  ones, listed and exported in every way.
*/
#include "command.h"
#undef RING
#include "ring.h"

extern int keyring_main(int,char **);

#define RINGS 3
#define HOME_RING 0
#define OUT "/sim/out"

static const char *const path[RINGS]={ "/sim/home/keyring.xdm","/sim/a.xdm","/sim/b<&.xdm" };

/* contents of a keyring: identifiers in order, each with the key of the same place */
#define CONTENTS 7
static const struct { int n,id[3],key[3]; } contents[CONTENTS]=
{
  { 0 }, { 1,{ 0 },{ 0 } }, { 1,{ 1 },{ 1 } }, { 2,{ 0,1 },{ 1,0 } }, { 2,{ 1,0 },{ 2,1 } },
  { 3,{ 3,4,0 },{ 0,1,2 } }, { -1 }
};

static int holds[RINGS];
static unsigned char *before[RINGS];
static size_t before_n[RINGS];

static char *hex_of(const char *p,int n)
{
  static char buffer[4][400];
  static int turn;
  char *q=buffer[turn=(turn+1)%4];
  int i;
  *q='\0';
  for (i=0; i < n; i++)
    sprintf(q+2*i,"%02x",(unsigned char) p[i]);
  return(q);
}

static int in_ring(int ring,int id)
{
  int i;
  for (i=0; i < contents[holds[ring]].n; i++)
    if (contents[holds[ring]].id[i] == id)
      return(contents[holds[ring]].key[i]);
  return(-1);
}

static void prepare(int ring,int what)
{
  int i;
  size_t n;
  void *p;
  holds[ring]=what;
  if (contents[what].n < 0)
    sim_put(path[ring],"this is not a keyring, it is a text of some length",50);
  ring_path=path[ring];
  for (i=0; i < contents[what].n; i++)
    MC_CHECK(ring_import(contents[what].id[i],contents[what].key[i]),"a key could not be stored to begin with");
  p=sim_get(path[ring],&n);
  free(before[ring]);
  before[ring]=NULL;
  if (p != NULL)
    {
      before[ring]=malloc(n+1);
      memcpy(before[ring],p,n);
      before_n[ring]=n;
    }
}

static void unchanged(void)
{
  int r;
  size_t n;
  void *p;
  for (r=0; r < RINGS; r++)
  {
    p=sim_get(path[r],&n);
    if (before[r] == NULL)
      MC_CHECK(p == NULL || n == 0,"%s did not exist and was written",path[r]);
    else
      MC_CHECK(p != NULL && n == before_n[r] && memcmp(p,before[r],n) == 0,"%s was changed",path[r]);
  }
}

/* the text between two strings behind *p, which moves on */
static int between(char **p,const char *from,const char *to,char *text)
{
  char *q=strstr(*p,from),*e;
  if (q == NULL)
    return(0);
  q+=strlen(from);
  e=strstr(q,to);
  if (e == NULL || e-q > 390)
    return(0);
  memcpy(text,q,e-q);
  text[e-q]='\0';
  *p=e;
  return(1);
}

static const char *escaped(const char *name)
{
  return(strchr(name,'<') != NULL ? "/sim/b&lt;&amp;.xdm" : name);
}

static void listing(int n,const int *ring)
{
  char *p,*all,text[400];
  size_t length;
  int i,j;
  p=(char *) sim_get(OUT,&length);
  MC_CHECK(p != NULL,"no listing was written");
  all=p=strndup(p,length);
  MC_CHECK(strncmp(p,"<?xml version=\"1.0\"?>\n",22) == 0,"the listing is not XML");
  for (i=0; i < n; i++)
  {
    if (before[ring[i]] == NULL)
      continue;
    MC_CHECK(between(&p,"<keyring:Keyring rdf:about=\"","\"",text) && strcmp(text,escaped(path[ring[i]])) == 0,
      "keyring %d of the listing should be %s: %s",i,path[ring[i]],all);
    for (j=0; j < contents[holds[ring[i]]].n; j++)
    {
      int id=contents[holds[ring[i]]].id[j],key=contents[holds[ring[i]]].key[j];
      MC_CHECK(between(&p,"<keyring:Key rdf:about=\"","\"",text) && strcasecmp(text,hex_of(ids[id].p,ids[id].n)) == 0,
        "key %d of %s should be %s: %s",j,path[ring[i]],hex_of(ids[id].p,ids[id].n),all);
      MC_CHECK(between(&p,"<keyring:memberOf rdf:resource=\"","\"",text) && strcmp(text,escaped(path[ring[i]])) == 0,
        "key %d of %s is listed as a member of %s",j,path[ring[i]],text);
      MC_CHECK(between(&p,"<keyring:nonce>","<",text) && strcasecmp(text,hex_of(keys[key].nonce,keys[key].m)) == 0,
        "key %d of %s has another nonce: %s",j,path[ring[i]],text);
    }
  }
  MC_CHECK(strstr(p,"rdf:about=") == NULL,"more keys are listed than there are: %s",p);
  MC_CHECK(strstr(p,"</rdf:RDF>\n") != NULL,"the listing has no end: %s",p);
  for (i=0; i < KEYS; i++)
    if (keys[i].n > 4)
      {
        char *h=hex_of(keys[i].key,keys[i].n);
        MC_CHECK(strcasestr(all,h) == NULL,"key material is listed");
        MC_CHECK(memmem(all,length,keys[i].key,keys[i].n) == NULL,"key material is listed");
      }
  mc_observe(all,strlen(all));
  free(all);
}

static void body(void)
{
  static const char *const before_option[]={ "","-debug","-log" },*const option_value[]={ "","configure","%e" };
  const char *arg[3]={ NULL,NULL,NULL };
  int named[3],n,export,option,i,id,status,out,want,bad,from,corrupt;
  command_reset();
  sim_remove(OUT);
  for (i=0; i < RINGS; i++)
    prepare(i,mc_choose(i == 2 && !mc_thorough() ? 4 : CONTENTS,"contents"));
  /* none, A, B, A B, B A, the default one by its name, A twice */
  switch (mc_choose(7,"keyrings named"))
  {
    case 0: n=0; break;
    case 1: n=1; named[0]=1; break;
    case 2: n=1; named[0]=2; break;
    case 3: n=2; named[0]=1; named[1]=2; break;
    case 4: n=2; named[0]=2; named[1]=1; break;
    case 5: n=1; named[0]=0; break;
    default: n=2; named[0]=named[1]=1; break;
  }
  for (i=0; i < n; i++)
    arg[i]=path[named[i]];
  export=mc_choose(2,"list or export");
  option=n == 0 && !export ? 0 : mc_choose(3,"option");
  if (n == 0)
    {
      n=1;
      named[0]=HOME_RING;
    }
  bad=from=-1;
  for (i=0; i < n; i++)
    if (before[named[i]] == NULL || contents[holds[named[i]]].n < 0)
      bad=i;
  mc_note("default holds %d, A %d, B %d\n",holds[0],holds[1],holds[2]);
  if (!export)
    {
      status=command(keyring_main,"keyring",before_option[option],option_value[option],arg[0] ? arg[0] : OUT,
        arg[0] ? (arg[1] ? arg[1] : OUT) : NULL,arg[1] ? OUT : NULL,NULL);
      unchanged();
      for (corrupt=i=0; i < n; i++)
        corrupt|=contents[holds[named[i]]].n < 0;
      if (corrupt)
        MC_CHECK(status != 0,"a listing of a file that is no keyring succeeded");
      else
        {
          MC_CHECK(bad >= 0 || status == 0,"a listing of good keyrings failed");
          listing(n,named);
          mc_nontrivial();
        }
      mc_observe_int(status);
      return;
    }
  /* export */
  id=mc_choose(3,"identifier");
  id=id == 2 ? 4 : id;
  out=mc_choose(3,"output holds");      /* nothing, another key, the same identifier */
  ring_path=OUT;
  if (out != 0)
    MC_CHECK(ring_import(out == 1 ? 3 : id,2),"a key could not be stored to begin with");
  for (i=n-1; i >= 0; i--)
    if (in_ring(named[i],id) >= 0)
      from=named[i];
  want=from < 0 ? -1 : in_ring(from,id);
  status=command(keyring_main,"keyring",before_option[option],option_value[option],"-export",hex_of(ids[id].p,ids[id].n),
    arg[0] ? arg[0] : OUT,arg[0] ? (arg[1] ? arg[1] : OUT) : NULL,arg[1] ? OUT : NULL,NULL);
  unchanged();
  ring_path=OUT;
  if (want < 0)
    {
      MC_CHECK(status != 0,"a key that no keyring has was exported");
      MC_CHECK(ring_export(id) == (out == 2 ? 2 : -1),"the output has a key that no keyring has");
    }
  else
    if (out == 2)
      {
        int is=ring_export(id);
        MC_CHECK(is == 2 || is == want,"the output lost its key");
        MC_CHECK(is == want || status != 0,"an export that stored nothing succeeded");
      }
    else
      {
        int is=ring_export(id);
        MC_CHECK(is == want,"the exported key is %d, not %d (status %d)",is,want,status);
        MC_CHECK(bad >= 0 || status == 0,"an export that stored the key failed");
        mc_nontrivial();
      }
  if (out == 1)
    MC_CHECK(ring_export(3) == 2,"the output lost a key");
  mc_observe_int(status*16+want+1);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C53", .name="keyring_cmd",
    .rule="every state of the default keyring and two named ones (missing, no keyring, 1-3 keys) and the output, listed "
      "or exported with none, one or two of them named and with other options; non-trivial when keys were listed or stored",
    .init=command_init, .body=body, .time_cap=420
  };
  return(mc_main(argc,argv,&h));
}

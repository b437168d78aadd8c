/*
  Secret keys: generated and authenticated with passphrases that differ in
  every interesting way.
*/
#include "ring.h"

#define PHRASES 9

static struct { const char *p; int n; } phrases[PHRASES]=
{
  { "secret",6 }, { "secret ",7 }, { "secres",6 }, { "secret\n",7 }, { "",0 }, { "Secret",6 },
  { "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789"
    "abcdef0123456789abcdef0123456789abcdef",128 },
  { "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789"
    "abcdef0123456789abcdef0123456789abcdeg",128 },
  { "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789"
    "abcdef0123456789abcdef0123456789abcdef0123456789",138 }
};

typedef struct
{
  StringInfo *id,*key;
  int phrase;
} secret;

static secret made[8];
static int count;

static void offer(AuthenticateInfo *s,int phrase)
{
  char path[40];
  sprintf(path,"/sim/phrase%d",phrase);
  SetAuthenticatePassphrase(s,path);
}

static int generate(AuthenticateInfo *s,int phrase,int bits)
{
  ExceptionInfo *exception=AcquireExceptionInfo();
  int status;
  offer(s,phrase);
  SetAuthenticateKeyLength(s,bits);
  status=GenerateAuthenticateKey(s,exception);
  DestroyExceptionInfo(exception);
  if (status == WizardFalse)
    return(0);
  MC_CHECK(GetAuthenticateId(s) && GetAuthenticateKey(s),"no identifier or key was made");
  MC_CHECK((int) GetStringInfoLength(GetAuthenticateKey(s)) == bits/8,"the key has %zu bytes",
    GetStringInfoLength(GetAuthenticateKey(s)));
  made[count]=(secret) { CloneStringInfo(GetAuthenticateId(s)),CloneStringInfo(GetAuthenticateKey(s)),phrase };
  for (int i=0; i < count; i++)
  {
    MC_CHECK(CompareStringInfo(made[i].id,made[count].id) != 0,"an identifier was used twice");
    MC_CHECK(CompareStringInfo(made[i].key,made[count].key) != 0,"a key was made twice");
  }
  count++;
  return(1);
}

static void authenticate(AuthenticateInfo *s,int which,int damage,int phrase)
{
  ExceptionInfo *exception=AcquireExceptionInfo();
  StringInfo *id=CloneStringInfo(made[which].id);
  const StringInfo *key;
  int status,want=!damage && phrase == made[which].phrase,i;
  if (damage)
    GetStringInfoDatum(id)[damage == 1 ? 0 : GetStringInfoLength(id)-1]^=1;
  offer(s,phrase);
  SetAuthenticateId(s,id);
  DestroyStringInfo(id);
  status=AuthenticateKey(s,exception) != WizardFalse;
  mc_transition();
  key=GetAuthenticateKey(s);
  MC_CHECK(status == want,"authenticating key %d with passphrase %d%s %s",which,phrase,
    damage ? " and a changed identifier" : "",status ? "succeeds" : "fails");
  if (want)
    MC_CHECK(key && CompareStringInfo(key,made[which].key) == 0,"the wrong key is released");
  else
    for (i=0; i < count; i++)
      MC_CHECK(!key || CompareStringInfo(key,made[i].key) != 0,
        "a failed attempt yields the key");
  DestroyExceptionInfo(exception);
}

/* one operation on the keyring fails or is cut short while a key is stored */
static void hook(const sim_call *call,sim_answer *answer)
{
  int transfer=call->op == SIM_READ || call->op == SIM_WRITE;
  if (strncmp(call->path,ring_file,strlen(ring_file)) != 0 || call->op == SIM_SLEEP)
    return;
  switch (mc_deviate(transfer ? 4 : 3,sim_op_name[call->op]))
  {
    case 1: answer->error=EIO; break;
    case 2: answer->error=ENOSPC; break;
    case 3: answer->limit=(call->size+1)/2; break;
  }
}

static void body(void)
{
  static const int bits[]={ 256,128,8,2048 };
  static const HashType hashes[]={ SHA2256Hash,MD5Hash,SHA3512Hash };
  int i,k,op,depth=mc_thorough() ? 5 : 4,hash=mc_choose(mc_thorough() ? 3 : 2,"hash"),
    length=mc_choose(mc_thorough() ? 4 : 2,"key length"),same_object;
  AuthenticateInfo *s,*t;
  sim_reset();
  count=0;
  for (i=0; i < PHRASES; i++)
  {
    char path[40];
    sprintf(path,"/sim/phrase%d",i);
    sim_put(path,phrases[i].p,phrases[i].n);
  }
  sim_put("/sim/home/x","",0);
  ring_path=ring_file;
  s=AcquireAuthenticateInfo(SecretAuthenticateMethod,ring_file,hashes[hash]);
  op=mc_choose(3,"which exploration");
  if (op == 2)
    {
      /* the store fails somewhere: success must mean a key that can be had */
      int stored;
      MC_CHECK(generate(s,0,bits[length]),"no key could be made");
      mc_budget(mc_thorough() ? 2 : 1);
      sim_hook=hook;
      stored=generate(s,2,bits[length]);
      sim_hook=NULL;
      mc_note("reported as %s\n",stored ? "stored" : "failed");
      t=AcquireAuthenticateInfo(SecretAuthenticateMethod,ring_file,hashes[hash]);
      for (i=0; i < count; i++)
      {
        authenticate(t,i,0,made[i].phrase);
        authenticate(t,i,0,3);
      }
      DestroyAuthenticateInfo(t);
      if (mc_deviations())
        mc_count(0,1);
    }
  else if (op == 0)
    {
      /* every passphrase against every other, through fresh objects */
      i=mc_choose(PHRASES,"made with");
      mc_note("made with passphrase %d\n",i);
      if (generate(s,i,bits[length]))
        for (k=0; k < PHRASES; k++)
        {
          t=AcquireAuthenticateInfo(SecretAuthenticateMethod,ring_file,hashes[hash]);
          mc_note("authenticate with %d\n",k);
          authenticate(t,0,0,k);
          authenticate(t,0,1,k);
          authenticate(t,0,2,k);
          authenticate(t,0,0,i);
          DestroyAuthenticateInfo(t);
        }
      else
        MC_CHECK(phrases[i].n == 0,"no key could be made");
    }
  else
    {
      /* histories on one object, or a fresh one for each call */
      same_object=mc_choose(2,"fresh objects") == 0;
      MC_CHECK(generate(s,0,bits[length]),"no key could be made");
      for (i=0; i < depth; i++)
      {
        if (!same_object)
          {
            DestroyAuthenticateInfo(s);
            s=AcquireAuthenticateInfo(SecretAuthenticateMethod,ring_file,hashes[hash]);
          }
        op=mc_choose(6,"call");
        mc_note("call %d\n",op);
        if (op == 0)
          MC_CHECK(generate(s,i == 1 ? 0 : 2,bits[length]),"no key could be made");
        else
          if (op < 5)
            authenticate(s,count-1,0,op == 1 ? made[count-1].phrase : op == 2 ? 3 : op == 3 ? 0 :
              2);
          else
            authenticate(s,0,1,0);
      }
      for (i=0; i < count; i++)
      {
        authenticate(s,i,0,made[i].phrase);
        authenticate(s,i,0,5);
      }
    }
  DestroyAuthenticateInfo(s);
  mc_nontrivial();
  for (i=0; i < count; i++)
  {
    mc_observe(GetStringInfoDatum(made[i].id),GetStringInfoLength(made[i].id));
    DestroyStringInfo(made[i].id);
    DestroyStringInfo(made[i].key);
  }
}

static void init(void)
{
  mc_counter_name(0,"stores with a failed call");
  setenv("WIZARD_HOME","/sim/home",1);
  sim_reset();
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C22", .name="secret_seq",
    .rule="every pair of nine passphrases (prefixes, blank, newline, case, longer than a hash "
      "block) with right and changed identifiers; every history of 4 (thorough: 5) calls on one or fresh objects; every failed call while a key is stored",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

/*
  Path decomposition of every short path and of long paths.
*/
#include "common.h"
#include <sys/stat.h>

static int is_directory(const char *p,size_t n)
{
  char name[WizardPathExtent];
  struct stat s;
  if (n >= sizeof(name))
    return(0);
  memcpy(name,p,n);
  name[n]='\0';
  return(stat(name,&s) == 0 && S_ISDIR(s.st_mode));
}

static int exists(const char *p)
{
  struct stat s;
  return(*p && stat(p,&s) == 0);
}

/* the parts of a path by their definitions */
static void ref_part(const char *path,PathType type,char *out)
{
  char whole[WizardPathExtent],sub[WizardPathExtent],drive[WizardPathExtent],*p,*last;
  size_t n;
  snprintf(whole,sizeof(whole),"%s",path);
  *sub=*drive=*out='\0';
  if (*path == '\0')
    return;
  p=strchr(whole,':');
  if (p && !exists(path) && is_directory(whole,p-whole))
    {
      *p='\0';
      strcpy(drive,whole);
      memmove(whole,p+1,strlen(p+1)+1);
    }
  n=strlen(whole);
  if (n && whole[n-1] == ']' && (p=strrchr(whole,'[')))
    {
      whole[n-1]='\0';
      strcpy(sub,p+1);
      *p='\0';
    }
  last=strrchr(whole,'/');
  switch (type)
  {
    case FilesystemPath: strcpy(out,drive); return;
    case SubnodePath: strcpy(out,sub); return;
    case HeadPath:
      if (last)
        sprintf(out,"%.*s",(int) (last-whole),whole);
      return;
    case TailPath: strcpy(out,last ? last+1 : whole); return;
    case RootPath:
      p=strrchr(last ? last : whole,'.');
      strcpy(out,whole);
      if (p)
        out[p-whole]='\0';
      return;
    case BasePath:
      strcpy(out,last ? last+1 : whole);
      p=strrchr(out,'.');
      if (p && p != out)
        *p='\0';
      return;
    case ExtensionPath:
      last=last ? last+1 : whole;
      p=strrchr(last,'.');
      if (p && p != last)
        strcpy(out,p+1);
      if ((p=strchr(out,'?')))
        *p='\0';
      return;
    default: strcpy(out,whole); return;
  }
}

static void one(const char *text)
{
  static const PathType types[]={ FilesystemPath,RootPath,HeadPath,TailPath,BasePath,
    ExtensionPath,SubnodePath,CanonicalPath };
  static const char *names[]={ "filesystem","root","head","tail","base","extension",
    "sub-node","canonical form" };
  size_t n=strlen(text),count=77,i;
  char *path=memcpy(malloc(n+1),text,n+1),*part=malloc(WizardPathExtent),
    want[WizardPathExtent],**list,*at;
  for (i=0; i < 8; i++)
  {
    memset(part,'~',WizardPathExtent);
    GetPathComponent(path,types[i],part);
    mc_transition();
    ref_part(text,types[i],want);
    MC_CHECK(memchr(part,'\0',WizardPathExtent) && strcmp(part,want) == 0,
      "the %s of \"%.60s\" is \"%.60s\" instead of \"%.60s\"",names[i],text,part,want);
    MC_CHECK(strcmp(path,text) == 0,"the path was changed");
  }
  if (n < WizardPathExtent)
    {
      /* taking the head in place, as often as wanted */
      strcpy(part,text);
      ChopPathComponents(part,1);
      ref_part(text,HeadPath,want);
      MC_CHECK(strcmp(part,want) == 0,"chopping \"%.60s\" gives \"%.60s\"",text,part);
      if (*text && n+8 < WizardPathExtent)
        {
          strcpy(part,text);
          AppendFileExtension("ext",part);
          ref_part(text,RootPath,want);
          strcat(want,".ext");
          MC_CHECK(strcmp(part,want) == 0,"replacing the extension of \"%.60s\" gives "
            "\"%.60s\"",text,part);
        }
    }
  list=GetPathComponents(path,&count);
  MC_CHECK(list,"no components");
  at=path;
  for (i=0; i < count; i++)
  {
    size_t k=strcspn(at,"/");
    MC_CHECK(list[i] && strlen(list[i]) == k && strncmp(list[i],at,k) == 0,
      "component %zu of \"%.60s\" is \"%.60s\"",i,text,list[i]);
    at+=k;
    if (*at)
      at++;
  }
  MC_CHECK(list[count] == NULL && *at == '\0',"\"%.60s\" has not %zu components",
    text,count);
  for (i=0, at=path; *at; at++)
    i+=*at == '/';
  MC_CHECK(count == i+1,"\"%.60s\" has not %zu components",text,count);
  DestroyStringList(list);
  free(path);
  free(part);
}

static void body(void)
{
  static const char letters[]="ad/.:[]?";
  char text[2*WizardPathExtent];
  int k=sizeof(letters)-1,n,i,a,b;
  if (mc_choose(2,"kind") == 0)
    {
      n=mc_choose(mc_thorough() ? 8 : 7,"length");
      for (i=0; i < n-2; i++)
        text[i]=letters[mc_choose(k,"letter")];
      text[n]='\0';
      mc_note("paths starting \"%.*s\"\n",n < 2 ? 0 : n-2,text);
      mc_observe(text,n < 2 ? 0 : n-2);
      mc_observe_int(n);
      if (n == 0)
        one(text);
      else
        for (a=0; a < k; a++)
          for (b=0; b < (n == 1 ? 1 : k); b++)
          {
            text[n-1]=letters[a];
            if (n > 1)
              text[n-2]=letters[b];
            one(text);
          }
    }
  else
    {
      /* lengths around the path limit with a special character at either side */
      n=WizardPathExtent-4+mc_choose(8,"length");
      memset(text,'a',n);
      text[n]='\0';
      a=mc_choose(4,"first special position");
      text[a == 0 ? 0 : a == 1 ? n/2 : n-a]=letters[2+mc_choose(k-2,"special")];
      b=mc_choose(4,"second special position");
      text[b == 0 ? 1 : b == 1 ? n/2+1 : n-3-b]=letters[2+mc_choose(k-2,"special")];
      if (mc_choose(2,"filesystem"))
        memcpy(text,"d:",2);
      mc_observe_int(n);
      mc_observe(text,n);
      one(text);
    }
  mc_nontrivial();
}

static void init(void)
{
  if (chdir(getenv("HOME")) == 0)
    mkdir("d",0700);
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C40", .name="path_seq",
    .rule="all paths of 8 significant letters to length 6 (7) and paths around the "
      "length limit with two special characters; distinct by prefix",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

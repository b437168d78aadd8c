/*
  Blobs and whole files: every short sequence of calls on every kind of source,
  with transfers split, interrupted or failing at any system call.
*/
#include "common.h"
#include "simfs.h"
#include "wizard/blob-private.h"
#include "wizard/xml-tree.h"
#include "wizard/xml-tree-private.h"
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>

#define BIG 40000
#define PATH "/sim/data"

extern int seam_open(const char *,int,...);
extern int seam_close(int);

static unsigned char bytes[BIG+64];
static int failed,seeked,interrupted,calls,piped;

static void hook(const sim_call *c,sim_answer *a)
{
  if (++calls > 4000)
    mc_fail("the call does not end");
  switch (c->op)
  {
    case SIM_READ:
    case SIM_WRITE:
      if (c->size == 0)
        break;
      switch (mc_deviate(c->size > 1 ? piped ? 6 : 5 : 3,sim_op_name[c->op]))
      {
        case 1:
          mc_note("%s of %zu interrupted\n",sim_op_name[c->op],c->size);
          a->error=EINTR;
          interrupted++;
          break;
        case 2:
          mc_note("%s of %zu fails\n",sim_op_name[c->op],c->size);
          a->error=c->op == SIM_READ ? EIO : ENOSPC;
          failed++;
          break;
        case 3:
          mc_note("%s of %zu gives 1\n",sim_op_name[c->op],c->size);
          a->limit=1;
          break;
        case 4:
          mc_note("%s of %zu gives %zu\n",sim_op_name[c->op],c->size,c->size-1);
          a->limit=c->size-1;
          break;
        case 5:
          mc_note("%s of %zu gives %zu\n",sim_op_name[c->op],c->size,c->size/2);
          a->limit=c->size/2;
          break;
      }
      break;
    case SIM_MAP:
      if (mc_deviate(2,"map"))
        {
          mc_note("mapping is refused\n");
          a->error=ENODEV;
        }
      break;
    case SIM_OPEN:
    case SIM_CLOSE:
    case SIM_SEEK:
      if (mc_deviate(2,sim_op_name[c->op]))
        {
          mc_note("%s fails\n",sim_op_name[c->op]);
          a->error=EIO;
          failed++;
          if (c->op == SIM_SEEK)
            seeked=1;
        }
      break;
    default:
      break;
  }
}

/*
  Whole files.
*/
static void whole(void)
{
  static const size_t sizes[]={ 0,1,5,8191,8192,8193,16384,16385,24577 };
  ExceptionInfo *exception=AcquireExceptionInfo();
  size_t size,extent,length=0,expect;
  int kind,how,stale;
  unsigned char *blob=NULL;
  StringInfo *string=NULL;
  how=mc_choose(4,"function");
  kind=how == 2 ? 0 : mc_choose(2,"piped");
  size=sizes[mc_choose(9,"size")];
  switch (how == 2 ? 0 : mc_choose(6,"extent"))
  {
    default: extent=(size_t) ~0; break;
    case 1: extent=size; break;
    case 2: extent=size+1; break;
    case 3: extent=size > 0 ? size-1 : 0; break;
    case 4: extent=8192; break;
    case 5: extent=1; break;
  }
  stale=mc_choose(2,"interrupted before") ? EINTR : 0;
  mc_budget(kind || mc_thorough() ? 2 : 1);
  sim_put(PATH,bytes,size);
  sim_pipe(PATH,kind);
  piped=kind;
  expect=size < extent ? size : extent;
  mc_note("%s of a %s of %zu bytes, at most %zu\n",how == 0 ? "FileToBlob" : how == 1 ?
    "FileToStringInfo" : how == 2 ? "ConfigureFileToStringInfo" : "FileToXML",
    kind ? "pipe" : "file",size,extent);
  sim_hook=hook;
  errno=stale;
  switch (how)
  {
    case 0:
      blob=FileToBlob(PATH,extent,&length,exception);
      break;
    case 1:
    case 2:
      string=how == 1 ? FileToStringInfo(PATH,extent,exception) :
        ConfigureFileToStringInfo(PATH);
      if (string)
        {
          length=GetStringInfoLength(string);
          blob=GetStringInfoDatum(string);
        }
      break;
    case 3:
      blob=(unsigned char *) FileToXML(PATH,extent);
      length=expect;
      break;
  }
  sim_hook=NULL;
  mc_transition();
  MC_CHECK(blob || failed,"the file is not read");
  if (blob)
    {
      MC_CHECK(length == expect,"%zu bytes read instead of %zu",length,expect);
      MC_CHECK(memcmp(blob,bytes,expect) == 0,"wrong bytes read");
      if (how == 3)
        MC_CHECK(blob[expect] == 0,"the text is not ended");
      if (string)
        {
          StringInfo *clone=CloneStringInfo(string);
          MC_CHECK(CompareStringInfo(clone,string) == 0,"the clone differs");
          DestroyStringInfo(clone);
        }
    }
  if (string)
    DestroyStringInfo(string);
  else
    if (blob)
      RelinquishWizardMemory(blob);
  MC_CHECK(sim_open_descriptors() == 0 || failed,"descriptor left open");
  mc_observe_int(expect*4+how);
  mc_observe_int(mc_deviations()*2+(blob != NULL));
  DestroyExceptionInfo(exception);
}

/*
  Reading through a blob.
*/
static void reading(void)
{
  static const char *const kinds[]={ "file","large file","large file, not mapped","pipe",
    "descriptor" };
  static const size_t sizes[]={ 0,1,2,3,4,6,20 };
  static const size_t large[]={ 8193,20000 };
  ExceptionInfo *exception=AcquireExceptionInfo();
  char name[64]=PATH;
  BlobInfo *blob;
  WizardBooleanType status;
  size_t size,position=0,n;
  ssize_t count;
  int kind=mc_choose(5,"source"),stale,ops=3,i,op,fd=-1,broken=0,ended=0;
  unsigned char *buffer;
  size=kind == 1 || kind == 2 ? large[mc_choose(2,"size")] : sizes[mc_choose(7,"size")];
  if (kind == 3 && mc_choose(2,"long"))
    size=20000;
  stale=mc_choose(2,"interrupted before") ? EINTR : 0;
  mc_budget(mc_thorough() ? 2 : 1);
  sim_put(PATH,bytes,size);
  sim_pipe(PATH,kind == 3);
  piped=kind == 3;
  SetWizardResourceLimit(MapResource,kind == 2 ? 0 : 1000000);
  if (kind == 4)
    {
      fd=seam_open(PATH,O_RDONLY);
      snprintf(name,sizeof(name),"fd:%d",fd);
    }
  mc_note("a %s of %zu bytes\n",kinds[kind],size);
  sim_hook=hook;
  errno=stale;
  blob=OpenBlob(name,mc_choose(2,"binary") ? ReadBinaryBlobMode : ReadBlobMode,WizardFalse,
    exception);
  mc_transition();
  if (blob == NULL)
    {
      MC_CHECK(failed,"the file cannot be opened");
      goto done;
    }
  if (interrupted)
    broken=1;                  /* the C library remembers it until the next read */
  for (i=0; i < ops && !failed; i++)
  {
    int before=failed|interrupted;
    op=mc_choose(kind == 1 && mc_deviations() == 0 ? 9 : 8,"call");
    n=0;
    if (op == 0)
      break;
    if (op < 3)
      {
        int large=kind == 1 || kind == 2 || size > 1000,k=mc_choose(large ? 9 : 8,"length");
        n=k == 8 ? 8192 : k == 7 ? size+1 : (size_t) k;
      }
    if (op == 3)
      n=1;
    buffer=malloc(n+!n);
    errno=stale;
    switch (op)
    {
      case 1:
      case 2:
      case 3:
        {
          size_t left=size-position,want=n < left ? n : left;
          int fault=failed,stop=interrupted;
          mc_note("%s %zu at %zu\n",op == 1 ? "read" : op == 2 ? "read chunk" : "read byte",n,
            position);
          if (op == 3)
            {
              int c=ReadBlobByte(blob);
              count=c != EOF;
              *buffer=(unsigned char) c;
              MC_CHECK(c == EOF || (c >= 0 && c < 256),"a byte reads as %d",c);
            }
          else
            count=op == 1 ? ReadBlob(blob,n,buffer) : ReadBlobChunk(blob,n,buffer);
          mc_note("  -> %zd\n",count);
          fault=failed != fault;
          stop=interrupted != stop && op != 2;
          MC_CHECK(count >= 0 && count <= (ssize_t) want,"%zd bytes read of %zu at %zu of %zu",
            count,n,position,size);
          if (!fault && !stop)
            MC_CHECK(count == (ssize_t) want,"%zd bytes read of %zu at %zu of %zu",count,n,position,
              size);
          MC_CHECK(memcmp(buffer,bytes+position,count) == 0,"wrong bytes read at %zu",position);
          position+=count;
          if (n > left && !fault && !stop)
            ended=1;
          if (fault || stop)
            {
              MC_CHECK(EOFBlob(blob) == 0 || position == size,
                "an error is reported as the end of the file at %zu of %zu",position,size);
              broken=1;
            }
          break;
        }
      case 4:
        {
          int end=EOFBlob(blob);
          mc_note("end -> %d\n",end);
          MC_CHECK((end != 0) == ended,"end of file reads as %d at %zu of %zu",end,position,size);
          break;
        }
      case 5:
        {
          WizardOffsetType at=TellBlob(blob);
          mc_note("tell -> %ld\n",(long) at);
          if (kind != 3)
            MC_CHECK(at == (WizardOffsetType) position || failed,"position reads as %ld instead of "
              "%zu",(long) at,position);
          break;
        }
      case 6:
        {
          WizardSizeType extent=GetBlobSize(blob);
          mc_note("size -> %lu\n",(unsigned long) extent);
          if (kind != 3)
            MC_CHECK(extent == size,"size reads as %lu instead of %zu",(unsigned long) extent,size);
          break;
        }
      case 8:
        mc_note("extent\n");
        MC_CHECK(SetBlobExtent(blob,size+1) == WizardFalse,"a file being read is extended");
        broken=1;
        break;
      case 7:
        mc_note("sync\n");
        MC_CHECK(SyncBlob(blob) == 0 || failed,"synchronising fails");
        if (kind != 1)
          ended=EOFBlob(blob) != 0;    /* repositioning forgets the end */
        break;
    }
    (void) before;
    free(buffer);
    mc_transition();
  }
  errno=stale;
  status=CloseBlob(blob);
  mc_note("close -> %d\n",status);
  MC_CHECK(status || failed || broken,"closing fails");
  DestroyBlob(blob);
  if (fd < 0 && kind != 3)
    MC_CHECK(sim_open_descriptors() == 0 || failed,"descriptor left open");
 done:
  sim_hook=NULL;
  MC_CHECK(GetWizardResource(MapResource) == 0,"the map is still accounted");
  mc_observe_int(kind);
  mc_observe_int(position*16+(failed != 0)*8+broken);
  DestroyExceptionInfo(exception);
}

/*
  Writing through a blob.
*/
static void writing(void)
{
  static const size_t sizes[]={ 0,1,2,3,4,5,17,16384,17000 };
  static unsigned char model[8*20000];
  ExceptionInfo *exception=AcquireExceptionInfo();
  BlobInfo *blob;
  size_t size=0,position=0,n,found_size;
  ssize_t count;
  int mode=mc_choose(2,"mode"),stale=mc_choose(2,"interrupted before") ? EINTR : 0,i,
    ops=3,op,good=1,unsaid=0,old=mc_choose(2,"old");
  WizardBooleanType status;
  const unsigned char *found;
  mc_budget(mc_thorough() ? 2 : 1);
  if (old)
    sim_put(PATH,bytes+9,30);
  sim_hook=hook;
  errno=stale;
  blob=OpenBlob(PATH,mode ? WriteBinaryBlobMode : WriteBlobMode,WizardFalse,exception);
  if (blob == NULL)
    {
      MC_CHECK(failed,"the file cannot be opened");
      goto done;
    }
  for (i=0; i < ops && good; i++)
  {
    op=mc_choose(8,"call");
    if (op == 0)
      break;
    errno=stale;
    n=0;
    switch (op)
    {
      case 1:
      case 2:
      case 3:
      case 4:
        {
          unsigned char *buffer;
          n=op == 3 ? 1 : op == 4 ? sizes[mc_choose(7,"length")] : sizes[mc_choose(9,"length")];
          buffer=malloc(n+1);
          memcpy(buffer,bytes+i*7+(position & 63),n);
          buffer[n]='\0';
          if (op == 4)
            for (size_t k=0; k < n; k++)
              buffer[k]|=1;
          mc_note("%s %zu at %zu\n",op == 1 ? "write" : op == 2 ? "write chunk" : op == 3 ?
            "write byte" : "write string",n,position);
          count=op == 1 ? WriteBlob(blob,n,buffer) : op == 2 ? WriteBlobChunk(blob,n,buffer) :
            op == 3 ? WriteBlobByte(blob,*buffer) : WriteBlobString(blob,(char *) buffer);
          mc_note("  -> %zd\n",count);
          MC_CHECK(count <= (ssize_t) n,"%zd of %zu bytes written",count,n);
          if (count != (ssize_t) n)
            {
              MC_CHECK(failed || interrupted,"%zd of %zu bytes written",count,n);
              good=0;
            }
          memcpy(model+position,buffer,n);
          free(buffer);
          position+=n;
          if (position > size)
            size=position;
          break;
        }
      case 5:
        {
          int result=SyncBlob(blob);
          mc_note("sync -> %d\n",result);
          if (result != 0)
            {
              MC_CHECK(failed || interrupted,"synchronising fails");
              unsaid=1;
            }
          else
            if (!unsaid && !interrupted && !failed)
              {
                found=sim_get(PATH,&found_size);
                MC_CHECK(found_size == size && memcmp(found,model,size) == 0,
                  "the file is wrong after synchronising");
                MC_CHECK(GetBlobSize(blob) == size,"the size is wrong after synchronising");
              }
          break;
        }
      case 6:
        {
          WizardOffsetType at=TellBlob(blob);
          mc_note("tell -> %ld\n",(long) at);
          MC_CHECK(at == (WizardOffsetType) position || failed || interrupted,
            "position reads as %ld instead of %zu",(long) at,position);
          MC_CHECK(EOFBlob(blob) == 0,"end of file while writing");
          break;
        }
      case 7:
        {
          size_t extent;
          switch (mc_choose(4,"extent"))
          {
            default: extent=1; break;
            case 1: extent=size; break;
            case 2: extent=size+1; break;
            case 3: extent=size+300; break;
          }
          status=SetBlobExtent(blob,extent);
          mc_note("extent %zu -> %d\n",extent,status);
          MC_CHECK(status || failed || interrupted,"the extent cannot be set");
          if (!status)
            unsaid=1;
          if (extent > size && (status || !failed))
            {
              memset(model+size,0,extent-size);
              size=extent;
            }
          if (failed || interrupted)
            unsaid=1;
          else
            {
              WizardOffsetType at=TellBlob(blob);
              if (failed)
                {
                  unsaid=1;
                  break;
                }
              position=(size_t) at;
            }
          MC_CHECK(position <= size,"the position is %zu of %zu",position,size);
          break;
        }
    }
    mc_transition();
  }
  errno=stale;
  status=CloseBlob(blob);
  mc_note("close -> %d\n",status);
  MC_CHECK(status || failed || interrupted,"closing fails");
  if (good && !unsaid && status)
    {
      found=sim_get(PATH,&found_size);
      MC_CHECK(found != NULL && found_size == size,"%zu bytes are in the file instead of %zu, "
        "but every call succeeded",found ? found_size : 0,size);
      MC_CHECK(memcmp(found,model,size) == 0,"the file holds other bytes");
    }
  MC_CHECK(CloseBlob(blob) != WizardFalse,"closing twice fails");
  DestroyBlob(blob);
  MC_CHECK(sim_open_descriptors() == 0 || failed,"descriptor left open");
 done:
  sim_hook=NULL;
  mc_observe_int(size);
  mc_observe_int(good*4+(failed != 0)*2+(interrupted != 0));
  DestroyExceptionInfo(exception);
}

/*
  Compressed files: what is written in pieces reads back in other pieces.
*/
static void compressed(void)
{
  static const char *const names[]={ "x.gz","x.bz2","x.Z","x.gzz" };
  static const size_t sizes[]={ 0,1,2,3,4,5,100,9000,40000 };
  static const size_t pieces[]={ 1,2,3,4,5,17,8192,40000 };
  ExceptionInfo *exception=AcquireExceptionInfo();
  char path[4096];
  BlobInfo *blob;
  size_t size,piece,i,n;
  ssize_t count;
  int squeeze,how,end;
  unsigned char *buffer,last[4];
  snprintf(path,sizeof(path),"%s/%s",getenv("WIZARD_HOME"),names[mc_choose(4,"name")]);
  size=sizes[mc_choose(9,"size")];
  squeeze=mc_choose(2,"compress");
  piece=pieces[mc_choose(8,"written piece")];
  if (size/piece > 10000)
    piece=17;
  blob=OpenBlob(path,WriteBinaryBlobMode,squeeze,exception);
  MC_CHECK(blob != NULL,"%s cannot be opened",path);
  for (i=0; i < size; i+=n)
  {
    n=piece < size-i ? piece : size-i;
    buffer=malloc(n);
    memcpy(buffer,bytes+i,n);
    count=WriteBlobChunk(blob,n,buffer);
    free(buffer);
    MC_CHECK(count == (ssize_t) n,"%zd of %zu bytes written",count,n);
  }
  MC_CHECK(CloseBlob(blob),"closing %s fails",path);
  DestroyBlob(blob);
  for (how=0; how < 8; how++)
  {
    piece=pieces[how];
    if (size/piece > 10000)
      continue;
    mc_note("%zu bytes to %s read in %zu\n",size,path,piece);
    blob=OpenBlob(path,ReadBinaryBlobMode,WizardTrue,exception);
    MC_CHECK(blob != NULL,"%s cannot be opened again",path);
    for (i=0; i < size; i+=n)
    {
      n=piece < size-i ? piece : size-i;
      buffer=malloc(n);
      errno=0;
      count=ReadBlobChunk(blob,n,buffer);
      MC_CHECK(count == (ssize_t) n,"%zd of %zu bytes read at %zu of %zu",count,n,i,size);
      MC_CHECK(memcmp(buffer,bytes+i,n) == 0,"wrong bytes read at %zu",i);
      free(buffer);
    }
    errno=how & 1 ? EINTR : 0;
    MC_CHECK(ReadBlobChunk(blob,4,last) == 0,"bytes after the end");
    end=EOFBlob(blob);
    MC_CHECK(end != 0,"the end is not seen");
    MC_CHECK(CloseBlob(blob),"closing %s after reading fails",path);
    DestroyBlob(blob);
    mc_transition();
  }
  unlink(path);
  mc_observe_int(size);
  mc_observe_int(squeeze);
  DestroyExceptionInfo(exception);
}

/*
  A file read through the standard input.
*/
static void standard_input(void)
{
  static const size_t far[]={ 8191,8192,8193,20000,0 };
  ExceptionInfo *exception=AcquireExceptionInfo();
  char path[4096];
  StringInfo *string,*clone;
  size_t size=mc_choose(205,"size"),extent,expect,length;
  unsigned char *blob;
  int limit=mc_choose(4,"extent"),how,fd;
  if (size >= 200)
    size=far[size-200];
  extent=limit == 0 ? (size_t) ~0 : limit == 1 ? size : limit == 2 ? size+1 : size/2;
  expect=size < extent ? size : extent;
  snprintf(path,sizeof(path),"%s/input",getenv("WIZARD_HOME"));
  mc_note("standard input of %zu bytes, at most %zu\n",size,extent);
  for (how=0; how < 2; how++)
  {
    fd=open(path,O_RDWR | O_CREAT | O_TRUNC,0600);
    MC_CHECK(fd > 0 && write(fd,bytes,size) == (ssize_t) size,"the input cannot be made");
    lseek(fd,0,SEEK_SET);
    dup2(fd,0);
    close(fd);
    length=expect;
    if (how == 0)
      {
        blob=FileToBlob("-",extent,&length,exception);
        MC_CHECK(blob && length == expect && memcmp(blob,bytes,expect) == 0,"the input is not read");
        RelinquishWizardMemory(blob);
      }
    else
      {
        string=FileToStringInfo("-",extent,exception);
        MC_CHECK(string && GetStringInfoLength(string) == expect &&
          memcmp(GetStringInfoDatum(string),bytes,expect) == 0,"the input is not read");
        clone=CloneStringInfo(string);
        MC_CHECK(CompareStringInfo(clone,string) == 0,"the clone differs");
        DestroyStringInfo(clone);
        DestroyStringInfo(string);
      }
    mc_transition();
    fd=open("/dev/null",O_RDONLY);
    if (fd > 0)
      {
        dup2(fd,0);
        close(fd);
      }
    unlink(path);
  }
  mc_observe_int(expect);
  DestroyExceptionInfo(exception);
}

static void body(void)
{
  sim_reset();
  failed=seeked=interrupted=calls=piped=0;
  switch (mc_choose(5,"part"))
  {
    case 0: whole(); break;
    case 1: reading(); break;
    case 2: writing(); break;
    case 3: compressed(); break;
    case 4: standard_input(); break;
  }
  mc_nontrivial();
}

static void init(void)
{
  for (size_t i=0; i < sizeof(bytes); i++)
    bytes[i]=(unsigned char) (i*31+(i >> 8)*7+(i >> 3)) | 1;
  sim_reset();
}

const char *__asan_default_options(void)
{
  return("quarantine_size_mb=1");
}

int main(int argc,char **argv)
{
  static const mc_harness h=
  {
    .property="C33", .name="blob_seq",
    .rule="every sequence of 3 reads or writes per source with one (two) interrupted, "
      "shortened or failing system calls at any place; every whole-file function, size and extent; "
      "compressed files in every pair of piece sizes",
    .init=init, .body=body
  };
  return(mc_main(argc,argv,&h));
}

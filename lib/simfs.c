#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>

#include "mc.h"
#include "simfs.h"

#define FILES_MAX 32
#define DATA_MAX (1 << 20)
#define FDS 64
#define FD_BASE 700

const char *sim_op_name[]=
{
  "open", "close", "read", "write", "seek", "stat", "unlink", "rename", "link",
  "truncate", "sync", "map", "mkdir", "sleep", "kill", "other", "entropy"
};

typedef struct
{
  int used, directory, pipe, references, serial, locker;
  size_t size;
  long mtime;
  mode_t mode;
} inode;

typedef struct
{
  int used, inode;
  char path[SIM_PATH];
} entry;

typedef struct
{
  int used, alive, pid, tid, ended, status;
  pid_t real;
  sem_t announced, answered;
  sim_call call;
  sim_answer answer;
  uint64_t wake;            /* end of the sleep in progress */
  long calls;
} process;

typedef struct
{
  inode inodes[FILES_MAX];
  entry entries[FILES_MAX];
  process procs[SIM_PROCS];
  uint64_t clock;           /* microseconds */
  uint64_t entropy;
  int serial;
  unsigned char results[SIM_PROCS][SIM_RESULT];
} world;

typedef struct
{
  int used, inode, flags;
  off_t offset;
  FILE *stream;
} descriptor;

typedef struct
{
  void *base;
  size_t length;
  int inode, shared;
  off_t offset;
} mapping;

static world *w;
static unsigned char *contents;
static descriptor fds[FDS];
static mapping mappings[16];
static int self=-1;
static char scratch[SIM_PATH];

void (*sim_hook)(const sim_call *,sim_answer *)=NULL;
long sim_calls=0;
unsigned char *sim_result=NULL;

static unsigned char *data(int i)
{
  return(contents+(size_t) i*DATA_MAX);
}

static void setup(void)
{
  if (w)
    return;
  w=mmap(NULL,sizeof(*w),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  contents=mmap(NULL,(size_t) FILES_MAX*DATA_MAX,PROT_READ|PROT_WRITE,
    MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  if (w == MAP_FAILED || contents == MAP_FAILED)
    abort();
}

static int make(const char *path,int directory)
{
  int i,k;
  for (i=0; i < FILES_MAX && w->inodes[i].used; i++) ;
  for (k=0; k < FILES_MAX && w->entries[k].used; k++) ;
  if (i == FILES_MAX || k == FILES_MAX)
    return(-1);
  w->inodes[i]=(inode) { .used=1, .directory=directory, .references=1,
    .serial=++w->serial, .mtime=w->clock/1000000, .mode=directory ? 0700 : 0600 };
  w->entries[k].used=1;
  w->entries[k].inode=i;
  snprintf(w->entries[k].path,SIM_PATH,"%s",path);
  return(i);
}

void sim_reset(void)
{
  int i;
  setup();
  sim_end();
  for (i=0; i < FDS; i++)
    fds[i].used=0;
  memset(w->inodes,0,sizeof(w->inodes));
  memset(w->entries,0,sizeof(w->entries));
  w->clock=1700000000ULL*1000000;
  w->entropy=0;
  w->serial=0;
  self=-1;
  sim_hook=NULL;
  sim_calls=0;
  make("/sim",1);
}

static int in_sim(const char *path)
{
  return(w && strncmp(path,"/sim",4) == 0 && (path[4] == '/' || path[4] == '\0'));
}

/* collapse repeated and trailing slashes */
static const char *clean(const char *path)
{
  char *q=scratch;
  while (*path && q < scratch+SIM_PATH-1)
  {
    if (*path == '/' && q > scratch && q[-1] == '/')
      {
        path++;
        continue;
      }
    *q++=*path++;
  }
  while (q > scratch+1 && q[-1] == '/')
    q--;
  *q='\0';
  return(scratch);
}

static entry *find(const char *path)
{
  int k;
  path=clean(path);
  for (k=0; k < FILES_MAX; k++)
    if (w->entries[k].used && strcmp(w->entries[k].path,path) == 0)
      return(&w->entries[k]);
  return(NULL);
}

static int parent_exists(const char *path)
{
  char up[SIM_PATH],*slash;
  entry *e;
  snprintf(up,sizeof(up),"%s",clean(path));
  slash=strrchr(up,'/');
  if (slash == up)
    return(1);
  *slash='\0';
  e=find(up);
  return(e && w->inodes[e->inode].directory);
}

static void drop(int i)
{
  if (--w->inodes[i].references == 0)
    w->inodes[i].used=0;
}

void sim_put(const char *path,const void *bytes,size_t length)
{
  entry *e;
  int i;
  char up[SIM_PATH],*slash;
  setup();
  snprintf(up,sizeof(up),"%s",path);
  slash=strrchr(up,'/');
  *slash='\0';
  if (!find(up))
    make(up,1);
  e=find(path);
  i=e ? e->inode : make(clean(path),0);
  if (i < 0 || length > DATA_MAX)
    abort();
  memcpy(data(i),bytes,length);
  w->inodes[i].size=length;
}

unsigned char *sim_get(const char *path,size_t *length)
{
  entry *e=find(path);
  if (!e || w->inodes[e->inode].directory)
    return(NULL);
  *length=w->inodes[e->inode].size;
  return(data(e->inode));
}

int sim_remove(const char *path)
{
  entry *e=find(path);
  if (!e)
    return(0);
  e->used=0;
  drop(e->inode);
  return(1);
}

int sim_files(void)
{
  int k,n=0;
  for (k=0; k < FILES_MAX; k++)
    n+=w->entries[k].used && !w->inodes[w->entries[k].inode].directory;
  return(n);
}

const char *sim_name(int file)
{
  int k,n=0;
  for (k=0; k < FILES_MAX; k++)
    if (w->entries[k].used && !w->inodes[w->entries[k].inode].directory && n++ == file)
      return(w->entries[k].path);
  return(NULL);
}

int sim_open_descriptors(void)
{
  int i,n=0;
  for (i=0; i < FDS; i++)
    n+=fds[i].used;
  return(n);
}

void sim_pipe(const char *path,int pipe)
{
  entry *e=find(path);
  if (e)
    w->inodes[e->inode].pipe=pipe;
}

/*
  Announcing calls.
*/
static sim_answer announce(sim_op op,const char *path,size_t size,int create)
{
  sim_answer a={ 0,SIZE_MAX,0 };
  sim_call c;
  memset(&c,0,sizeof(c));
  c.op=op;
  snprintf(c.path,SIM_PATH,"%s",path ? path : "");
  c.size=size;
  c.create=create;
  sim_calls++;
  if (self >= 0)
    {
      process *p=&w->procs[self];
      int saved=errno;
      c.pid=p->pid;
      p->call=c;
      p->calls++;
      sem_post(&p->announced);
      while (sem_wait(&p->answered) == -1) ;
      a=p->answer;
      errno=saved;
    }
  else
    if (sim_hook)
      {
        int saved=errno;
        c.pid=4000;
        sim_hook(&c,&a);
        errno=saved;
      }
  return(a);
}

static void finish(const sim_answer *a)
{
  if (a->crash)
    {
      process *p=&w->procs[self];
      p->ended=1;
      p->status=0;
      sem_post(&p->announced);
      _exit(0);
    }
}

static descriptor *get(int fd)
{
  if (fd >= FD_BASE && fd < FD_BASE+FDS && fds[fd-FD_BASE].used)
    return(&fds[fd-FD_BASE]);
  return(NULL);
}

static const char *name_of(int i)
{
  int k;
  for (k=0; k < FILES_MAX; k++)
    if (w->entries[k].used && w->entries[k].inode == i)
      return(w->entries[k].path);
  return("(removed)");
}

/* exclusive lock owner: process and descriptor */
#define LOCKER(d) ((self+2)*1000+(int) ((d)-fds))

#define FAULT(a) \
  if ((a).error) \
    { \
      finish(&(a)); \
      errno=(a).error; \
      return(-1); \
    } \
  if ((a).crash && (a).limit == 0) \
    finish(&(a))

int seam_open(const char *path,int flags,...)
{
  sim_answer a;
  entry *e;
  int fd,i;
  mode_t mode=0600;
  va_list list;
  va_start(list,flags);
  if (flags & O_CREAT)
    mode=va_arg(list,int);
  va_end(list);
  if (w && strcmp(path,"/dev/urandom") == 0 && find("/sim/dev/urandom"))
    path="/sim/dev/urandom";
  if (!in_sim(path))
    return(open(path,flags,mode));
  a=announce(SIM_OPEN,path,0,(flags & O_CREAT) != 0);
  FAULT(a);
  e=find(path);
  if (e && (flags & O_CREAT) && (flags & O_EXCL))
    {
      finish(&a);
      errno=EEXIST;
      return(-1);
    }
  if (!e && (!(flags & O_CREAT) || !parent_exists(path)))
    {
      finish(&a);
      errno=ENOENT;
      return(-1);
    }
  if (e && w->inodes[e->inode].directory && (flags & O_ACCMODE) != O_RDONLY)
    {
      finish(&a);
      errno=EISDIR;
      return(-1);
    }
  for (fd=0; fd < FDS && fds[fd].used; fd++) ;
  if (fd == FDS)
    {
      errno=EMFILE;
      return(-1);
    }
  i=e ? e->inode : make(clean(path),0);
  if (i < 0)
    {
      errno=ENOSPC;
      return(-1);
    }
  if (!e)
    w->inodes[i].mode=mode & 0777;
  if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY)
    w->inodes[i].size=0;
  w->inodes[i].references++;
  fds[fd]=(descriptor) { .used=1, .inode=i, .flags=flags };
  finish(&a);
  return(FD_BASE+fd);
}

int seam_open64(const char *path,int flags,...)
{
  va_list list;
  mode_t mode;
  va_start(list,flags);
  mode=flags & O_CREAT ? va_arg(list,int) : 0;
  va_end(list);
  return(seam_open(path,flags,mode));
}

int seam_openat(int directory,const char *path,int flags,...)
{
  va_list list;
  mode_t mode;
  va_start(list,flags);
  mode=flags & O_CREAT ? va_arg(list,int) : 0;
  va_end(list);
  if (!in_sim(path))
    return(openat(directory,path,flags,mode));
  return(seam_open(path,flags,mode));
}

int seam_creat(const char *path,mode_t mode)
{
  return(seam_open(path,O_WRONLY|O_CREAT|O_TRUNC,mode));
}

int seam_close(int fd)
{
  descriptor *d=get(fd);
  sim_answer a;
  if (!d)
    {
      if (fd >= FD_BASE)
        {
          errno=EBADF;
          return(-1);
        }
      return(close(fd));
    }
  a=announce(SIM_CLOSE,name_of(d->inode),0,0);
  d->used=0;
  if (w->inodes[d->inode].locker == LOCKER(d))
    w->inodes[d->inode].locker=0;
  drop(d->inode);
  FAULT(a);
  finish(&a);
  return(0);
}

static void sleep_for(uint64_t microseconds);

int seam_flock(int fd,int operation)
{
  descriptor *d=get(fd);
  sim_answer a;
  int *locker;
  if (!d)
    return(flock(fd,operation));
  locker=&w->inodes[d->inode].locker;
  do
  {
    a=announce(SIM_OTHER,name_of(d->inode),0,0);
    FAULT(a);
    finish(&a);
    if (operation & LOCK_UN)
      {
        if (*locker == LOCKER(d))
          *locker=0;
        return(0);
      }
    if (*locker == 0 || *locker == LOCKER(d))
      {
        *locker=LOCKER(d);
        return(0);
      }
    if (operation & LOCK_NB)
      break;
    if (self < 0)
      mc_fail("waits for a lock that nobody else can release");
    sleep_for(1);
  } while (1);
  errno=EWOULDBLOCK;
  return(-1);
}

static ssize_t take(descriptor *d,void *buffer,size_t count,off_t offset)
{
  inode *n=&w->inodes[d->inode];
  if (offset >= (off_t) n->size)
    return(0);
  if (count > n->size-offset)
    count=n->size-offset;
  memcpy(buffer,data(d->inode)+offset,count);
  return(count);
}

static ssize_t put(descriptor *d,const void *buffer,size_t count,off_t offset)
{
  inode *n=&w->inodes[d->inode];
  if (offset+count > DATA_MAX)
    {
      errno=ENOSPC;
      return(-1);
    }
  if (offset > (off_t) n->size)
    memset(data(d->inode)+n->size,0,offset-n->size);
  memcpy(data(d->inode)+offset,buffer,count);
  if (offset+count > n->size)
    n->size=offset+count;
  n->mtime=w->clock/1000000;
  return(count);
}

ssize_t seam_read(int fd,void *buffer,size_t count)
{
  descriptor *d=get(fd);
  sim_answer a;
  ssize_t r;
  if (!d)
    return(read(fd,buffer,count));
  a=announce(SIM_READ,name_of(d->inode),count,0);
  FAULT(a);
  if ((d->flags & O_ACCMODE) == O_WRONLY)
    {
      errno=EBADF;
      return(-1);
    }
  if (w->inodes[d->inode].directory)
    {
      errno=EISDIR;
      return(-1);
    }
  if (count > a.limit)
    count=a.limit;
  r=take(d,buffer,count,d->offset);
  d->offset+=r;
  finish(&a);
  return(r);
}

ssize_t seam_write(int fd,const void *buffer,size_t count)
{
  descriptor *d=get(fd);
  sim_answer a;
  ssize_t r;
  if (!d)
    return(write(fd,buffer,count));
  a=announce(SIM_WRITE,name_of(d->inode),count,0);
  FAULT(a);
  if ((d->flags & O_ACCMODE) == O_RDONLY)
    {
      errno=EBADF;
      return(-1);
    }
  if (count > a.limit)
    count=a.limit;
  if (d->flags & O_APPEND)
    d->offset=w->inodes[d->inode].size;
  r=put(d,buffer,count,d->offset);
  if (r > 0)
    d->offset+=r;
  finish(&a);
  return(r);
}

ssize_t seam_readv(int fd,const struct iovec *v,int n)
{
  ssize_t total=0,r;
  int i;
  if (!get(fd))
    return(readv(fd,v,n));
  for (i=0; i < n; i++)
  {
    r=seam_read(fd,v[i].iov_base,v[i].iov_len);
    if (r < 0)
      return(total ? total : -1);
    total+=r;
    if (r < (ssize_t) v[i].iov_len)
      break;
  }
  return(total);
}

ssize_t seam_writev(int fd,const struct iovec *v,int n)
{
  ssize_t total=0,r;
  int i;
  if (!get(fd))
    return(writev(fd,v,n));
  for (i=0; i < n; i++)
  {
    r=seam_write(fd,v[i].iov_base,v[i].iov_len);
    if (r < 0)
      return(total ? total : -1);
    total+=r;
    if (r < (ssize_t) v[i].iov_len)
      break;
  }
  return(total);
}

ssize_t seam_pread(int fd,void *buffer,size_t count,off_t offset)
{
  descriptor *d=get(fd);
  sim_answer a;
  ssize_t r;
  if (!d)
    return(pread(fd,buffer,count,offset));
  a=announce(SIM_READ,name_of(d->inode),count,0);
  FAULT(a);
  r=take(d,buffer,count > a.limit ? a.limit : count,offset);
  finish(&a);
  return(r);
}

ssize_t seam_pread64(int fd,void *buffer,size_t count,off_t offset)
{
  return(seam_pread(fd,buffer,count,offset));
}

ssize_t seam_pwrite(int fd,const void *buffer,size_t count,off_t offset)
{
  descriptor *d=get(fd);
  sim_answer a;
  ssize_t r;
  if (!d)
    return(pwrite(fd,buffer,count,offset));
  a=announce(SIM_WRITE,name_of(d->inode),count,0);
  FAULT(a);
  r=put(d,buffer,count > a.limit ? a.limit : count,offset);
  finish(&a);
  return(r);
}

ssize_t seam_pwrite64(int fd,const void *buffer,size_t count,off_t offset)
{
  return(seam_pwrite(fd,buffer,count,offset));
}

off_t seam_lseek(int fd,off_t offset,int whence)
{
  descriptor *d=get(fd);
  sim_answer a;
  off_t base;
  if (!d)
    return(lseek(fd,offset,whence));
  a=announce(SIM_SEEK,name_of(d->inode),0,0);
  FAULT(a);
  finish(&a);
  if (w->inodes[d->inode].pipe)
    {
      errno=ESPIPE;
      return(-1);
    }
  base=whence == SEEK_SET ? 0 : whence == SEEK_CUR ? d->offset : (off_t)
    w->inodes[d->inode].size;
  if (base+offset < 0)
    {
      errno=EINVAL;
      return(-1);
    }
  d->offset=base+offset;
  return(d->offset);
}

off_t seam_lseek64(int fd,off_t offset,int whence)
{
  return(seam_lseek(fd,offset,whence));
}

static int describe(int i,struct stat *s)
{
  inode *n=&w->inodes[i];
  int k;
  memset(s,0,sizeof(*s));
  s->st_mode=(n->directory ? S_IFDIR : n->pipe ? S_IFIFO : S_IFREG) | n->mode;
  s->st_size=n->pipe ? 0 : n->size;
  s->st_ino=n->serial;
  s->st_dev=77;
  for (k=0; k < FILES_MAX; k++)
    s->st_nlink+=w->entries[k].used && w->entries[k].inode == i;
  s->st_mtime=s->st_ctime=s->st_atime=n->mtime;
  s->st_blksize=4096;
  s->st_blocks=(n->size+511)/512;
  return(0);
}

int seam_stat(const char *path,struct stat *s)
{
  sim_answer a;
  entry *e;
  if (!in_sim(path))
    return(stat(path,s));
  a=announce(SIM_STAT,path,0,0);
  FAULT(a);
  finish(&a);
  e=find(path);
  if (!e)
    {
      errno=ENOENT;
      return(-1);
    }
  return(describe(e->inode,s));
}

int seam_stat64(const char *path,struct stat *s) { return(seam_stat(path,s)); }

int seam_lstat(const char *path,struct stat *s)
{
  return(in_sim(path) ? seam_stat(path,s) : lstat(path,s));
}

int seam_lstat64(const char *path,struct stat *s) { return(seam_lstat(path,s)); }

int seam_fstat(int fd,struct stat *s)
{
  descriptor *d=get(fd);
  sim_answer a;
  if (!d)
    return(fstat(fd,s));
  a=announce(SIM_STAT,name_of(d->inode),0,0);
  FAULT(a);
  finish(&a);
  return(describe(d->inode,s));
}

int seam_fstat64(int fd,struct stat *s) { return(seam_fstat(fd,s)); }

int seam_access(const char *path,int mode)
{
  sim_answer a;
  if (!in_sim(path))
    return(access(path,mode));
  a=announce(SIM_STAT,path,0,0);
  FAULT(a);
  finish(&a);
  if (!find(path))
    {
      errno=ENOENT;
      return(-1);
    }
  return(0);
}

int seam_unlink(const char *path)
{
  sim_answer a;
  entry *e;
  if (!in_sim(path))
    return(unlink(path));
  a=announce(SIM_UNLINK,path,0,0);
  FAULT(a);
  e=find(path);
  if (!e)
    {
      finish(&a);
      errno=ENOENT;
      return(-1);
    }
  e->used=0;
  drop(e->inode);
  finish(&a);
  return(0);
}

int seam_remove(const char *path)
{
  return(in_sim(path) ? seam_unlink(path) : remove(path));
}

int seam_rmdir(const char *path)
{
  return(in_sim(path) ? seam_unlink(path) : rmdir(path));
}

int seam_rename(const char *from,const char *to)
{
  sim_answer a;
  entry *e,*old;
  if (!in_sim(from))
    return(rename(from,to));
  a=announce(SIM_RENAME,to,0,0);
  FAULT(a);
  e=find(from);
  if (!e || !parent_exists(to))
    {
      finish(&a);
      errno=ENOENT;
      return(-1);
    }
  old=find(to);
  if (old && old != e)
    {
      old->used=0;
      drop(old->inode);
    }
  snprintf(e->path,SIM_PATH,"%s",clean(to));
  finish(&a);
  return(0);
}

int seam_link(const char *from,const char *to)
{
  sim_answer a;
  entry *e;
  int k;
  if (!in_sim(from))
    return(link(from,to));
  a=announce(SIM_LINK,to,0,0);
  FAULT(a);
  finish(&a);
  e=find(from);
  if (!e)
    {
      errno=ENOENT;
      return(-1);
    }
  if (find(to))
    {
      errno=EEXIST;
      return(-1);
    }
  for (k=0; k < FILES_MAX && w->entries[k].used; k++) ;
  if (k == FILES_MAX)
    {
      errno=ENOSPC;
      return(-1);
    }
  w->entries[k].used=1;
  w->entries[k].inode=e->inode;
  snprintf(w->entries[k].path,SIM_PATH,"%s",clean(to));
  w->inodes[e->inode].references++;
  return(0);
}

int seam_mkdir(const char *path,mode_t mode)
{
  sim_answer a;
  if (!in_sim(path))
    return(mkdir(path,mode));
  a=announce(SIM_MKDIR,path,0,0);
  FAULT(a);
  if (find(path))
    {
      finish(&a);
      errno=EEXIST;
      return(-1);
    }
  if (!parent_exists(path))
    {
      finish(&a);
      errno=ENOENT;
      return(-1);
    }
  make(clean(path),1);
  finish(&a);
  return(0);
}

static int resize(int i,off_t length)
{
  inode *n=&w->inodes[i];
  if (length < 0 || length > DATA_MAX)
    {
      errno=length < 0 ? EINVAL : EFBIG;
      return(-1);
    }
  if ((size_t) length > n->size)
    memset(data(i)+n->size,0,length-n->size);
  n->size=length;
  return(0);
}

int seam_ftruncate(int fd,off_t length)
{
  descriptor *d=get(fd);
  sim_answer a;
  int r;
  if (!d)
    return(ftruncate(fd,length));
  a=announce(SIM_TRUNCATE,name_of(d->inode),length,0);
  FAULT(a);
  r=resize(d->inode,length);
  finish(&a);
  return(r);
}

int seam_ftruncate64(int fd,off_t length) { return(seam_ftruncate(fd,length)); }

int seam_truncate(const char *path,off_t length)
{
  sim_answer a;
  entry *e;
  int r;
  if (!in_sim(path))
    return(truncate(path,length));
  a=announce(SIM_TRUNCATE,path,length,0);
  FAULT(a);
  e=find(path);
  if (!e)
    {
      errno=ENOENT;
      return(-1);
    }
  r=resize(e->inode,length);
  finish(&a);
  return(r);
}

int seam_posix_fallocate(int fd,off_t offset,off_t length)
{
  descriptor *d=get(fd);
  sim_answer a;
  if (!d)
    return(posix_fallocate(fd,offset,length));
  a=announce(SIM_TRUNCATE,name_of(d->inode),offset+length,0);
  if (a.error)
    return(a.error);
  if (offset+length > (off_t) w->inodes[d->inode].size && resize(d->inode,offset+length) == -1)
    return(errno);
  return(0);
}

int seam_posix_fadvise(int fd,off_t offset,off_t length,int advice)
{
  return(get(fd) ? 0 : posix_fadvise(fd,offset,length,advice));
}

int seam_fsync(int fd)
{
  descriptor *d=get(fd);
  sim_answer a;
  if (!d)
    return(fsync(fd));
  a=announce(SIM_SYNC,name_of(d->inode),0,0);
  FAULT(a);
  finish(&a);
  return(0);
}

int seam_fdatasync(int fd) { return(get(fd) ? seam_fsync(fd) : fdatasync(fd)); }

int sim_announce_memory;

__attribute__((weak)) int seam_posix_memalign(void **p,size_t alignment,size_t size)
{
  if (sim_announce_memory && w)
    {
      sim_answer a=announce(SIM_MAP,"/sim/heap",size,1);
      finish(&a);
      if (a.error)
        return(a.error);
    }
  return(posix_memalign(p,alignment,size));
}

void *seam_mmap(void *address,size_t length,int protection,int flags,int fd,off_t offset)
{
  descriptor *d=get(fd);
  sim_answer a;
  int i;
  void *base;
  if (!d && sim_announce_memory && fd == -1 && w)
    {
      a=announce(SIM_MAP,"/sim/anonymous",length,1);
      finish(&a);
      if (a.error)
        {
          errno=a.error;
          return(MAP_FAILED);
        }
    }
  if (!d)
    return(mmap(address,length,protection,flags,fd,offset));
  a=announce(SIM_MAP,name_of(d->inode),length,(protection & PROT_WRITE) != 0);
  if (a.error || length == 0)
    {
      finish(&a);
      errno=a.error ? a.error : EINVAL;
      return(MAP_FAILED);
    }
  for (i=0; i < 16 && mappings[i].base; i++) ;
  if (i == 16)
    {
      errno=ENOMEM;
      return(MAP_FAILED);
    }
  base=mmap(NULL,length,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
  if (base == MAP_FAILED)
    return(base);
  take(d,base,length,offset);
  mappings[i]=(mapping) { base,length,d->inode,
    (flags & MAP_SHARED) && (protection & PROT_WRITE),offset };
  w->inodes[d->inode].references++;
  finish(&a);
  return(base);
}

void *seam_mmap64(void *address,size_t length,int protection,int flags,int fd,off_t offset)
{
  return(seam_mmap(address,length,protection,flags,fd,offset));
}

static void store(mapping *m)
{
  size_t n=m->length,size=w->inodes[m->inode].size;
  if (!m->shared)
    return;
  if (m->offset >= (off_t) size)
    return;
  if (n > size-m->offset)
    n=size-m->offset;
  memcpy(data(m->inode)+m->offset,m->base,n);
}

int seam_munmap(void *base,size_t length)
{
  int i;
  for (i=0; i < 16; i++)
    if (mappings[i].base == base && base)
      {
        store(&mappings[i]);
        drop(mappings[i].inode);
        mappings[i].base=NULL;
        break;
      }
  return(munmap(base,length));
}

int seam_msync(void *base,size_t length,int flags)
{
  int i;
  for (i=0; i < 16; i++)
    if (mappings[i].base == base && base)
      {
        sim_answer a=announce(SIM_SYNC,name_of(mappings[i].inode),length,0);
        FAULT(a);
        store(&mappings[i]);
        finish(&a);
        return(0);
      }
  return(msync(base,length,flags));
}

/*
  Streams: the C library's own buffering over simulated descriptors.
*/
static ssize_t stream_read(void *cookie,char *buffer,size_t count)
{
  return(seam_read((int) (intptr_t) cookie,buffer,count));
}

static ssize_t stream_write(void *cookie,const char *buffer,size_t count)
{
  ssize_t r,n=0;
  while (n < (ssize_t) count)
  {
    /* as the C library does for a real descriptor: repeat short writes */
    r=seam_write((int) (intptr_t) cookie,buffer+n,count-n);
    if (r < 0)
      return(n > 0 ? n : 0);
    n+=r;
  }
  return(n);
}

static int stream_seek(void *cookie,off64_t *offset,int whence)
{
  off_t r=seam_lseek((int) (intptr_t) cookie,*offset,whence);
  if (r == -1)
    return(-1);
  *offset=r;
  return(0);
}

static int stream_close(void *cookie)
{
  return(seam_close((int) (intptr_t) cookie));
}

FILE *seam_fdopen(int fd,const char *mode)
{
  descriptor *d=get(fd);
  if (!d)
    return(fdopen(fd,mode));
  d->stream=fopencookie((void *) (intptr_t) fd,mode,(cookie_io_functions_t)
    { stream_read,stream_write,stream_seek,stream_close });
  return(d->stream);
}

FILE *seam_fopen(const char *path,const char *mode)
{
  int fd,flags=0;
  if (!in_sim(path))
    return(fopen(path,mode));
  flags=strchr(mode,'+') ? O_RDWR : *mode == 'r' ? O_RDONLY : O_WRONLY;
  if (*mode == 'w')
    flags|=O_CREAT|O_TRUNC;
  if (*mode == 'a')
    flags|=O_CREAT|O_APPEND;
  if (strchr(mode,'x'))
    flags|=O_EXCL;
  fd=seam_open(path,flags,0666);
  if (fd < 0)
    return(NULL);
  return(seam_fdopen(fd,mode));
}

FILE *seam_fopen64(const char *path,const char *mode) { return(seam_fopen(path,mode)); }

int seam_fileno(FILE *file)
{
  int i;
  for (i=0; i < FDS; i++)
    if (fds[i].used && fds[i].stream == file && file)
      return(FD_BASE+i);
  return(fileno(file));
}

static int temporary(char *template)
{
  static const char letters[]="abcdefghijklmnopqrstuvwxyz";
  size_t n=strlen(template);
  int i;
  for (i=0; i < 600; i++)
  {
    int fd;
    snprintf(template+n-6,7,"t%c%c%02dz",letters[i % 26],letters[i/26],self < 0 ? 9 : self);
    if (find(template))
      continue;
    fd=seam_open(template,O_RDWR|O_CREAT|O_EXCL,0600);
    if (fd != -1 || errno != EEXIST)
      return(fd);
  }
  errno=EEXIST;
  return(-1);
}

int seam_mkstemp(char *template)
{
  return(in_sim(template) ? temporary(template) : mkstemp(template));
}

int seam_mkstemp64(char *template) { return(seam_mkstemp(template)); }

int seam_chmod(const char *path,mode_t mode)
{
  entry *e;
  if (!in_sim(path))
    return(chmod(path,mode));
  e=find(path);
  if (e)
    {
      w->inodes[e->inode].mode=mode & 0777;
      return(0);
    }
  errno=ENOENT;
  return(-1);
}

int seam_fchmod(int fd,mode_t mode)
{
  descriptor *d=get(fd);
  if (!d)
    return(fchmod(fd,mode));
  w->inodes[d->inode].mode=mode & 0777;
  return(0);
}

int seam_utime(const char *path,const struct utimbuf *times)
{
  entry *e;
  if (!in_sim(path))
    return(utime(path,times));
  e=find(path);
  if (e)
    {
      w->inodes[e->inode].mtime=times ? times->modtime : (long) (w->clock/1000000);
      return(0);
    }
  errno=ENOENT;
  return(-1);
}

int seam_fcntl(int fd,int command,...)
{
  va_list list;
  void *argument;
  va_start(list,command);
  argument=va_arg(list,void *);
  va_end(list);
  if (get(fd))
    {
      sim_answer a=announce(SIM_OTHER,name_of(get(fd)->inode),0,0);
      FAULT(a);
      return(0);
    }
  return(fcntl(fd,command,argument));
}

ssize_t seam_readlink(const char *path,char *buffer,size_t size)
{
  if (!in_sim(path))
    return(readlink(path,buffer,size));
  errno=EINVAL;
  return(-1);
}

char *seam_realpath(const char *path,char *resolved)
{
  if (!in_sim(path))
    return(realpath(path,resolved));
  if (!find(path))
    {
      errno=ENOENT;
      return(NULL);
    }
  path=clean(path);
  return(resolved ? strcpy(resolved,path) : strdup(path));
}

/*
  Time, processes, entropy.
*/
static void sleep_for(uint64_t microseconds)
{
  if (self >= 0)
    w->procs[self].wake=w->clock+microseconds;
  announce(SIM_SLEEP,"",microseconds,0);
  if (self >= 0)
    w->procs[self].wake=0;
  else
    w->clock+=microseconds;
}

int seam_usleep(useconds_t microseconds)
{
  if (!w)
    return(usleep(microseconds));
  sleep_for(microseconds);
  return(0);
}

unsigned int seam_sleep(unsigned int seconds)
{
  if (!w)
    return(sleep(seconds));
  sleep_for(seconds*1000000ULL);
  return(0);
}

int seam_nanosleep(const struct timespec *t,struct timespec *rest)
{
  if (!w)
    return(nanosleep(t,rest));
  sleep_for(t->tv_sec*1000000ULL+t->tv_nsec/1000);
  return(0);
}

time_t seam_time(time_t *t)
{
  time_t now=w ? (time_t) (w->clock/1000000) : time(NULL);
  if (t)
    *t=now;
  return(now);
}

int seam_gettimeofday(struct timeval *t,void *zone)
{
  if (!w)
    return(gettimeofday(t,zone));
  t->tv_sec=w->clock/1000000;
  t->tv_usec=w->clock % 1000000;
  return(0);
}

pid_t seam_getpid(void)
{
  return(self >= 0 ? w->procs[self].pid : w ? 4000 : getpid());
}

__attribute__((weak)) pthread_t seam_pthread_self(void)
{
  return(self >= 0 ? (pthread_t) w->procs[self].tid : pthread_self());
}

int sim_alive(int pid)
{
  int i;
  for (i=0; i < SIM_PROCS; i++)
    if (w->procs[i].used && w->procs[i].pid == pid && !w->procs[i].ended)
      return(1);
  return(0);
}

int seam_kill(pid_t pid,int signal)
{
  sim_answer a;
  if (!w)
    return(kill(pid,signal));
  a=announce(SIM_KILL,"",pid,0);
  FAULT(a);
  if (signal == 0 && (sim_alive(pid) || (self < 0 && pid == 4000)))
    return(0);
  errno=ESRCH;
  return(-1);
}

int sim_announce_entropy;

int seam_getentropy(void *buffer,size_t length)
{
  unsigned char *p=buffer;
  uint64_t x;
  size_t i;
  if (!w)
    return(getentropy(buffer,length));
  if (sim_announce_entropy)
    {
      sim_answer a=announce(SIM_ENTROPY,"/sim",length,0);
      FAULT(a);
      finish(&a);
    }
  x=++w->entropy;
  for (i=0; i < length; i++)
  {
    x=x*6364136223846793005ULL+1442695040888963407ULL;
    p[i]=x >> 53;
  }
  return(0);
}

long sim_ticks=100,sim_user_ticks;

clock_t seam_clock(void) { return(w ? 1000 : clock()); }

clock_t seam_times(struct tms *t)
{
  if (!w)
    return(times(t));
  memset(t,0,sizeof(*t));
  t->tms_utime=sim_user_ticks;
  return(sim_ticks);
}

int seam_getrusage(int who,struct rusage *u)
{
  if (!w)
    return(getrusage(who,u));
  memset(u,0,sizeof(*u));
  return(0);
}

/*
  Simulated processes.
*/
int sim_spawn(void (*run)(void *),void *context,int pid,int tid)
{
  process *p;
  int i,tries=0;
  pid_t child;
  for (i=0; i < SIM_PROCS && w->procs[i].used; i++) ;
  if (i == SIM_PROCS)
    abort();
  p=&w->procs[i];
  memset(p,0,sizeof(*p));
  p->used=1;
  p->pid=pid;
  p->tid=tid;
  sem_init(&p->announced,1,0);
  sem_init(&p->answered,1,0);
  memset(w->results[i],0,256);
  while ((child=fork()) == -1 && (errno == EAGAIN || errno == ENOMEM) && tries++ < 200)
    usleep(10000);
  if (child == -1)
    {
      perror("fork");
      abort();
    }
  if (child == 0)
    {
      prctl(PR_SET_PDEATHSIG,SIGKILL);
      self=i;
      sim_hook=NULL;
      sim_calls=0;
      sim_result=w->results[i];
      run(context);
      p->ended=1;
      sem_post(&p->announced);
      _exit(0);
    }
  p->real=child;
  sim_wait(i);
  return(i);
}

static void unlock(process *p)
{
  int i;
  for (i=0; i < FILES_MAX; i++)
    if (w->inodes[i].locker/1000 == (int) (p-w->procs)+2)
      w->inodes[i].locker=0;
}

static void reap(process *p)
{
  int status=0;
  if (p->real > 0)
    {
      while (waitpid(p->real,&status,0) == -1 && errno == EINTR) ;
      p->status=status;
      p->real=0;
    }
  p->ended=1;
  unlock(p);
}

int sim_wait(int proc)
{
  process *p=&w->procs[proc];
  struct timespec t;
  int status;
  while (!(p->ended && p->real == 0))
  {
    clock_gettime(CLOCK_REALTIME,&t);
    t.tv_nsec+=2000000;
    if (t.tv_nsec >= 1000000000)
      {
        t.tv_nsec-=1000000000;
        t.tv_sec++;
      }
    if (sem_timedwait(&p->announced,&t) == 0)
      {
        if (!p->ended)
          return(1);
        reap(p);
        return(0);
      }
    if (waitpid(p->real,&status,WNOHANG) == p->real)
      {
        p->real=0;
        p->status=status;
        p->ended=1;
        unlock(p);
      }
  }
  return(0);
}

const sim_call *sim_pending(int proc)
{
  return(w->procs[proc].ended ? NULL : &w->procs[proc].call);
}

void sim_go(int proc,const sim_answer *answer)
{
  process *p=&w->procs[proc];
  static const sim_answer fine={ 0,SIZE_MAX,0 };
  p->answer=answer ? *answer : fine;
  sem_post(&p->answered);
  sim_wait(proc);
}

void sim_stop(int proc)
{
  process *p=&w->procs[proc];
  if (p->used && p->real > 0)
    {
      kill(p->real,SIGKILL);
      reap(p);
    }
  p->ended=1;
}

unsigned char *sim_output(int proc) { return(w->results[proc]); }

int sim_status(int proc) { return(w->procs[proc].status); }

int sim_asleep(int proc)
{
  process *p=&w->procs[proc];
  return(!p->ended && p->call.op == SIM_SLEEP && p->wake > w->clock);
}

void sim_advance(void)
{
  uint64_t next=UINT64_MAX;
  int i;
  for (i=0; i < SIM_PROCS; i++)
    if (w->procs[i].used && sim_asleep(i) && w->procs[i].wake < next)
      next=w->procs[i].wake;
  if (next != UINT64_MAX)
    w->clock=next;
}

void sim_end(void)
{
  int i;
  for (i=0; i < SIM_PROCS; i++)
    if (w->procs[i].used)
      {
        sim_stop(i);
        sem_destroy(&w->procs[i].announced);
        sem_destroy(&w->procs[i].answered);
        w->procs[i].used=0;
      }
}

static void explain(const char *what,int status)
{
  if (WIFSIGNALED(status))
    mc_fail("%s: the process died of signal %d",what,WTERMSIG(status));
  if (WIFEXITED(status) && WEXITSTATUS(status) != 0)
    mc_fail("%s: the process stopped itself with status %d%s",what,WEXITSTATUS(status),
      WEXITSTATUS(status) == 77 ? " (memory error)" : "");
}

int sim_run(void (*run)(void *),void *context,int pid,
  void (*decide)(int,const sim_call *,sim_answer *),long most,const char *what)
{
  int proc=sim_spawn(run,context,pid,pid),i,crashed=0;
  const sim_call *c;
  sim_answer a;
  for (i=0; (c=sim_pending(proc)) != NULL; i++)
  {
    if (i >= most)
      {
        sim_stop(proc);
        mc_fail("%s: no end after %ld system calls",what,most);
      }
    a=(sim_answer) { 0,SIZE_MAX,0 };
    if (decide)
      decide(i,c,&a);
    if (sim_asleep(proc))
      sim_advance();
    if (mc_noting())
      mc_note("  [%d] %s %s %zu%s%s\n",pid,sim_op_name[c->op],c->path,c->size,
        a.error ? " fails" : a.limit != SIZE_MAX ? " partly" : "",a.crash ? ", crash" : "");
    crashed|=a.crash;
    sim_go(proc,&a);
  }
  if (!crashed)
    explain(what,sim_status(proc));
  w->procs[proc].used=0;
  sem_destroy(&w->procs[proc].announced);
  sem_destroy(&w->procs[proc].answered);
  return(proc);
}

void sim_schedule(int procs,void (*decide)(int,const sim_call *,sim_answer *),
  void (*step)(int,const sim_call *),long most)
{
  int current=-1,order[SIM_PROCS],n,i,k;
  long steps;
  for (steps=0; ; steps++)
  {
    sim_call c;
    sim_answer a={ 0,SIZE_MAX,0 };
    int live=0;
    if (steps > most)
      mc_fail("no end after %ld system calls",most);
    for (i=0; i < procs; i++)
      live+=sim_pending(i) != NULL;
    if (live == 0)
      break;
    for (;;)
    {
      n=0;
      if (current >= 0 && sim_pending(current) && !sim_asleep(current))
        order[n++]=current;
      for (i=0; i < procs; i++)
        if (i != current && sim_pending(i) && !sim_asleep(i))
          order[n++]=i;
      if (n)
        break;
      sim_advance();
    }
    if (n > 1)
      {
        if (current >= 0 && order[0] == current)
          k=mc_deviate(n,"next process");
        else
          k=mc_choose(n,"next process");
        current=order[k];
      }
    else
      current=order[0];
    c=*sim_pending(current);
    if (decide)
      decide(current,&c,&a);
    if (mc_noting())
      mc_note("  [%c] %s %s %zu%s%s\n",'A'+current,sim_op_name[c.op],c.path,c.size,
        a.error ? " fails" : a.limit != SIZE_MAX ? " partly" : "",a.crash ? ", killed" : "");
    mc_observe_int(current*64+c.op+(a.error != 0)*1024+a.crash*2048);
    sim_go(current,&a);
    mc_transition();
    if (!sim_pending(current) && !a.crash)
      explain("running",sim_status(current));
    if (step)
      step(current,&c);
  }
}

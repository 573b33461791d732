// Faults of system calls: the library is linked with --wrap for the calls below. Between arm() and disarm() the calls
// are counted, and the call number `at` fails (mode 0), it and all later ones of its kind fail (1), it is done partly (2),
// partly with all later ones failing (3), or it is interrupted (4). Outside of that all calls are real.
#pragma once
#include <stdarg.h>
#include <stdint.h>
#include <fcntl.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <dirent.h>

enum { FK_READ,FK_WRITE,FK_OPEN,FK_MMAP,FK_TRUNC,FK_STAT,FK_CLOSE,FK_MUNMAP,FK_MKDIR,FK_OPENDIR,FK_N };
static struct { bool armed; long n,at; int mode,mask,kind; bool hit; } g_fault;

static inline void fault_arm(long at,int mode,int mask) { g_fault.n = 0; g_fault.at = at; g_fault.mode = mode; g_fault.mask = mask; g_fault.kind = -1; g_fault.hit = false; g_fault.armed = true; }
static inline long fault_disarm() { g_fault.armed = false; return g_fault.n; }
// 0 = do the call, 1 = fail, 2 = do a part
static inline int fault_now(int kind,int err)
{
    if (!g_fault.armed || !(g_fault.mask >> kind & 1)) return 0;
    long i = g_fault.n++;
    int m = g_fault.mode;
    if (g_fault.hit)
    {
        if ((m == 1 || m == 3) && kind == g_fault.kind) { errno = err; return 1; }
        return 0;
    }
    if (i != g_fault.at) return 0;
    g_fault.hit = true; g_fault.kind = kind;
    if ((m == 2 || m == 3) && (kind == FK_READ || kind == FK_WRITE)) return 2;
    errno = m == 4 ? EINTR : err;
    return 1;
}
extern "C" {
ssize_t __real_read(int,void *,size_t);
ssize_t __real___read_chk(int,void *,size_t,size_t);
ssize_t __real_write(int,const void *,size_t);
int __real_open(const char *,int,...);
int __real_creat(const char *,mode_t);
void *__real_mmap(void *,size_t,int,int,int,off_t);
int __real_munmap(void *,size_t);
int __real_ftruncate(int,off_t);
int __real_fstat(int,struct stat *);
int __real_stat(const char *,struct stat *);
int __real_close(int);
int __real_mkdir(const char *,mode_t);
DIR *__real_opendir(const char *);
ssize_t __wrap_read(int fd,void *p,size_t n) { int f = fault_now(FK_READ,EIO); if (f == 1) return -1; return __real_read(fd,p,f == 2 && n > 1 ? n/2 : n); }
ssize_t __wrap___read_chk(int fd,void *p,size_t n,size_t k) { int f = fault_now(FK_READ,EIO); if (f == 1) return -1; return __real___read_chk(fd,p,f == 2 && n > 1 ? n/2 : n,k); }
ssize_t __wrap_write(int fd,const void *p,size_t n) { int f = fault_now(FK_WRITE,ENOSPC); if (f == 1) return -1; return __real_write(fd,p,f == 2 && n > 1 ? n/2 : n); }
int __wrap_open(const char *fn,int flags,...)
{
    va_list a; va_start(a,flags); int mode = (flags & (O_CREAT|O_TMPFILE)) ? va_arg(a,int) : 0; va_end(a);
    if (fault_now(FK_OPEN,EMFILE)) return -1;
    return __real_open(fn,flags,mode);
}
int __wrap_creat(const char *fn,mode_t m) { if (fault_now(FK_OPEN,ENOSPC)) return -1; return __real_creat(fn,m); }
void *__wrap_mmap(void *a,size_t n,int p,int f,int fd,off_t o) { if (fault_now(FK_MMAP,ENOMEM)) return MAP_FAILED; return __real_mmap(a,n,p,f,fd,o); }
int __wrap_munmap(void *a,size_t n) { if (fault_now(FK_MUNMAP,ENOMEM)) { int e = errno; __real_munmap(a,n); errno = e; return -1; } return __real_munmap(a,n); }
int __wrap_ftruncate(int fd,off_t n) { if (fault_now(FK_TRUNC,ENOSPC)) return -1; return __real_ftruncate(fd,n); }
int __wrap_fstat(int fd,struct stat *s) { if (fault_now(FK_STAT,EIO)) return -1; return __real_fstat(fd,s); }
int __wrap_stat(const char *fn,struct stat *s) { if (fault_now(FK_STAT,EIO)) return -1; return __real_stat(fn,s); }
int __wrap_close(int fd) { if (fault_now(FK_CLOSE,EIO)) { __real_close(fd); errno = EIO; return -1; } return __real_close(fd); }
int __wrap_mkdir(const char *p,mode_t m) { if (fault_now(FK_MKDIR,ENOSPC)) return -1; return __real_mkdir(p,m); }
DIR *__wrap_opendir(const char *p) { if (fault_now(FK_OPENDIR,EMFILE)) return nullptr; return __real_opendir(p); }
}

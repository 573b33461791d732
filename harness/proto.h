// Request/response loop shared by all drivers.
// Every request runs in a forked child, in a fresh scratch directory, so a crash, failed assertion, exit()
// or CPU-limit overrun of the code under test is an observed result and no state survives into the next case.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <map>
#include <string>
#include <vector>
#include <functional>
#include <alloca.h>
#include <signal.h>
#include "fault.h"

typedef std::vector<std::string> Blobs;

struct Args
{
    const Blobs &b; size_t i;
    Args(const Blobs &b_,size_t start = 1) : b(b_),i(start) {}
    bool more() const { return i < b.size(); }
    const std::string &str() { static std::string empty; return i < b.size() ? b[i++] : empty; }
    long long num() { return strtoll(str().c_str(),nullptr,10); }
    unsigned long long unum() { return strtoull(str().c_str(),nullptr,10); }
};

struct Out
{
    Blobs b;
    Out &str(const std::string &s) { b.push_back(s); return *this; }
    Out &cstr(const char *s) { b.push_back(s ? std::string("=")+s : std::string("~")); return *this; } // ~ = null
    Out &num(long long v) { b.push_back(std::to_string(v)); return *this; }
    Out &unum(unsigned long long v) { b.push_back(std::to_string(v)); return *this; }
    Out &bin(const void *p,size_t n) { b.push_back(std::string((const char *)p,n)); return *this; }
};

typedef std::function<void(Args &,Out &)> Handler;

static inline bool rd_all(int fd,void *p,size_t n)
{
    char *c = (char *)p;
    while (n > 0) { ssize_t r = __real_read(fd,c,n); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; c += r; n -= r; }
    return true;
}
static inline bool wr_all(int fd,const void *p,size_t n)
{
    const char *c = (const char *)p;
    while (n > 0) { ssize_t r = __real_write(fd,c,n); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; c += r; n -= r; }
    return true;
}
static inline void put32(std::string &s,uint32_t v) { s.append((const char *)&v,4); }

static inline Blobs unpack(const std::string &s)
{
    Blobs out; size_t p = 0;
    while (p+4 <= s.size()) { uint32_t n; memcpy(&n,s.data()+p,4); p += 4; out.push_back(s.substr(p,n)); p += n; }
    return out;
}
static inline std::string pack(const Blobs &b)
{
    std::string s; for (auto &x : b) { put32(s,x.size()); s += x; } return s;
}

// With DRV_RAND=n in environment every allocated block and the free part of stack start with pseudo-random content:
// what a longer-living process would leave there. Nothing observable may depend on it.
static uint64_t g_rand = 0;
__attribute__((no_sanitize("address"))) static inline void rand_fill(void *p,size_t n)
{
    if (!g_rand || !p) return;
    if (n > (1u << 20)) n = 1u << 20;
    char *c = (char *)p;
    for(size_t i = 0;i < n;i++)
    {
        if ((i & 7) == 0) { g_rand ^= g_rand << 13; g_rand ^= g_rand >> 7; g_rand ^= g_rand << 17; }
        c[i] = (char)(g_rand >> (8*(i & 7)));
    }
}
extern "C" void *__real_malloc(size_t);
extern "C" void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); rand_fill(p,n); return p; }
void *operator new(size_t n) { return __wrap_malloc(n ? n : 1); }
void *operator new[](size_t n) { return __wrap_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p,size_t) noexcept { free(p); }
void operator delete[](void *p,size_t) noexcept { free(p); }
__attribute__((noinline,no_sanitize("address"))) static void rand_stack()
{
    if (!g_rand) return;
    volatile char *p = (volatile char *)alloca(300000);
    for(size_t i = 0;i < 300000;i++) { if ((i & 7) == 0) { g_rand ^= g_rand << 13; g_rand ^= g_rand >> 7; g_rand ^= g_rand << 17; } p[i] = (char)(g_rand >> (8*(i & 7))); }
}

// operations of faults shared by all drivers
static inline bool fault_op(const std::string &op,Args &a,Out &o)
{
    if (op == "arm") { long at = a.num(); int mode = a.num(),mask = a.num(); fault_arm(at,mode,mask); return true; }
    if (op == "disarm") { o.num(fault_disarm()).num(g_fault.hit ? g_fault.kind : -1); return true; }
    if (op == "flimit") // files cannot grow over the limit; < 0 = no limit
    {
        long n = a.num(); signal(SIGXFSZ,SIG_IGN);
        struct rlimit rl; getrlimit(RLIMIT_FSIZE,&rl); rl.rlim_cur = n < 0 ? rl.rlim_max : (rlim_t)n; setrlimit(RLIMIT_FSIZE,&rl); return true;
    }
    if (op == "flimit_rel") // room behind the current end of file
    {
        std::string fn = a.str(); long n = a.num(); struct stat st; if (__real_stat(fn.c_str(),&st) != 0) st.st_size = 0; signal(SIGXFSZ,SIG_IGN);
        struct rlimit rl; getrlimit(RLIMIT_FSIZE,&rl); rl.rlim_cur = st.st_size+n; setrlimit(RLIMIT_FSIZE,&rl); return true;
    }
    return false;
}

static int rm_cb(const char *p,const struct stat *,int,struct FTW *) { chmod(p,0700); remove(p); return 0; }
static inline void rm_tree(const char *p) { nftw(p,rm_cb,16,FTW_DEPTH|FTW_PHYS); }

static int g_result_fd = -1;
// part results survive a later crash in the same case
static inline void flush_out(Out &o) { std::string s = pack(o.b); if (!s.empty()) wr_all(g_result_fd,s.data(),s.size()); o.b.clear(); }

static inline int proto_main(int argc,char **argv,const std::map<std::string,Handler> &handlers)
{
    // argv[1] = scratch base directory, argv[2] = cpu limit seconds
    if (argc < 3) { fprintf(stderr,"usage: driver SCRATCH CPU_SECONDS\n"); return 2; }
    std::string base = argv[1]; int cpu = atoi(argv[2]);
    signal(SIGPIPE,SIG_IGN);
    int in = dup(0),out = dup(1);
    int devnull = open("/dev/null",O_RDWR); dup2(devnull,0);
    std::string casedir = base+"/case";
    for(;;)
    {
        uint32_t len;
        if (!rd_all(in,&len,4)) return 0;
        std::string req(len,'\0');
        if (!rd_all(in,&req[0],len)) return 0;
        int p[2]; if (pipe(p) != 0) return 3;
        int log = memfd_create("log",0);
        mkdir(casedir.c_str(),0700);
        pid_t pid = fork();
        if (pid == 0)
        {
            close(p[0]); close(in); close(out);
            dup2(log,1); dup2(log,2);
            setvbuf(stdout,nullptr,_IONBF,0);
            struct rlimit rl = {(rlim_t)cpu,(rlim_t)cpu+2}; setrlimit(RLIMIT_CPU,&rl);
            struct rlimit rc = {0,0}; setrlimit(RLIMIT_CORE,&rc);
            struct rlimit rf = {1u<<30,1u<<30}; setrlimit(RLIMIT_FSIZE,&rf);
            if (chdir(casedir.c_str()) != 0) _exit(97);
            g_result_fd = p[1];
            Blobs b = unpack(req); Out o;
            auto h = handlers.find(b.empty() ? "" : b[0]);
            if (h == handlers.end()) _exit(98);
            Args a(b);
            if (getenv("DRV_RAND")) { g_rand = strtoull(getenv("DRV_RAND"),nullptr,10)*0x9E3779B97F4A7C15ull | 1; rand_stack(); }
            h->second(a,o);
            o.str("@END");
            flush_out(o);
            _exit(0);
        }
        close(p[1]);
        std::string res; char buf[65536];
        for(;;) { ssize_t r = read(p[0],buf,sizeof(buf)); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; res.append(buf,r); }
        close(p[0]);
        int status = 0; while (waitpid(pid,&status,0) < 0 && errno == EINTR) {}
        std::string logs;
        {
            off_t sz = lseek(log,0,SEEK_END); off_t from = 0; size_t n = sz;
            bool clean = WIFEXITED(status) && WEXITSTATUS(status) == 0;
            size_t lim = clean && !getenv("DRV_LOG") ? 0 : 24000;
            if (n > lim) n = lim; // head: the sanitizer report starts there unless the library was chatty
            if ((size_t)sz > n && !clean) from = sz-n;
            logs.resize(n); if (n && pread(log,&logs[0],n,from) < 0) {}
            close(log);
        }
        rm_tree(casedir.c_str());
        std::string resp; put32(resp,(uint32_t)status); put32(resp,logs.size()); resp += logs; resp += res;
        std::string hdr; put32(hdr,resp.size());
        if (!wr_all(out,hdr.data(),4) || !wr_all(out,resp.data(),resp.size())) return 0;
    }
}

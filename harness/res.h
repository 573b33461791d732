// What the process holds at the moment: open files, mapped files of the scratch directory, blocks of heap.
#pragma once
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *,size_t),void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
#include <dirent.h>
#include <atomic>
static std::atomic<long> g_live_blocks{0},g_live_bytes{0};
static void res_malloc(const volatile void *p,size_t n) { if (p) { g_live_blocks++; g_live_bytes += n; } }
static void res_free(const volatile void *p) { if (p) { g_live_blocks--; g_live_bytes -= __sanitizer_get_allocated_size(p); } }
struct Held { long fds,maps,mapped,blocks,bytes; };
static inline Held res_now()
{
    static bool on = false; if (!on) { on = true; __sanitizer_install_malloc_and_free_hooks(res_malloc,res_free); }
    Held h = {0,0,0,g_live_blocks,g_live_bytes};
    for(int fd = 0;fd < 1024;fd++) if (fcntl(fd,F_GETFD) >= 0) h.fds++;
    char cwd[4096]; if (!getcwd(cwd,sizeof(cwd))) _exit(89);
    size_t n = strlen(cwd);
    int fd = __real_open("/proc/self/maps",O_RDONLY); static char buf[1 << 20]; size_t k = 0;
    if (fd < 0) _exit(89);
    for(;;) { ssize_t r = __real_read(fd,buf+k,sizeof(buf)-1-k); if (r <= 0) break; k += r; }
    __real_close(fd); buf[k] = '\0';
    for(char *l = buf;*l;)
    {
        char *e = strchr(l,'\n'); if (e) *e = '\0';
        char *p = strchr(l,'/');
        if (p && strncmp(p,cwd,n) == 0) { unsigned long a = 0,b = 0; sscanf(l,"%lx-%lx",&a,&b); h.maps++; h.mapped += b-a; }
        if (!e) break;
        l = e+1;
    }
    return h;
}
static bool g_quiet = false;    // results are not sent
// The same operations n times in one process: what is held after each of them and a hash of their results.
template<class F> static inline void rep(Args &a,Out &o,F run)
{
    int n = a.num(); std::string sub = a.str(); if (n > 16) n = 16;
    static Held held[16]; static uint64_t res[16]; static long count[16]; bool q = g_quiet;
    for(int i = 0;i < n;i++)
    {
        {
            Blobs b = unpack(sub); Out t; Args s(b,0); g_quiet = true; run(s,t); g_quiet = q;
            res[i] = 1469598103934665603ull; count[i] = t.b.size();
            for(auto &x : t.b) { for(unsigned char c : x) res[i] = (res[i]^c)*1099511628211ull; res[i] = (res[i]^256)*1099511628211ull; }
        }
        held[i] = res_now();
    }
    for(int i = 0;i < n;i++) o.num(held[i].fds).num(held[i].maps).num(held[i].mapped).num(held[i].blocks).num(held[i].bytes).num(count[i]).unum(res[i]);
}

// Opens arbitrary bytes as .xb and uses every reader function on whatever was accepted.
// mmap of a file is replaced by a heap copy of exactly the file's size, so any access outside of the file is an AddressSanitizer report.
#include "xbdump.h"
#include <sys/syscall.h>
#include <binary_xml/bin_xml_creator.h>
#include <binary_xml/bin_xml_packer.h>

static std::map<void*,std::pair<size_t,std::string>> g_maps;
static bool g_guard = false;
extern "C" void *mmap(void *addr,size_t len,int prot,int flags,int fd,off_t off) noexcept
{
    if (g_guard && fd >= 0)
    {
        struct stat st;
        if (fstat(fd,&st) != 0 || off != 0) { errno = EINVAL; return MAP_FAILED; }
        size_t n = len; // the file may be shorter than the mapping: reading behind it would be SIGBUS in the last case
        if ((size_t)st.st_size < n) n = st.st_size;
        char *p = (char *)malloc(n);
        if (pread(fd,p,n,0) != (ssize_t)n) { free(p); errno = EIO; return MAP_FAILED; }
        g_maps[p] = {len,std::string(p,n)};
        return p;
    }
    return (void *)syscall(SYS_mmap,addr,len,prot,flags,fd,off);
}
extern "C" int munmap(void *addr,size_t len) noexcept
{
    auto i = g_maps.find(addr);
    if (i != g_maps.end())
    {
        if (memcmp(addr,i->second.second.data(),i->second.second.size()) != 0) { fprintf(stderr,"Assertion: mapped file was modified by reader\n"); abort(); }
        if (i->second.first != len) { fprintf(stderr,"Assertion: unmapped %zu of %zu bytes\n",len,i->second.first); abort(); }
        free(addr); g_maps.erase(i); return 0;
    }
    return syscall(SYS_munmap,addr,len);
}

static volatile unsigned g_sink;
static void touch(const void *p,size_t n) { const unsigned char *c = (const unsigned char *)p; unsigned s = 0; for(size_t i = 0;i < n;i++) s += c[i]; g_sink += s; }
static void touchs(const char *s) { if (s) touch(s,strlen(s)); }
static const long LIMIT = 3000;
struct Walk { long nodes = 0,bytes = 0; bool over = false; int deepest = 0; };

static void use_item(XB_reader &R,XML_Item *X,Walk &W)
{
    touchs(R.getNodeName(X->name));
    for(int p = -1;p <= X->paramcount;p++)
    {
        if (p > 64 && p < X->paramcount-64) continue;
        XML_Param_Description *P = X->getParamByIndex(p);
        if (!P) { if (p >= 0 && p < X->paramcount) abort(); continue; }
        touchs(R.getParamName(P->name));
        if (X->getParamByName((XML_Param_Names)P->name) == nullptr) abort();
        if (P->type != XBT_BLOB && P->type != XBT_HEX) touchs(P->getString(X)); else P->getString(X);
        g_sink += P->getInt(X);
        auto i = P->getIntPtr(X); if (i) touch(i,4);
        i = P->getInt32Ptr(X,XBT_UNIX_TIME); if (i) touch(i,4);
        auto l = P->getInt64Ptr(X); if (l) touch(l,8);
        auto D = P->getData(X); if (D.data && D.size > 0) touch(D.data,D.size);
        W.bytes += chunks([&](int &off,char *b,int n){ return P->getStringChunk(X,off,b,n);}).size();
    }
    auto s = X->getString(); touchs(s);
    g_sink += X->getInt();
    auto i = X->getIntPtr(); if (i) touch(i,4);
    auto l = X->getInt64Ptr(); if (l) touch(l,8);
    int32_t n = -1; auto b = X->getBinary(&n); if (b) touch(b,n);
    auto D = X->getData(); if (D.data && D.size > 0) touch(D.data,D.size);
    W.bytes += chunks([&](int &off,char *b,int n){ return X->getStringChunk(off,b,n);}).size();
    X->getChildByName((XML_Tag_Names)0); X->getChildByName(XTNR_PAYLOAD); X->getParamByName(XPNR_COUNT);
    if (X->getChildByIndex(-1) || X->getChildByIndex(X->childcount)) abort();
}

static void walk(XB_reader &R,XML_Item *X,Walk &W,int deep,bool byindex)
{
    if (W.over || (W.over = ++W.nodes > LIMIT || W.bytes > 20000000)) return;
    if (deep > W.deepest) W.deepest = deep;
    if (deep > 3000) { fprintf(stderr,"Assertion: tree is deeper than any file of this size can be - endless recursion\n"); abort(); }
    use_item(R,X,W);
    if (byindex)
        for(int i = 0;i < X->childcount && !W.over;i++) walk(R,X->getChildByIndex(i),W,deep+1,true);
    else
        for(int i = 0;!W.over;) { XML_Item *C = X->getNextChild(R,i); if (!C) break; walk(R,C,W,deep+1,false); }
}

struct LimitBuf : std::streambuf
{
    long n = 0; unsigned h = 0;
    int overflow(int c) override { n++; return c; }
    std::streamsize xsputn(const char *s,std::streamsize k) override { touch(s,k); n += k; return k; }
};

static void op_fuzz(Args &a,Out &o)
{
    spit("f.xb",a.str());
    char name[64] = "f.xb";
    g_guard = true;
    XB_reader R(name); R.setVerbosity(0);
    bool ok = R.Initialize();
    if (ok && R.getRoot() == nullptr) ok = false;
    o.num(ok);
    flush_out(o);
    Walk W,V;
    if (ok)
    {
        walk(R,R.getRoot(),W,0,false);
        walk(R,R.doc,V,0,true);
        for(int t = 0;t < 2;t++)
        {
            _XB_symbol_table &T = t ? R.tag_symbols : R.param_symbols;
            for(int i = -20;i < T.count+20 && i < 2000;i++) { touchs(T.getSymbol(i)); g_sink += T.getType(i); }
            for(const char *n : {"","a","zzz","item","\xff\xff","root","m"}) g_sink += T.getID(n);
        }
        if (!W.over && !V.over)
        {
            LimitBuf B; std::ostream os(&B); os << R; W.bytes += B.n;
            struct C { static void f(XML_Item *,void *u,int) { ++*(long *)u; } static void g(XML_Item *,void *u,int,XML_Item **) { ++*(long *)u; } };
            long x = 0,y = 0,z = 0; static XML_Item_Array arr;
            R.doc->ForAllChildrenRecursively(C::f,&x,0);
            R.doc->ForAllChildrenRecursively_PostOrder(C::f,&y,0);
            R.doc->ForAllChildrenRecursively_PostOrderA(C::g,&z,0,arr);
            if (x != y || y != z || x+1 != V.nodes) { fprintf(stderr,"Assertion: walks differ %ld %ld %ld %ld\n",x,y,z,V.nodes); abort(); }
        }
    }
    o.num(W.nodes).num(W.over || V.over);
    if (!R.Finalize()) abort();
    if (!g_maps.empty()) { fprintf(stderr,"Assertion: file stays mapped after Finalize\n"); abort(); }
    g_guard = false;
}

static void op_make(Args &a,Out &o)
{
    std::string tool = a.str(); spit("doc.xml",a.str());
    bool r = tool == "plain" ? Bin_xml_creator::Convert("doc.xml","f.xb") : Bin_xml_packer::Convert("doc.xml","f.xb");
    std::string s; slurp("f.xb",s); o.num(r).str(s);
}

int main(int argc,char **argv) { return proto_main(argc,argv,{{"fuzz",op_fuzz},{"make",op_make}}); }

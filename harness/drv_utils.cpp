// Utility functions, value codecs, sorting, SHA-1 and the JSON tokenizer. One request is a batch: name, arguments, name, ...
// Every text and buffer handed to the code is an exactly sized heap block, so AddressSanitizer sees any excess access.
#include "proto.h"
#include "res.h"
#include <binary_xml/utils.h>
#include <binary_xml/files.h>
#include <binary_xml/missings.h>
#include <binary_xml/bin_xml_types.h>
#include <binary_xml/bin_xml.h>
#include <memory>
#include <sstream>
#include <utime.h>
#include <binary_xml/jsmn/jsmn.h>
using namespace pklib_xml;

typedef std::unique_ptr<char[]> Buf;
static Buf exact(const std::string &s) { Buf b(new char[s.size()+1]); memcpy(b.get(),s.c_str(),s.size()+1); return b; }
static Buf bytes(const std::string &s) { Buf b(new char[s.size()]); memcpy(b.get(),s.data(),s.size()); return b; }

struct CmpArg { int off,len,dir; long calls; const char *lo,*hi; int size; };
static int cmp_key(const void *a,const void *b,void *arg)
{
    CmpArg *c = (CmpArg *)arg; c->calls++;
    int r = memcmp((const char *)a+c->off,(const char *)b+c->off,c->len);
    return c->dir*r;
}

struct Seen { std::string s; int n,stop; };
static bool on_file(const char *dir,const char *name,void *u,uint8_t t)
{
    Seen *s = (Seen *)u; s->s += std::string(dir)+"|"+name+"|"+(t == DT_DIR ? "d" : t == DT_REG ? "f" : t == DT_LNK ? "l" : "?")+"\n";
    s->n++;
    if (s->n & 1) errno = ENOENT; // callback can use other files
    return s->n != s->stop;
}

static void one(const std::string &f,Args &a,Out &o)
{
    // scanners with result ok, value, advance
#define SCAN(NAME,TYPE,CALL,PUT) if (f == NAME) { Buf b = exact(a.str()); const char *p = b.get(); TYPE v = 0; bool ok = CALL(p,v); o.num(ok).PUT(v).num(p-b.get()); return; }
#define SCANW(NAME,TYPE,CALL,PUT) if (f == NAME) { Buf b = exact(a.str()); char *p = b.get(); TYPE v = 0; bool ok = CALL(p,v); o.num(ok).PUT(v).num(p-b.get()); return; }
    SCAN("int",int,ScanInt,num) SCAN("i64",int64_t,ScanInt64,num) SCAN("u64",uint64_t,ScanUInt64,unum) SCAN("x64",uint64_t,ScanUInt64Hex,unum)
    SCAN("ipv4",uint32_t,ScanIPv4,unum) SCAN("utime",uint32_t,ScanUnixTime,unum) SCAN("utime64",int64_t,ScanUnixTime64msec,num) SCAN("udate",int32_t,ScanUnixDate,num)
    SCANW("intw",int,ScanIntW,num) SCANW("i64w",int64_t,ScanInt64W,num) SCANW("u64w",uint64_t,ScanUInt64W,unum)
    if (f == "scan") { Buf b = exact(a.str()),c = exact(a.str()); const char *p = b.get(); bool ok = Scan(p,c.get()); o.num(ok).num(p-b.get()); return; }
    if (f == "scanw") { Buf b = exact(a.str()),c = exact(a.str()); char *p = b.get(); bool ok = ScanW(p,c.get()); o.num(ok).num(p-b.get()); return; }
    if (f == "str" || f == "strw")
    {
        Buf b = exact(a.str()); char sep = a.str()[0]; int size = a.num(); Buf d(new char[size]); memset(d.get(),0x55,size);
        const char *p = b.get(); char *pw = b.get();
        bool ok = f == "str" ? ScanStr(p,sep,d.get(),size) : ScanStrW(pw,sep,d.get(),size);
        int n = strnlen(d.get(),size);
        o.num(ok).num((f == "str" ? p : pw)-b.get()).num(n < size).bin(d.get(),n); return;
    }
    if (f == "spaces") { Buf b = exact(a.str()); const char *p = b.get(); SkipSpaces(p); char *w = b.get(); SkipSpacesW(w); o.num(p-b.get()).num(w-b.get()); return; }
    if (f == "line") { Buf b = exact(a.str()); const char *p = b.get(); bool k = SkipLine(p); char *w = b.get(); bool k2 = SkipLineW(w); o.num(k).num(p-b.get()).num(k2).num(w-b.get()); return; }
    if (f == "go") { Buf b = exact(a.str()); char sep = a.str()[0]; const char *p = b.get(); bool k = Go(p,sep); o.num(k).num(p-b.get()); return; }
    if (f == "adv") { Buf m = exact(a.str()),v = exact(a.str()); o.num(AdvEqual(m.get(),v.get())); return; }
    if (f == "hex") { Buf b = exact(a.str()); int n = a.num(); Buf d(new char[n]); memset(d.get(),0x55,n); const char *p = b.get(); int c = ScanHex(p,(uint8_t *)d.get(),n); o.num(c).bin(d.get(),n).num(p-b.get()); return; }
    if (f == "hex2") { std::string s = a.str(); Buf b = bytes(s); Buf d(new char[2*s.size()+1]); const char *r = Hex2Str(b.get(),s.size(),d.get()); o.num(r == d.get()).cstr(d.get()); return; }
    if (f == "hex3") { std::string s = a.str(); Buf b = bytes(s); Buf d(new char[3*s.size()+1]); const char *r = Hex3Str(b.get(),s.size(),d.get()); o.num(r == d.get()).cstr(d.get()); return; }
    if (f == "guid") { Buf b = bytes(a.str()); Buf d(new char[37]); GUID2Str(b.get(),d.get()); o.cstr(d.get()); return; }
    if (f == "b64e") { std::string s = a.str(); int n = a.num(); Buf b = bytes(s); Buf d(new char[n]); memset(d.get(),0x55,n); char *r = base64_encode((unsigned char *)b.get(),s.size(),d.get(),n); o.num(r == d.get()).bin(d.get(),n); return; }
    if (f == "b64d") { std::string s = a.str(); int n = a.num(); Buf b = bytes(s); Buf d(new char[n]); memset(d.get(),0x55,n); int r = base64_decode((unsigned char *)b.get(),s.size(),d.get(),n); o.num(r).bin(d.get(),n); return; }
    if (f == "eatend") { Buf b = exact(a.str()),e = exact(a.str()); bool k = EatEnd(b.get(),e.get()); o.num(k).cstr(b.get()); return; }
    if (f == "getint") { Buf b = exact(a.str()); o.num(GetInt(b.get())); return; }
    if (f == "version") { Buf b = exact(a.str()); o.unum(GetVersion(b.get())); return; }
    if (f == "strwrite")
    {
        Buf s = exact(a.str()); int n = a.num(); bool lim = a.num(); Buf d(new char[n]); memset(d.get(),0x55,n);
        char *q = d.get(); const char *p = s.get(); int len = strlen(p);
        bool k = StrWrite(q,d.get()+n,p,lim ? p+len : nullptr);
        o.num(k).num(q-d.get()).num(p-s.get()).bin(d.get(),n); return;
    }
    if (f == "ident") { Buf b = exact(a.str()),st = exact(a.str()); o.cstr(MakeIdent(b.get(),st.get())); return; }
    if (f == "identlen") { Buf b = exact(a.str()); o.num(GetIdentLen(b.get())); return; }
    if (f == "streq") { std::string x = a.str(),y = a.str(); o.num(streq(x == "~" ? nullptr : x.c_str(),y == "~" ? nullptr : y.c_str())); return; }
    if (f == "i64s") { char *b = (char *)malloc(40); o.cstr(Int64ToStr(a.num(),b)); free(b); return; }
    // calendar
    if (f == "d2s") { int lo = a.num(),n = a.num(),step = a.num(); std::string s; char b[64]; for (int i = 0; i < n; i++) { char *r = UnixDate2Str((int)(lo+(long long)i*step),b); s += r ? r : "~"; s += '\n'; } o.str(s); return; }
    if (f == "t2s") { char b[64]; char *r = UnixTime642Str(a.num(),b); o.cstr(r ? b : nullptr); return; }
    if (f == "udates") // lines
    {
        std::string all = a.str(),r; size_t p = 0;
        while (p < all.size()) { size_t e = all.find('\n',p); Buf b = exact(all.substr(p,e-p)); const char *q = b.get(); int32_t v = 0; bool k = ScanUnixDate(q,v); r += std::to_string(k ? v : -999999999)+" "+std::to_string(q-b.get())+"\n"; p = e+1; }
        o.str(r); return;
    }
    // file names and files
    if (f == "ext") { std::string n = a.str(),e = a.str(),d = a.str(); char *r = AllocFilenameChangeExt(n.c_str(),e == "~" ? nullptr : e.c_str(),d == "~" ? nullptr : d.c_str()); o.cstr(r); delete [] r; return; }
    if (f == "wfile") { std::string n = a.str(),c = a.str(); o.num(WriteToFile(n.c_str(),"%s",c.c_str())); return; }
    if (f == "put") { std::string n = a.str(),c = a.str(); int fd = open(n.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0644); o.num(fd >= 0 && wr_all(fd,c.data(),c.size())); if (fd >= 0) close(fd); return; }
    if (f == "get") { std::string n = a.str(); int fd = open(n.c_str(),O_RDONLY); std::string r; char b[65536]; ssize_t k; while (fd >= 0 && (k = read(fd,b,sizeof(b))) > 0) r.append(b,k); if (fd >= 0) close(fd); o.num(fd >= 0).str(r); return; }
    if (f == "rfile") { std::string n = a.str(); int size = -77; char *d = ReadFile(n.c_str(),true,&size); o.num(d != nullptr).num(size); if (d) o.bin(d,size+1); else o.str(""); delete [] d; return; }
    if (f == "size") { std::string n = a.str(); o.num(FileGetSize(n.c_str())).num(file_getsize(n.c_str())); int fd = __real_open(n.c_str(),O_RDONLY); o.num(fd >= 0 ? FileGetSizeByFd(fd) : -5); if (fd >= 0) __real_close(fd); return; }
    if (f == "mtime") { std::string n = a.str(); long t = a.num(); struct utimbuf u = {t,t}; utime(n.c_str(),&u); o.num(file_gettime(n.c_str())); return; }
    if (f == "time") { o.num(file_gettime(a.str().c_str())); return; }
    if (f == "exists") { o.num(file_exists(a.str().c_str())); return; }
    if (f == "contents") { std::string n = a.str(); int s = a.num(); Buf d(new char[s]); memset(d.get(),0x55,s); int r = file_get_contents(n.c_str(),d.get(),s); o.num(r).bin(d.get(),s); return; }
    if (f == "force") { o.num(force_directory(a.str().c_str(),0755)); return; }
    if (f == "mkdir") { o.num(mkdir(a.str().c_str(),0755)); return; }
    if (f == "isdir") { struct stat st; o.num(stat(a.str().c_str(),&st) == 0 ? (S_ISDIR(st.st_mode) ? 2 : 1) : 0); return; }
    if (f == "dir") { std::string n = a.str(); Seen s; s.n = 0; s.stop = a.num(); bool k = scan_dir(n.c_str(),&s,on_file); o.num(k).num(s.n).str(s.s); return; }
    if (f == "link") { std::string x = a.str(),y = a.str(); o.num(symlink(x.c_str(),y.c_str())); return; }
    if (f == "share") // shared mappings: write through RW is seen by RO and by the file
    {
        std::string n = a.str(); bool must = a.num(); int size = a.num(); std::string w = a.str(); int at = a.num();
        int fd = -1; char *p = ShareFileRW(n.c_str(),must,&fd,size);
        if (p == nullptr) { o.num(0); return; }
        if (__real_ftruncate(fd,size) == 0) memcpy(p+at,w.data(),w.size());
        int fd2 = -1; char *q = ShareFileRO(n.c_str(),&fd2,size);
        o.num(q != nullptr ? 1 : 2);
        if (q) o.bin(q,size);
        if (q) CloseSharedFile(q,size,fd2,"ro");
        CloseSharedFile(p,size,fd,"rw");
        return;
    }
    // sorting
    if (f == "sort")
    {
        bool merge = a.num(); int size = a.num(),off = a.num(),len = a.num(),dir = a.num(); std::string d = a.str(); Buf b = bytes(d);
        int n = size ? d.size()/size : 0;
        CmpArg c = {off,len,dir,0,0,0,size};
        if (merge) mergesort_r2(b.get(),n,size,cmp_key,&c); else qsort_r2(b.get(),n,size,cmp_key,&c);
        o.bin(b.get(),d.size()).num(c.calls); return;
    }
    // hashes
    if (f == "sha") { std::string d = a.str(); Buf b = bytes(d); unsigned char h[20]; unsigned char *r = SHA1((unsigned char *)b.get(),d.size(),h); o.num(r == h).bin(h,20); return; }
    if (f == "shac")
    {
        std::string d = a.str(); int n = a.num(); blk_SHA_CTX c; blk_SHA1_Init(&c); size_t p = 0;
        for (int i = 0; i < n; i++) { size_t k = a.num(); std::string part = d.substr(p,k); Buf b = bytes(part); blk_SHA1_Update(&c,b.get(),part.size()); p += part.size(); }
        std::string part = d.substr(p); Buf b = bytes(part); blk_SHA1_Update(&c,b.get(),part.size());
        unsigned char h[20]; blk_SHA1_Final(h,&c); o.bin(h,20); return;
    }
    if (f == "shabig") // block repeated count times, then tail
    {
        std::string d = a.str(); long n = a.num(); std::string tail = a.str(); blk_SHA_CTX c; blk_SHA1_Init(&c);
        for (long i = 0; i < n; i++) blk_SHA1_Update(&c,d.data(),d.size());
        blk_SHA1_Update(&c,tail.data(),tail.size()); unsigned char h[20]; blk_SHA1_Final(h,&c); o.bin(h,20); return;
    }
    if (f == "shaf") { unsigned char h[20]; memset(h,0,20); o.num(file_getsha1(a.str().c_str(),h)).bin(h,20); return; }
    if (f == "shapipe") // a fifo filled by pieces: reads come short
    {
        std::string d = a.str(); int n = a.num(); std::vector<int> k; for (int i = 0; i < n; i++) k.push_back(a.num());
        mkfifo("pipe",0600);
        pid_t pid = fork();
        if (pid == 0) { int fd = open("pipe",O_WRONLY); size_t p = 0; for (int x : k) { std::string s = d.substr(p,x); wr_all(fd,s.data(),s.size()); p += s.size(); usleep(3000); } std::string s = d.substr(p); wr_all(fd,s.data(),s.size()); close(fd); _exit(0); }
        unsigned char h[20]; memset(h,0,20); bool ok = file_getsha1("pipe",h); o.num(ok).bin(h,20);
        kill(pid,SIGKILL); int st; waitpid(pid,&st,0); return;
    }
    // value codecs. A binary value is handed over as stored (BLOB, HEX, BLOB_STRING with length in front), 8-aligned
    if (f == "tostr")
    {
        XML_Binary_Type t = (XML_Binary_Type)a.num(); std::string d = a.str(); Buf b = bytes(d);
        const char *s = XBT_ToString(t,b.get()); o.cstr(s); 
        std::ostringstream os; XBT_ToStringStream(t,b.get(),os); o.str(os.str());
        std::ostringstream ox; XBT_ToXMLStream(t,b.get(),ox); o.str(ox.str());
        std::ostringstream oa; XBT_ToXMLStream(t,b.get(),oa,true); o.str(oa.str());
        XBT_Free(); return;
    }
    if (f == "chunks") // text of value printed with given buffer size; 0x55 guard bytes are checked by ASan (exact buffer)
    {
        XML_Binary_Type t = (XML_Binary_Type)a.num(); std::string d = a.str(); Buf b = bytes(d); int n = a.num();
        Buf dst(new char[n]); std::string all; int off = 0,cnt = 0;
        for (;;)
        {
            memset(dst.get(),0x55,n);
            int k = XBT_ToStringChunk(t,b.get(),off,dst.get(),n);
            if (k <= 0) break;
            if (k >= n || strlen(dst.get()) != (size_t)k) { o.str("bad chunk length"); return; }
            all.append(dst.get(),k); if (++cnt > 1000000) { o.str("endless"); return; }
        }
        o.str(all); return;
    }
    if (f == "from") // text, type, start misalignment, room after the start -> ok, bytes written from start (written[0..advance])
    {
        std::string s = a.str(); XML_Binary_Type t = (XML_Binary_Type)a.num(); int mis = a.num(),room = a.num(); Buf src = exact(s);
        Buf buf(new char[mis+room]); memset(buf.get(),0x55,mis+room);
        char *wp = buf.get()+mis; bool ok = XBT_FromString(src.get(),t,&wp,buf.get()+mis+room);
        long adv = wp-(buf.get()+mis);
        o.num(ok).num(adv).bin(buf.get()+mis,ok && adv >= 0 && adv <= room ? adv : 0).num(XBT_SizeFromString(src.get(),t)); return;
    }
    if (f == "copy") // XBT_Copy of a stored value
    {
        XML_Binary_Type t = (XML_Binary_Type)a.num(); std::string d = a.str(); int size = a.num(),mis = a.num(),room = a.num(); Buf b = bytes(d);
        Buf buf(new char[mis+room]); memset(buf.get(),0x55,mis+room);
        char *wp = buf.get()+mis; bool ok = XBT_Copy(b.get(),t,size,&wp,buf.get()+mis+room);
        long adv = wp-(buf.get()+mis); o.num(ok).num(adv).bin(buf.get()+mis,ok && adv <= room ? adv : 0); return;
    }
    if (f == "size2") { int t = a.num(); int n = a.num(); o.num(XBT_Size2((XML_Binary_Type)t,n)).num(XBT_Align((XML_Binary_Type)t)); return; }
    if (f == "detect") { Buf b = exact(a.str()); o.num(XBT_Detect(b.get())); return; }
    if (f == "detect2") { int t = XBT_NULL; int n = a.num(); for (int i = 0; i < n; i++) { Buf b = exact(a.str()); t = XBT_Detect2(b.get(),(XML_Binary_Type)t); } o.num(t); return; }
    if (f == "join") { int x = a.num(),y = a.num(); o.num(XBT_JoinTypes((XML_Binary_Type)x,(XML_Binary_Type)y)); return; }
    if (f == "exact") { Buf b = exact(a.str()); o.num(XBT_IsExact((XML_Binary_Type)a.num(),b.get())); return; }
    if (f == "cmp")
    {
        int t = a.num(); std::string x = a.str(); int u = a.num(); std::string y = a.str(); Buf bx = bytes(x),by = bytes(y);
        o.num(XBT_Compare((XML_Binary_Type)t,bx.get(),x.size(),(XML_Binary_Type)u,by.get(),y.size())); return;
    }
    if (f == "equal") // type, stored bytes (with length in front for variable size), type, stored bytes
    {
        XML_Binary_Data_Ref R[2]; Buf b[2];
        for (int i = 0; i < 2; i++)
        {
            R[i].type = (XML_Binary_Type)a.num(); std::string d = a.str(); b[i] = bytes(d); R[i].data = R[i].content = b[i].get(); R[i].size = R[i].content_size = d.size();
            if (XBT_IS_VARSIZE(R[i].type)) { R[i].content += 4; R[i].content_size -= 4; }
        }
        o.num(XBT_Equal(R[0],R[1])); return;
    }
    // JSON tokenizer: text, number of tokens (-1 = count only)
    if (f == "jsmn")
    {
        std::string s = a.str(); int n = a.num(); Buf b = bytes(s); // not terminated
        jsmn_parser p; jsmn_init(&p); std::unique_ptr<jsmntok_t[]> t(n >= 0 ? new jsmntok_t[n] : nullptr);
        if (n >= 0) memset((void *)t.get(),0x55,n*sizeof(jsmntok_t));
        int r = jsmn_parse(&p,b.get(),s.size(),n >= 0 ? t.get() : nullptr,n >= 0 ? n : 0);
        o.num(r); std::string d;
        for (int i = 0; r > 0 && n >= 0 && i < r && i < n; i++)
            d += std::to_string(t[i].type)+" "+std::to_string(t[i].start)+" "+std::to_string(t[i].end)+" "+std::to_string(t[i].size)+" "
#ifdef JSMN_PARENT_LINKS
                +std::to_string(t[i].parent)+" "
#endif
                +"\n";
        o.str(d); return;
    }
    fprintf(stderr,"unknown command %s\n",f.c_str()); _exit(77);
}

int main(int argc,char **argv)
{
    return proto_main(argc,argv,{{"b",[](Args &a,Out &o)
    {
        while (a.more())
        {
            std::string f = a.str();
            if (f == "rep") rep(a,o,[](Args &a,Out &o) { while (a.more()) { std::string f = a.str(); if (!fault_op(f,a,o)) one(f,a,o); } });
            else if (!fault_op(f,a,o)) one(f,a,o);
            flush_out(o);
        }
    }}});
}

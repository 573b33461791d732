// Interpreter of scripts over BW_plugin / BW_element / XB_reader / Bin_xml_creator. One request is one process.
// Element handles, documents, readers and creators are numbered slots chosen by the script.
#include "xbdump.h"
#include "res.h"
#include <binary_xml/bin_xml_creator.h>
#include <binary_xml/bin_xml_packer.h>
#include <binary_xml/bin_write_plugin.h>
#include <map>
#include <memory>
#include <set>
#include <algorithm>

typedef std::string S;
static std::map<long,BW_plugin*> Ws;
static std::map<long,BW_element*> Es;
static std::map<long,int> Eown;         // document of the handle
static std::map<long,Bin_xml_creator*> Cs;

class KeyReader : public XB_reader
{
public:
    std::set<int> keys;
    KeyReader(char *fn) : XB_reader(fn) {}
    bool ParamIsKey(int p) const override { return keys.count(p) > 0; }
};
struct RD { std::vector<char> name; KeyReader *R; };
static std::map<long,RD> Rs;

static S hex(const void *p,long n)
{
    static const char *d = "0123456789abcdef"; S s; s.reserve(2*n);
    for(long i = 0;i < n;i++) { unsigned char c = ((const unsigned char *)p)[i]; s += d[c >> 4]; s += d[c & 15]; }
    return s;
}

static void val(BW_element *E,S &s)
{
    s += std::to_string((int)E->value_type) + "=";
    XML_Binary_Data_Ref D = E->getData();
    if ((int)D.type != (int)E->value_type) s += "!datatype";
    if (E->value_type == XBT_BLOB_STRING) { s += std::to_string(D.content_size) + ","; s += hex(D.content,strnlen(D.content,D.content_size)); }
    else s += hex(D.data,D.size);
    int al = XBT_Align(static_cast<XML_Binary_Type>(E->value_type));
    if (al > 0 && E->offset % al != 0) s += "!align";
}

static void dumpe(BW_pool *P,BW_element *E,S &s,int deep = 0)
{
    if (deep > 3000) { s += "!deep"; return; }
    if (E->getPool() != P) { s += "!pool"; return; }
    bool el = E->flags & BIN_WRITE_ELEMENT_FLAG;
    s += el ? "E" : "A"; s += std::to_string(E->identification); s += ":";
    const char *n = E->getName(); s += n ? n : "~"; s += ":";
    val(E,s);
    if (!el) return;
    s += "(";
    if (E->first_attribute != 0)
    {
        BW_element *A = E->BWE(E->first_attribute);
        for(int guard = 0;;)
        {
            if (A->flags & BIN_WRITE_ELEMENT_FLAG) s += "!el";
            dumpe(P,A,s,deep+1); s += ";";
            BW_element *N = A->BWE(A->next);
            if (N->prev != A->offset) s += "!link";
            if (A->next == E->first_attribute) break;
            A = N;
            if (++guard > 100000) { s += "!loop"; return; }
        }
    }
    s += ")[";
    std::vector<BW_element*> fw,bw;
    { BW_FOREACH2(E,C) { fw.push_back(C); if (fw.size() > 1000000) { s += "!loop"; return; } } }
    { BW_FOREACH2_REV(E,C) { bw.push_back(C); if (bw.size() > 1000000) { s += "!loop"; return; } } }
    std::reverse(bw.begin(),bw.end());
    if (fw != bw) s += "!order";
    for(auto C : fw)
    {
        if (!(C->flags & BIN_WRITE_ELEMENT_FLAG)) s += "!at";
        if (C->BWE(C->next)->prev != C->offset) s += "!link";
        dumpe(P,C,s,deep+1); s += ";";
    }
    s += "]";
}

static BW_element *el(Args &a) { long h = a.num(); auto i = Es.find(h); return i == Es.end() ? nullptr : i->second; }
static void setel(long h,BW_element *E) { Es[h] = E; }
static XML_Item *item(KeyReader *R,const S &path)
{
    XML_Item *X = R->getRoot();
    for(size_t p = 0;p < path.size() && X;)
    {
        int n = 0; while (p < path.size() && path[p] != '.') n = 10*n+(path[p++]-'0');
        p++;
        int i = 0; XML_Item *C = nullptr;
        for(int k = 0;k <= n;k++) { C = X->getNextChild(*R,i); if (!C) _exit(93); }
        X = C;
    }
    return X;
}
static XML_Binary_Data_Ref ref(int type,S &bytes)
{
    XML_Binary_Data_Ref D; D.type = static_cast<XML_Binary_Type>(type);
    // aligned copy, as the library may read typed values
    void *p = nullptr; if (posix_memalign(&p,16,bytes.size()+1)) _exit(92);
    memcpy(p,bytes.data(),bytes.size()); ((char*)p)[bytes.size()] = 0x7e;
    if (type == XBT_NULL) { free(p); p = nullptr; } D.data = (char*)p; D.size = bytes.size();
    bool var = XBT_IS_VARSIZE(D.type); D.content = var ? D.data+4 : D.data; D.content_size = var ? D.size-4 : D.size;
    return D;
}

static long long sgn(const S &v) { return strtoll(v.c_str(),nullptr,10); }

static BW_element *make(BW_plugin *W,const S &k,int id,S v,Args &a)
{
    BW_pool *P = W->getPool();
    float f; double d;
    if (k == "tag") return W->tag(id);
    if (k == "str") return W->tagStr(id,v.c_str());
    if (k == "strnull") return W->tagStr(id,nullptr);
    if (k == "blob") return W->tagBLOB(id,v.data(),v.size());
    if (k == "blobnull") return W->tagBLOB(id,nullptr,sgn(v));
    if (k == "hex") return W->tagHEX(id,v.data(),v.size());
    if (k == "i32") return W->tagInt32(id,sgn(v));
    if (k == "i64") return W->tagInt64(id,sgn(v));
    if (k == "float") { memcpy(&f,v.data(),4); return W->tagFloat(id,f); }
    if (k == "guid") { GUID_t g; memcpy(g,v.data(),16); return W->tagGUID(id,&g); }
    if (k == "sha1") return W->tagSHA1(id,(const uint8_t *)v.data());
    if (k == "time") return W->tagTime(id,sgn(v));
    if (k == "time64") return W->tagTime64(id,sgn(v));
    if (k == "data") { int t = a.num(); XML_Binary_Data_Ref D = ref(t,v); char *keep = D.data; BW_element *E = W->tagData(id,D); free(keep); return E; }
    if (k == "ptag") return P->tag(id);
    if (k == "pi32") return P->tagInt32(id,sgn(v));
    if (k == "pi64") return P->tagInt64(id,sgn(v));
    if (k == "pstr") return P->tagString(id,v.c_str());
    if (k == "ptime") return P->tagTime(id,sgn(v));
    if (k == "psha1") return P->tagSHA1(id,(const uint8_t *)v.data());
    if (k == "psha1null") return P->tagSHA1(id,nullptr);
    // not implemented for elements: must refuse
    if (k == "u32") return W->tagUInt32(id,sgn(v));
    if (k == "u64") return W->tagUInt64(id,strtoull(v.c_str(),nullptr,10));
    if (k == "double") { memcpy(&d,v.data(),8); return W->tagDouble(id,d); }
    _exit(91);
}

static BW_element *attr(BW_element *E,const S &k,int id,S v,Args &a)
{
    float f; double d;
    if (k == "null") return E->attrNull(id);
    if (k == "str") return E->attrStr(id,v.c_str());
    if (k == "strnull") return E->attrStr(id,nullptr);
    if (k == "str2") { S t = v + "tail"; return E->attrStr2(id,t.data(),t.data()+v.size()); }
    if (k == "blob") return E->attrBLOB(id,v.data(),v.size());
    if (k == "blobnull") return E->attrBLOB(id,nullptr,sgn(v));
    if (k == "hex") return E->attrHEX(id,v.data(),v.size());
    if (k == "i32") { BW_element *A = nullptr; BW_element *r = E->attrInt32(id,sgn(v),&A); return r && !A ? nullptr : r; }
    if (k == "u32") return E->attrUInt32(id,sgn(v));
    if (k == "i64") return E->attrInt64(id,sgn(v));
    if (k == "u64") return E->attrUInt64(id,strtoull(v.c_str(),nullptr,10));
    if (k == "float") { memcpy(&f,v.data(),4); return E->attrFloat(id,f); }
    if (k == "double") { memcpy(&d,v.data(),8); return E->attrDouble(id,d); }
    if (k == "guid") return E->attrGUID(id,v.data());
    if (k == "sha1") return E->attrSHA1(id,v.data());
    if (k == "time") return E->attrTime(id,sgn(v));
    if (k == "time64") return E->attrTime64(id,sgn(v));
    if (k == "data") { int t = a.num(); XML_Binary_Data_Ref D = ref(t,v); char *keep = D.data; BW_element *r = E->attrData(id,D); free(keep); return r; }
    _exit(90);
}

static BW_element *tagset(BW_element *E,const S &k,int id,const S &v)
{
    if (k == "i32") return E->tagSetInt32(id,sgn(v));
    if (k == "i64") return E->tagSetInt64(id,sgn(v));
    if (k == "str") return E->tagSetString(id,v.c_str());
    if (k == "strnull") return E->tagSetString(id,nullptr);
    if (k == "time") return E->tagSetTime(id,sgn(v));
    if (k == "sha1") return E->tagSetSHA1(id,(const uint8_t *)v.data());
    if (k == "sha1null") return E->tagSetSHA1(id,nullptr);
    if (k == "tag") return E->tag(id);
    _exit(89);
}

static void typed(BW_element *E,Out &o)
{
    // every typed accessor of one element
#define G(call,n) do { auto p = E->call(); if (p) o.str("="+hex((const void *)p,n)); else o.str("~"); } while(0)
    G(getInt32,4); G(getFloat,4); G(getTime,4); G(getInt64,8); G(getUInt64,8); G(getGUID,16);
    char *s = E->getStr(); o.cstr(s);
#undef G
}

static void enumer(BW_element *E,long &h,int w)
{
    setel(h++,E);
    if (E->first_attribute) for(BW_element *A = E->BWE(E->first_attribute);;A = E->BWE(A->next)) { setel(h++,A); if (A->next == E->first_attribute) break; }
    BW_FOREACH2(E,C) enumer(C,h,w);
}

static void dict(BW_plugin *W,Out &o)
{
    BW_pool *P = W->getPool();
    for(int t = 0;t < 2;t++)
    {
        SymbolTableTypes T = t == 0 ? SYMBOL_TABLE_NODES : SYMBOL_TABLE_PARAMS;
        BW_symbol_table_16B &tab = t == 0 ? P->tags : P->params;
        int n = W->getSymbolCount(T);
        S s = std::to_string(n) + "|";
        for(int i = 0;i < n;i++)
        {
            XML_Binary_Type ty = XBT_UNKNOWN; const char *name = W->getSymbol(T,i,ty);
            s += std::to_string(i) + ":" + (name ? name : "~") + ":" + std::to_string((int)ty);
            const char *n2 = t == 0 ? P->getTagName(i) : P->getAttrName(i);
            if (!name || !n2 || strcmp(name,n2)) { s += "!name"; s += n2 ? n2 : "~"; }
            if ((t == 0 ? P->getTagType(i) : P->getAttrType(i)) != ty) s += "!type";
            BW_offset_t off = 0; XML_Binary_Type ty2 = XBT_UNKNOWN;
            int id = name ? tab.getByName(P,name,&off,&ty2) : -1;
            if (id != i) s += "!id" + std::to_string(id);
            if (ty2 != ty) s += "!type2:" + std::to_string((int)ty2);
            if (!tab.getType(P,i) || *tab.getType(P,i) != ty) s += "!type3";
            const char *n3 = tab.getName(P,i); if (!n3 || !name || strcmp(n3,name)) s += "!name3";
            s += ";";
        }
        o.str(s);
    }
}

static void readacc(KeyReader *R,XML_Item *X,Out &o,int buf)
{
    o.cstr(R->getNodeName(X->name)).num(X->paramcount);
    for(int p = 0;p < X->paramcount;p++)
    {
        XML_Param_Description *P = X->getParamByIndex(p);
        o.cstr(R->getParamName(P->name)).num(P->type).num(P->getInt(X));
        const int32_t *i = P->getIntPtr(X); if (i) o.num(*i); else o.str("~");
        const int64_t *l = P->getInt64Ptr(X); if (l) o.num(*l); else o.str("~");
        const int32_t *q = P->getInt32Ptr(X,(XML_Binary_Type)P->type); // 4 byte value by its own type only
        const int32_t *q2 = P->getInt32Ptr(X,P->type == XBT_FLOAT ? XBT_UINT32 : XBT_FLOAT);
        o.str((q && XBT_IS_4(P->type) ? hex(q,4) : S("-")) + (q2 && P->type != XBT_STRING ? "!" : ""));
        o.cstr(P->getString(X));
        o.str(chunks([&](int &off,char *b,int n){ return P->getStringChunk(X,off,b,n);},buf));
        put_data(o,P->getData(X));
        XML_Param_Description *F = X->getParamByName((XML_Param_Names)P->name); // the first one of the name
        if (!F || F > P || F->name != P->name) o.str("!first"); else o.num(F - X->getParamByIndex(0));
    }
    XML_Binary_Data_Ref D = X->getData();
    o.num(D.type).num(X->getInt());
    const int32_t *i = X->getIntPtr(); if (i) o.num(*i); else o.str("~");
    const int64_t *l = X->getInt64Ptr(); if (l) o.num(*l); else o.str("~");
    o.cstr(X->getString());
    o.str(chunks([&](int &off,char *b,int n){ return X->getStringChunk(off,b,n);},buf));
    int32_t bs = -1; const void *b = X->getBinary(&bs);
    if (b) o.str("="+S((const char *)b,bs)); else o.str("~");
    put_data(o,D);
    // lookups: index of the first child / attribute of each name, by every id
    S s;
    std::map<XML_Item*,int> pos; std::vector<XML_Item*> ch;
    for(int k = 0;;) { XML_Item *C = X->getNextChild(*R,k); if (!C) break; if (!pos.count(C)) pos[C] = ch.size(); ch.push_back(C); if (ch.size() > 1000000) _exit(95); }
    for(int t = 0;t < R->tag_symbols.count;t++) { XML_Item *C = X->getChildByName((XML_Tag_Names)t); s += C ? std::to_string(pos.count(C) ? pos[C] : -2)+" " : S("- "); }
    s += "|";
    for(int t = 0;t < R->param_symbols.count;t++)
    {
        XML_Param_Description *P = X->getParamByName((XML_Param_Names)t);
        if (!P) { s += "- "; continue; }
        long k = P - X->getParamByIndex(0); s += std::to_string(k) + " ";
    }
    s += X->getParamByIndex(-1) || X->getParamByIndex(X->paramcount) || X->getParamByIndex(INT32_MAX) ? "!P" : "";
    s += X->getChildByIndex(-1) || X->getChildByIndex(X->childcount) || X->getChildByIndex(INT32_MAX) ? "!C" : "";
    s += X->getChildByName((XML_Tag_Names)(R->tag_symbols.count)) ? "!N" : "";
    s += X->getParamByName((XML_Param_Names)(R->param_symbols.count)) ? "!M" : "";
    for(int k = 0;k < X->childcount;k++) if (k < (int)ch.size() && X->getChildByIndex(k) != ch[k] && X->getChildByIndex(k)->name != XTNR_ET_TECERA) { s += "!I"; break; }
    o.str(s).num(ch.size());
    for(auto C : ch) readacc(R,C,o,buf);
}

struct Walk { XB_reader *R; S s; };
static void on_pre(XML_Item *X,void *u,int deep) { Walk *w = (Walk*)u; w->s += std::to_string(deep) + w->R->getNodeName(X->name) + " "; }
static void on_postA(XML_Item *X,void *u,int deep,XML_Item **root)
{
    Walk *w = (Walk*)u; w->s += std::to_string(deep);
    for(int i = 0;i <= deep;i++) { w->s += "/"; w->s += w->R->getNodeName(root[i]->name); }
    w->s += ":"; w->s += w->R->getNodeName(X->name); w->s += " ";
}

static int rm_inner(const char *p,const struct stat *,int,struct FTW *f) { if (f->level > 0) remove(p); return 0; }
static void bw_all(Args &a,Out &o);
static void bw(Args &a,Out &o)
{
    while (a.more())
    {
        S c = a.str();
        if (c == "new") { long w = a.num(); S fn = a.str(); int max = a.num(); int fl = a.num(); Ws[w] = new BW_plugin(fn.c_str(),nullptr,max,fl); o.num(Ws[w]->Initialize()); }
        else if (c == "fin") { long w = a.num(); o.num(Ws[w]->Finalize()); delete Ws[w]; Ws.erase(w); }
        else if (c == "drop") { long w = a.num(); delete Ws[w]; Ws.erase(w); }
        else if (c == "regT") { long w = a.num(); int id = a.num(); S n = a.str(); o.num(Ws[w]->registerTag(id,n.c_str(),(XML_Binary_Type)a.num())); }
        else if (c == "regA") { long w = a.num(); int id = a.num(); S n = a.str(); o.num(Ws[w]->registerAttr(id,n.c_str(),(XML_Binary_Type)a.num())); }
        else if (c == "regmany") // names t<id>xxx... of given length until one is refused; gives how many were registered
        {
            long w = a.num(); bool tag = a.num(); int from = 1+(tag ? Ws[w]->getPool()->tags.max_id : Ws[w]->getPool()->params.max_id),count = a.num(),len = a.num(),ty = a.num(),n = 0;
            for(;n < count;n++)
            {
                S name = (tag ? "t" : "a") + std::to_string(from+n); if ((int)name.size() < len) name.resize(len,'x');
                if (!(tag ? Ws[w]->registerTag(from+n,name.c_str(),(XML_Binary_Type)ty) : Ws[w]->registerAttr(from+n,name.c_str(),(XML_Binary_Type)ty))) break;
            }
            o.num(n);
        }
        else if (c == "regTn") { long w = a.num(); S n = a.str(); o.num(Ws[w]->registerTag(n.c_str(),(XML_Binary_Type)a.num())); }
        else if (c == "regPn") { long w = a.num(); S n = a.str(); o.num(Ws[w]->registerParam(n.c_str(),(XML_Binary_Type)a.num())); }
        else if (c == "altT") { long w = a.num(); int id = a.num(); o.num(Ws[w]->alterTag(id,(XML_Binary_Type)a.num())); }
        else if (c == "altA") { long w = a.num(); int id = a.num(); o.num(Ws[w]->alterAttr(id,(XML_Binary_Type)a.num())); }
        else if (c == "all") { long w = a.num(); o.num(Ws[w]->allRegistered()); }
        else if (c == "dict") { dict(Ws[a.num()],o); }
        else if (c == "absent") // name that must not be found, ids out of range
        {
            BW_pool *P = Ws[a.num()]->getPool(); S n = a.str(); BW_offset_t off; XML_Binary_Type ty;
            o.num(P->tags.getByName(P,n.c_str(),&off,&ty)).num(P->params.getByName(P,n.c_str(),&off,&ty));
            o.num(P->tags.getType(P,P->tags.max_id+1) != nullptr).num(P->params.getType(P,P->params.max_id+1) != nullptr);
        }
        else if (c == "import") { long w = a.num(); int what = a.num(); long r = a.num(); KeyReader *R = r < 0 ? nullptr : Rs[r].R; if (what & 1) Ws[w]->importTags(R); if (what & 2) Ws[w]->importParams(R); o.str("1"); }
        else if (c == "mk") { long w = a.num(),h = a.num(); S k = a.str(); int id = a.num(); S v = a.str(); BW_element *E = make(Ws[w],k,id,v,a); setel(h,E); o.num(E != nullptr); }
        else if (c == "mkadd") { long w = a.num(),h = a.num(); BW_element *P = el(a); S k = a.str(); int id = a.num(); S v = a.str(); BW_element *E = make(Ws[w],k,id,v,a); if (E) { setel(h,E); if (P) P->add(E); } o.num(E != nullptr); }
        else if (c == "mkfill") // BLOB ending delta bytes before (after for negative) the end of current page or of allocated space; gives its size
        {
            long w = a.num(),h = a.num(); BW_element *P = el(a); int id = a.num(),whole = a.num(),delta = a.num(); S pat = a.str(); BW_pool *Q = Ws[w]->getPool();
            long from = Q->allocator+28,to = whole ? Q->allocator_limit : ((from+4095)/4096*4096); long n = to-delta-from; while (n < 0) n += 4096;
            S v; v.resize(n); for(long i = 0;i < n;i++) v[i] = pat[i % pat.size()];
            BW_element *E = Ws[w]->tagBLOB(id,v.data(),n); if (E) { setel(h,E); if (P) P->add(E); } o.str((E ? "=" : "~") + std::to_string(n));
        }
        else if (c == "at") { BW_element *E = el(a); S k = a.str(); int id = a.num(); S v = a.str(); BW_element *r = attr(E,k,id,v,a); o.num(r == nullptr ? 0 : r == E ? 1 : 2); }
        else if (c == "join") { BW_element *A = el(a),*B = el(a); o.num(A->join(B) == A); }
        else if (c == "add") { BW_element *A = el(a),*B = el(a); o.num(A->add(B) == A); }
        else if (c == "rem") { BW_element *A = el(a),*B = el(a); o.num(A->remove(B) == A); }
        else if (c == "repl") { BW_element *A = el(a),*B = el(a),*C = el(a); o.num(A->replace(B,C) == A); }
        else if (c == "replv") { BW_element *A = el(a),*B = el(a),*C = el(a); o.num(A->replaceValue(B,C) == C && C); }
        else if (c == "retype") { BW_element *A = el(a); o.num(A->retype((XML_Binary_Type)a.num()) == A); }
        else if (c == "tset") { long h = a.num(); BW_element *E = el(a); S k = a.str(); int id = a.num(); S v = a.str(); BW_element *r = tagset(E,k,id,v); setel(h,r); o.num(r != nullptr); if (r) o.num(r->getPool() == E->getPool()).num(E->tagGet(id) == r); }
        else if (c == "look") // all lookups of children and attributes by id: position or -
        {
            BW_element *E = el(a); int nt = a.num(),na = a.num(); S s;
            std::map<BW_element*,int> pos; int n = 0; { BW_FOREACH2(E,C) pos[C] = n++; }
            for(int t = 0;t < nt;t++)
            {
                BW_element *x = E->tagGet(t),*y = E->findChildByTag(t);
                if (x != y) s += "!";
                s += x ? (pos.count(x) ? std::to_string(pos[x]) : S("!lost")) : S("-"); s += " ";
                int32_t *i = E->tagGetInt32(t); if (i != (x ? x->getInt32() : nullptr)) s += "!int";
                char *z = E->tagGetStr(t); if (z != (x ? x->getStr() : nullptr)) s += "!str";
            }
            s += "|";
            std::map<BW_element*,int> ap; n = 0; if (E->first_attribute) for(BW_element *A = E->BWE(E->first_attribute);;A = E->BWE(A->next)) { ap[A] = n++; if (A->next == E->first_attribute || n > 100000) break; }
            for(int t = 0;t < na;t++)
            {
                BW_element *x = E->attrGet(t),*y = E->findAttr(t);
                if (x != y) s += "!";
                s += x ? (ap.count(x) ? std::to_string(ap[x]) : S("!lost")) : S("-"); s += " ";
                int32_t *i = E->findAttrInt32(t); if (i != (x ? x->getInt32() : nullptr)) s += "!int";
            }
            o.str(s);
        }
        else if (c == "fparam") // position of the found child or -1
        {
            BW_element *E = el(a); int tag = a.num(),at = a.num(),ty = a.num(); S v = a.str(); XML_Binary_Data_Ref D = ref(ty,v);
            BW_element *F = E->findChildByParam(tag,at,D.type,D.content,D.content_size); free(D.data);
            int n = 0,r = F ? -2 : -1; { BW_FOREACH2(E,C) { if (C == F) r = n; n++; } }
            o.num(r);
        }
        else if (c == "typed") typed(el(a),o);
        else if (c == "sets") { BW_element *E = el(a); long w = a.num(); BW_element *P = el(a); S v = a.str(); o.num(E->setStr(Ws[w],P,v.c_str())); }
        else if (c == "seti") { BW_element *E = el(a); S k = a.str(); long long v = a.num(); // write through the typed pointer
            if (k == "i32") { int32_t *p = E->getInt32(); if (p) *p = v; o.num(p != nullptr); } else { int64_t *p = E->getInt64(); if (p) *p = v; o.num(p != nullptr); } }
        else if (c == "kid") { long h = a.num(); BW_element *P = el(a); int n = a.num(); BW_element *F = nullptr; { int k = 0; BW_FOREACH2(P,C) if (k++ == n) { F = C; break; } } setel(h,F); o.num(F != nullptr); }
        else if (c == "root") { long w = a.num(); Ws[w]->setRoot(el(a)); o.str("1"); }
        else if (c == "getroot") { long w = a.num(),h = a.num(); setel(h,(BW_element *)Ws[w]->getRoot()); o.num(Es[h] != nullptr); }
        else if (c == "rootis") { long w = a.num(); BW_element *E = el(a); o.num(Ws[w]->getRoot() == E); }
        else if (c == "dump") { long w = a.num(); BW_element *E = el(a); S s; if (E) dumpe(Ws[w]->getPool(),E,s); else s = "~"; o.str(s); }
        else if (c == "ring") // circular list of detached elements from this one
        {
            long w = a.num(); BW_element *E = el(a); S s; BW_element *X = E; int guard = 0;
            do { dumpe(Ws[w]->getPool(),X,s); s += ";"; BW_element *N = X->BWE(X->next); if (N->prev != X->offset) s += "!link"; X = N; if (++guard > 100000) { s += "!loop"; break; } } while (X != E);
            o.str(s);
        }
        else if (c == "tree") { long w = a.num(); S s; BW_element *E = (BW_element *)Ws[w]->getRoot(); if (E) dumpe(Ws[w]->getPool(),E,s); else s = "~"; o.str(s); }
        else if (c == "enum") { long w = a.num(),h = a.num(),h0 = h; BW_element *E = (BW_element *)Ws[w]->getRoot(); if (E) enumer(E,h,w); o.num(h-h0); }
        else if (c == "print") { std::ostringstream os; os << *Ws[a.num()]; o.str(os.str()); }
        else if (c == "space") { long w = a.num(); BW_pool *P = Ws[w]->getPool(); struct stat st; memset(&st,0,sizeof(st)); fstat(Ws[w]->getFd(),&st); o.num(P->allocator).num(P->file_size).num(st.st_size).num(P->allocator_limit).num(Ws[w]->getDataSize()); }
        else if (c == "elemoff") { BW_element *E = el(a); o.num(E->offset); }
        else if (c == "mspace") { long w = a.num(); o.num(Ws[w]->makeSpace(a.num())); }
        else if (c == "clear") { o.num(Ws[a.num()]->Clear()); }
        else if (c == "xb") { long w = a.num(); S fn = a.str(),k = a.str(); if (k == "pack") o.num(Bin_xml_packer::Convert(Ws[w],fn.c_str())); else { Bin_xml_creator C(Ws[w],fn.c_str(),XBTARGET_XB); o.num(C.DoAll()); } }
        else if (c == "xbw") { long w = a.num(); S fn = a.str(); Bin_xml_creator C(Ws[w],fn.c_str(),XBTARGET_XBW); o.num(C.DoAll()); }
        else if (c == "creator") { long k = a.num(),w = a.num(); S fn = a.str(); Cs[k] = new Bin_xml_creator(Ws[w],fn.c_str(),XBTARGET_XB); o.str("1"); }
        else if (c == "doall") { o.num(Cs[a.num()]->DoAll()); }
        else if (c == "delc") { long k = a.num(); delete Cs[k]; Cs.erase(k); o.str("1"); }
        else if (c == "write") { long w = a.num(); o.num(Ws[w]->Write(el(a))); }
        else if (c == "append") { long k = a.num(); o.num(Cs[k]->Append(el(a))); }
        else if (c == "conv") { S k = a.str(),s = a.str(),d = a.str(); o.num(k == "pack" ? Bin_xml_packer::Convert(s.c_str(),d.c_str()) : k == "xbw" ? ({Bin_xml_creator C(s.c_str(),d.c_str(),XBTARGET_XBW); C.DoAll();}) : ({Bin_xml_creator C(s.c_str(),d.c_str(),XBTARGET_XB); C.DoAll();})); }
        else if (c == "ropen")
        {
            long r = a.num(); S fn = a.str(); RD &D = Rs[r]; D.name.assign(fn.begin(),fn.end()); D.name.resize(fn.size()+64,0);
            D.R = new KeyReader(D.name.data()); D.R->setVerbosity(0); o.num(D.R->Initialize());
        }
        else if (c == "rkeys") { long r = a.num(); int n = a.num(); for(int i = 0;i < n;i++) { S k = a.str(); Rs[r].R->keys.insert(Rs[r].R->getParamID(k.c_str())); } o.str("1"); }
        else if (c == "rdump") { long r = a.num(); int m = a.num(); Out t; dump_item(*Rs[r].R,Rs[r].R->getRoot(),t,m); o.str(pack(t.b)); }
        else if (c == "racc") { long r = a.num(); int buf = a.num(); Out t; readacc(Rs[r].R,Rs[r].R->getRoot(),t,buf); o.str(pack(t.b)); }
        else if (c == "rwalk")
        {
            KeyReader *R = Rs[a.num()].R; Walk w1{R,""},w2{R,""},w3{R,""}; std::vector<XML_Item*> path(XML_MAX_DEEP+1,nullptr);
            R->getRoot()->ForAllChildrenRecursively(on_pre,&w1,0);
            R->getRoot()->ForAllChildrenRecursively_PostOrder(on_pre,&w2,0);
            R->getRoot()->ForAllChildrenRecursively_PostOrderA(on_postA,&w3,0,path.data());
            o.str(w1.s).str(w2.s).str(w3.s);
        }
        else if (c == "rsyms") { KeyReader *R = Rs[a.num()].R; S s; for(int i = 0;i < R->tag_symbols.count;i++) { s += R->getNodeName(i); s += ":" + std::to_string(R->tag_symbols.getType(i)) + ";"; } s += "|"; for(int i = 0;i < R->param_symbols.count;i++) { s += R->getParamName(i); s += ":" + std::to_string(R->param_symbols.getType(i)) + ";"; } o.str(s); }
        else if (c == "rids") // names to numbers and back
        {
            KeyReader *R = Rs[a.num()].R; int n = a.num(); S s;
            for(int i = 0;i < n;i++) { S k = a.str(); s += std::to_string(R->getNodeID(k.c_str())) + " " + std::to_string(R->getParamID(k.c_str())) + ";"; }
            for(int t = 0;t < R->tag_symbols.count;t++) if (R->getNodeID(R->getNodeName(t)) != t) s += "!t";
            for(int t = 0;t < R->param_symbols.count;t++) if (R->getParamID(R->getParamName(t)) != t) s += "!p";
            for(int t = 0;t < R->tag_symbols.count;t++) { const char *x = R->getNodeName(t); uint32_t p = R->getRelPtr(x); if (p == 0 || R->getString(p) != x) s += "!r"; }
            if (R->getString(0) || R->getString(R->size) || R->getString(UINT32_MAX) || R->getRelPtr(nullptr) || R->getRelPtr((char*)R->doc+R->size)) s += "!R";
            o.str(s);
        }
        else if (c == "rprint") { std::ostringstream os; os << *Rs[a.num()].R; o.str(os.str()); }
        else if (c == "rclose") { long r = a.num(); o.num(Rs[r].R->Finalize()); delete Rs[r].R; Rs.erase(r); }
        else if (c == "copyall") { long w = a.num(),h = a.num(); BW_element *D = el(a); long r = a.num(); S p = a.str(); BW_element *E = Ws[w]->CopyAll(D,*Rs[r].R,item(Rs[r].R,p)); setel(h,E); o.num(E != nullptr); }
        else if (c == "copytag") { long w = a.num(),h = a.num(),r = a.num(); S p = a.str(); int v = a.num(); BW_element *E = Ws[w]->CopyTag(item(Rs[r].R,p),v); setel(h,E); o.num(E != nullptr); }
        else if (c == "copypath") // whole?, reader, path (the elements from root are given by the path)
        {
            long w = a.num(),h = a.num(); int whole = a.num(); long r = a.num(); S p = a.str(); KeyReader *R = Rs[r].R;
            std::vector<XML_Item*> v; XML_Item *X = R->getRoot();
            for(size_t i = 0;i < p.size();)
            {
                int n = 0; while (i < p.size() && p[i] != '.') n = 10*n+(p[i++]-'0');
                i++;
                X = X->getChildByIndex(n); if (!X) _exit(93); v.push_back(X);
            }
            v.resize(8,nullptr);
            BW_element *E = whole ? Ws[w]->CopyPath(*R,R->getRoot(),v[0],v[1],v[2],v[3],v[4],v[5],v[6],nullptr) : Ws[w]->CopyPathOnly(*R,R->getRoot(),v[0],v[1],v[2],v[3],v[4],v[5],v[6],nullptr);
            setel(h,E); o.num(E != nullptr);
        }
        else if (c == "copykeys") { BW_element *E = el(a); long r = a.num(); S p = a.str(); o.num(E->CopyKeys(*Rs[r].R,item(Rs[r].R,p)) == E); }
        else if (c == "eqkeys") { BW_element *E = el(a); long r = a.num(); S p = a.str(); o.num(E->EqualKeys(*Rs[r].R,item(Rs[r].R,p))); }
        else if (fault_op(c,a,o)) {}
        else if (c == "file") { S fn = a.str(); spit(fn.c_str(),a.str()); }
        else if (c == "read") { S fn = a.str(),s; if (slurp(fn.c_str(),s)) o.str("="+s); else o.str("~"); }
        else if (c == "poke") { S fn = a.str(); long off = a.num(); S v = a.str(); FILE *f = fopen(fn.c_str(),"r+b"); if (!f) _exit(88); if (off < 0) fseek(f,off,SEEK_END); else fseek(f,off,SEEK_SET); fwrite(v.data(),1,v.size(),f); fclose(f); }
        else if (c == "trunc") { S fn = a.str(); if (truncate(fn.c_str(),a.num()) != 0) _exit(87); }
        else if (c == "copyfile") { S f = a.str(),t = a.str(),s; if (!slurp(f.c_str(),s)) _exit(86); spit(t.c_str(),s); }
        else if (c == "fsize") { struct stat st; S fn = a.str(); o.num(stat(fn.c_str(),&st) == 0 ? (long long)st.st_size : -1); }
        else if (c == "session") // ops up to endsession with the same mark run in a process of their own, which ends without closing anything
        {
            S mark = a.str(); long junk_mb = a.num();
            pid_t p = fork();
            if (p == 0) { if (junk_mb) { void *junk = mmap(nullptr,junk_mb<<20,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); (void)junk; } continue; }
            int st = 0; while (waitpid(p,&st,0) < 0 && errno == EINTR) {}
            if (WIFSIGNALED(st)) { signal(WTERMSIG(st),SIG_DFL); kill(getpid(),WTERMSIG(st)); _exit(66); }
            if (WEXITSTATUS(st) != 0) _exit(WEXITSTATUS(st));
            while (a.more()) if (a.str() == "endsession" && a.more() && a.b[a.i] == mark) { a.i++; break; }
        }
        else if (c == "endsession") { a.str(); if (!g_quiet) flush_out(o); _exit(0); }
        else if (c == "attat") { long h = a.num(); BW_element *P = el(a); int n = a.num(); BW_element *F = nullptr; if (P->first_attribute) { int k = 0; for(BW_element *A = P->BWE(P->first_attribute);;A = A->BWE(A->next)) { if (k++ == n) { F = A; break; } if (A->next == P->first_attribute) break; } } setel(h,F); o.num(F != nullptr); }
        else if (c == "rep") rep(a,o,bw_all);
        else { fprintf(stderr,"unknown op %s\n",c.c_str()); _exit(98); }
        if (!g_quiet) flush_out(o);
    }
}

// all operations, nothing is left behind
static void bw_all(Args &a,Out &o)
{
    bw(a,o);
    for(auto &c : Cs) delete c.second;
    Cs.clear();
    for(auto &r : Rs) { r.second.R->Finalize(); delete r.second.R; }
    Rs.clear();
    for(auto &w : Ws) delete w.second;
    Ws.clear(); Es.clear(); Eown.clear();
    nftw(".",rm_inner,16,FTW_DEPTH|FTW_PHYS);
}

int main(int argc,char **argv)
{
    std::map<std::string,Handler> h; h["bw"] = bw;
    return proto_main(argc,argv,h);
}

// Dumps what a reader of a .xb file observes, through the public reader API only.
#pragma once
#include "proto.h"
#include <binary_xml/bin_xml.h>
#include <binary_xml/bin_xml_types.h>
#include <sstream>
using namespace pklib_xml;

template<class F> static std::string chunks(F f,int bufsize = 4097)
{
    std::vector<char> buf(bufsize);
    std::string s;
    for(int offset = 0,guard = 0;guard < 100000;guard++)
    {
        int len = f(offset,buf.data(),bufsize);
        if (len <= 0) break;
        s += std::string(buf.data(),strnlen(buf.data(),bufsize));
    }
    return s;
}

static inline void put_data(Out &o,const XML_Binary_Data_Ref &D)
{
    if (D.data == nullptr || D.type == XBT_NULL) o.str("~"); else o.str(std::string("=")+std::string(D.data,D.size));
}

// mode bit 0: children by getChildByIndex instead of getNextChild; bit 1: raw data too
static void dump_item(XB_reader &R,XML_Item *X,Out &o,int mode,int deep = 0)
{
    o.cstr(R.getNodeName(X->name));
    o.num(X->paramcount);
    for(int p = 0;p < X->paramcount;p++)
    {
        XML_Param_Description *P = X->getParamByIndex(p);
        o.cstr(R.getParamName(P->name));
        o.num(P->type);
        o.str(chunks([&](int &off,char *b,int n){ return P->getStringChunk(X,off,b,n);}));
        if (mode & 2) put_data(o,P->getData(X));
    }
    XML_Binary_Data_Ref D = X->getData();
    o.num(D.type);
    o.str(chunks([&](int &off,char *b,int n){ return X->getStringChunk(off,b,n);}));
    if (mode & 2) put_data(o,D);
    std::vector<XML_Item*> ch;
    if (mode & 1)
        for(int i = 0;i < X->childcount;i++) ch.push_back(X->getChildByIndex(i));
    else
        for(int i = 0;;) { XML_Item *C = X->getNextChild(R,i); if (!C) break; ch.push_back(C); if (ch.size() > 2000000) _exit(95); }
    o.num(ch.size());
    for(auto C : ch) dump_item(R,C,o,mode,deep+1);
}

static bool slurp(const char *fn,std::string &s)
{
    FILE *f = fopen(fn,"rb"); if (!f) return false;
    char b[65536]; size_t n; s.clear();
    while ((n = fread(b,1,sizeof(b),f)) > 0) s.append(b,n);
    fclose(f); return true;
}
static void spit(const char *fn,const std::string &s)
{
    FILE *f = fopen(fn,"wb"); if (!f) _exit(96);
    fwrite(s.data(),1,s.size(),f); fclose(f);
}

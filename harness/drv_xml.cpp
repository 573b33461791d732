// Conversion and reading of .xb files. One request is a script of operations run in one process.
#include "xbdump.h"
#include "res.h"
#include <binary_xml/bin_xml_creator.h>
#include <binary_xml/bin_xml_packer.h>
#include <binary_xml/bin_write_plugin.h>
#include <binary_xml/ANSI.h>
#include <utime.h>
#include <memory>
#include "treesrc.h"

static void dump_file(XB_reader &R,int mode,Out &o)
{
    if (!R.Initialize()) { o.str("0"); return; }
    o.str("1");
    dump_item(R,R.getRoot(),o,mode);
    if (mode & 4) // symbol tables
        for(int t = 0;t < 2;t++)
        {
            _XB_symbol_table &T = t == 0 ? R.tag_symbols : R.param_symbols;
            o.num(T.count);
            for(int i = 0;i < T.count;i++)
            {
                const char *n = t == 0 ? R.getNodeName(i) : R.getParamName(i);
                o.cstr(n).num(T.getType(i)).num(n ? (t == 0 ? R.getNodeID(n) : R.getParamID(n)) : -999);
            }
        }
    if (!R.Finalize() && !g_fault.armed) _exit(94);
}

static void op_open(Args &a,Out &o)
{
    std::string fn = a.str(); int mode = a.num();
    std::vector<char> name(fn.begin(),fn.end()); name.resize(fn.size()+64,0);
    XB_reader R(name.data()); R.setVerbosity(0);
    dump_file(R,mode,o);
}

// what the file says about its origin
static void op_head(Args &a,Out &o)
{
    std::string fn = a.str();
    std::vector<char> name(fn.begin(),fn.end()); name.resize(fn.size()+64,0);
    XB_reader R(name.data()); R.setVerbosity(0);
    if (!R.Initialize()) { o.str("0"); return; }
    o.str("1").num(R.doc->name).num(R.doc->paramcount).num(R.doc->childcount);
    for(auto n : {XPNR_FORMAT_VERSION,XPNR_NAME,XPNR_MODIFIED,XPNR_HASH})
    {
        XML_Param_Description *P = R.doc->getParamByName(n);
        if (P == nullptr) { o.num(-1).str(""); continue; }
        XML_Binary_Data_Ref D = P->getData(R.doc); o.num(P->type); put_data(o,D);
    }
    o.cstr(R.doc->getParamByName(XPNR_NAME)->getString(R.doc)).num(R.doc->getParamByName(XPNR_FORMAT_VERSION)->getInt(R.doc));
    int k = 0;
    for(auto n : {XTNR_TAG_SYMBOLS,XTNR_PARAM_SYMBOLS,XTNR_PAYLOAD})
    {
        XML_Item *C = R.doc->getChildByName(n); int at = -1;
        for(int i = 0;i < R.doc->childcount;i++) if (R.doc->getChildByIndex(i) == C) at = i;
        o.num(C != nullptr).num(at);
        if (C && n != XTNR_PAYLOAD) { o.num(C->getParamByName(XPNR_COUNT)->getInt(C)).num(k == 0 ? R.tag_symbols.count : R.param_symbols.count); k++; }
        else o.num(C && C->getChildByIndex(0) == R.getRoot()).num(1);
    }
    o.num(R.doc->getChildByName(XTNR_LAST) == nullptr).num(R.doc->getParamByName(XPNR_AUTHOR) == nullptr);
    // pointers into the file and back
    const char *nm = R.doc->getParamByName(XPNR_NAME)->getString(R.doc); uint32_t rel = R.getRelPtr(nm);
    o.num(rel != 0 && R.getString(rel) == nm).num(R.getString(0) == nullptr && R.getString(R.size) == nullptr && R.getRelPtr(fn.c_str()) == 0 && R.getRelPtr((const char *)R.doc + R.size) == 0);
    o.num(R.size).cstr(R.getFilename()).num(XB_FORMAT_VERSION);
    if (!R.Finalize()) _exit(94);
}

static void op_print(Args &a,Out &o)
{
    std::string fn = a.str();
    std::vector<char> name(fn.begin(),fn.end()); name.resize(fn.size()+64,0);
    XB_reader R(name.data()); R.setVerbosity(0);
    if (!R.Initialize()) { o.str("0").str(""); return; }
    std::ostringstream os; os << R;
    o.str("1").str(os.str());
    R.Finalize();
}

static void op_printw(Args &a,Out &o)
{
    std::string fn = a.str();
    BW_plugin W(fn.c_str());
    if (!W.Initialize()) { o.str("0").str(""); return; }
    std::ostringstream os; os << W;
    o.str("1").str(os.str());
    W.Finalize();
}

// name lookups: names -> id, ids -> name
static void op_lookup(Args &a,Out &o)
{
    std::string fn = a.str();
    std::vector<char> name(fn.begin(),fn.end()); name.resize(fn.size()+64,0);
    XB_reader R(name.data()); R.setVerbosity(0);
    if (!R.Initialize()) { o.str("0"); return; }
    o.str("1");
    int n = a.num();
    for(int i = 0;i < n;i++) { std::string s = a.str(); o.num(R.getNodeID(s.c_str())).num(R.getParamID(s.c_str())); }
    n = a.num();
    for(int i = 0;i < n;i++) { int id = a.num(); o.cstr(R.getNodeName(id)).cstr(R.getParamName(id)).num(R.tag_symbols.getType(id)).num(R.param_symbols.getType(id)); }
    R.Finalize();
}

static void seq(Args &a,Out &o)
{
    std::unique_ptr<char[]> junk;
    std::unique_ptr<TreeSrc> TS; std::unique_ptr<Bin_xml_creator> TC;
    std::unique_ptr<XB_reader> HR; std::vector<char> hname;
    while (a.more())
    {
        std::string op = a.str();
        if (fault_op(op,a,o)) {}
        else if (op == "file") { std::string n = a.str(); spit(n.c_str(),a.str()); }
        else if (op == "mkdir") { mkdir(a.str().c_str(),0755); }
        else if (op == "mtime") { std::string n = a.str(); time_t t = a.num(); struct utimbuf u = {t,t}; utime(n.c_str(),&u); }
        else if (op == "conv")
        {
            std::string tool = a.str(),src = a.str(),dst = a.str();
            bool r = false;
            if (tool == "plain") { Bin_xml_creator XC(src.c_str(),dst.c_str(),XBTARGET_XB); r = XC.Make_xb(); }
            else if (tool == "all") { Bin_xml_creator XC(src.c_str(),dst.c_str(),XBTARGET_XB); r = XC.DoAll(); }
            else if (tool == "static") r = Bin_xml_creator::Convert(src.c_str(),dst.c_str());
            else if (tool == "pack") r = Bin_xml_packer::Convert(src.c_str(),dst.c_str());
            else if (tool == "getxb") { const char *err = nullptr; std::vector<char> b(src.size()+64); r = Bin_xml_packer::GetXB(src.c_str(),b.data(),&err); if (r != (err == nullptr)) _exit(93); }
            else if (tool == "xbw") { Bin_xml_creator XC(src.c_str(),dst.c_str(),XBTARGET_XBW); r = XC.Make_xbw(); }
            else if (tool == "xbwall") { Bin_xml_creator XC(src.c_str(),dst.c_str(),XBTARGET_XBW); r = XC.DoAll(); }
            else _exit(98);
            o.str(r ? "1" : "0");
        }
        else if (op == "read") { std::string n = a.str(),s; if (slurp(n.c_str(),s)) o.str("="+s); else o.str("~"); }
        else if (op == "tsrc") { TC.reset(); TS.reset(tree_src(a)); }
        else if (op == "tmake") // how, destination, kind: the creator is kept for appending
        {
            std::string tool = a.str(),dst = a.str(); bool r = false,named = dst != "";
            TC.reset();
            if (tool == "pack") { TC.reset(new Bin_xml_packer(TS.get(),named ? dst.c_str() : nullptr)); r = TC->DoAll(); }
            else if (tool == "static") r = Bin_xml_packer::Convert(TS.get(),dst.c_str());
            else
            {
                Bin_xml_creator_target t = tool[0] == 'w' ? XBTARGET_XBW : XBTARGET_XB;
                TC.reset(named || tool.size() > 1 ? new Bin_xml_creator(TS.get(),named ? dst.c_str() : nullptr,t) : new Bin_xml_creator(TS.get(),t));
                r = tool[0] == 'w' ? (tool.size() > 1 ? TC->DoAll() : TC->Make_xbw()) : tool[0] == 'x' ? TC->Make_xb() : TC->DoAll();
            }
            o.str(r ? "1" : "0");
        }
        else if (op == "tagain") o.str(TC->DoAll() ? "1" : "0");
        else if (op == "tappend") { TreeNode *n = tree_read(a); o.str(TC->Append(n) ? "1" : "0"); }
        else if (op == "tprint") { std::ostringstream os; os << *TS; o.str(os.good() ? "1" : "0").str(os.str()); }
        else if (op == "pname") // names of source
        {
            TreeSrc T(a.str().c_str()); o.cstr(T.getFilename());
            for(int n = a.num();n > 0;n--)
            {
                std::string nm = a.str(),e = a.str(),d = a.str(); int how = a.num();
                if (how < 0) T.setFilename(nm == "@" ? T.getFilename() : nm.c_str(),e == "~" ? nullptr : e.c_str(),d == "~" ? nullptr : d.c_str());
                else T.setFilenameFmt(how & 1 ? "%s" : "%s%d",nm.c_str(),how);
                o.cstr(T.getFilename());
            }
        }
        else if (op == "sprint") // source file streamed without conversion
        {
            std::string src = a.str(); Bin_xml_creator XC(src.c_str(),"unused.xb"); std::ostringstream os;
            if (XC.src == nullptr || !XC.src->Initialize()) o.str("0").str("");
            else { os << *XC.src; o.str(os.good() ? "1" : "bad").str(os.str()); XC.src->Finalize(); }
        }
        else if (op == "byname") // opening of source file: success and name of the binary file
        {
            std::string kind = a.str(),src = a.str();
            std::vector<char> n(src.begin(),src.end()); n.resize(src.size()+64,0);
            if (kind == "getxb") { const char *err = nullptr; std::vector<char> b(src.size()+64); if (Bin_xml_packer::GetXB(src.c_str(),b.data(),&err)) o.str("1").cstr(b.data()); else o.str("0").str(""); }
            else { XB_reader R(n.data()); R.setVerbosity(0); if (R.Initialize()) { o.str("1").cstr(n.data()); R.Finalize(); } else o.str("0").str(""); }
        }
        else if (op == "head") op_head(a,o);
        else if (op == "hold") // a reader for more openings
        {
            std::string n = a.str(); hname.assign(n.begin(),n.end()); hname.resize(n.size()+64,0);
            if (a.num()) HR.reset(new XB_reader(hname.data())); else { HR.reset(new XB_reader(nullptr)); o.num(HR->setFilename(hname.data())); }
            HR->setVerbosity(0);
        }
        else if (op == "hopen") dump_file(*HR,a.num(),o);
        else if (op == "trunc") { std::string n = a.str(); if (truncate(n.c_str(),a.num()) != 0) {} }
        else if (op == "poke") { std::string n = a.str(); long off = a.num(); std::string v = a.str(),t; if (slurp(n.c_str(),t)) { if (!t.empty()) { off %= t.size(); t.replace(off,v.size(),v); } spit(n.c_str(),t); } }
        else if (op == "rename") { std::string n = a.str(); rename(n.c_str(),a.str().c_str()); }
        else if (op == "open") op_open(a,o);
        else if (op == "print") op_print(a,o);
        else if (op == "printw") op_printw(a,o);
        else if (op == "lookup") op_lookup(a,o);
        else if (op == "symbols") // the dictionary of types: tags, then attributes
        {
            std::string fn = a.str(); std::vector<char> name(fn.begin(),fn.end()); name.resize(fn.size()+64,0);
            XB_reader R(name.data()); R.setVerbosity(0);
            if (!R.Initialize()) { o.str("0"); if (!g_quiet) flush_out(o); continue; }
            o.str("1");
            for(int k = 0;k < 2;k++)
            {
                _XB_symbol_table &T = k == 0 ? R.tag_symbols : R.param_symbols;
                o.num(T.count);
                for(int i = 0;i < T.count;i++) o.cstr(k == 0 ? R.getNodeName(i) : R.getParamName(i)).num(T.getType(i));
            }
            R.Finalize();
        }
        else if (op == "detect2") { int ty = XBT_NULL,n = a.num(); for(int i = 0;i < n;i++) { std::string s = a.str(); ty = XBT_Detect2(s.c_str(),(XML_Binary_Type)ty); } o.num(ty); }
        else if (op == "unlink") unlink(a.str().c_str());
        else if (op == "junk") { size_t n = a.num(); int v = a.num(); junk.reset(new char[n]); memset(junk.get(),v,n); junk.reset(); }
        else if (op == "rep") rep(a,o,[](Args &a,Out &o) { seq(a,o); tree_free(); });
        else _exit(98);
        if (!g_quiet) flush_out(o);
    }
}

int main(int argc,char **argv)
{
    return proto_main(argc,argv,{{"seq",seq}});
}

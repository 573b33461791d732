// A source plugin built from a described tree: everything a program may feed to Bin_xml_creator through Bin_src_plugin.
#pragma once
#include "proto.h"
#include <binary_xml/bin_xml_creator.h>
#include <memory>
using namespace pklib_xml;

struct TreeNode
{
    bool hasname; std::string name;
    int flags;                                          // 1 = binary value, 2 = binary attributes
    struct Val { int type; bool has_raw,has_text; std::string raw,text; };
    Val val;
    struct Attr { std::string name; Val v; };
    std::vector<Attr> attrs;
    std::vector<TreeNode*> kids;
};

static TreeNode::Val tree_val(Args &a)
{
    TreeNode::Val v; v.type = a.num();
    std::string r = a.str(),t = a.str();
    v.has_raw = r[0] == '='; v.raw = r.substr(1); v.has_text = t[0] == '='; v.text = t.substr(1);
    v.raw.reserve(64); // stored on the heap, aligned
    return v;
}
static std::vector<TreeNode*> tree_nodes;
static void tree_free() { for(auto n : tree_nodes) delete n; std::vector<TreeNode*>().swap(tree_nodes); }
static TreeNode *tree_read(Args &a)
{
    TreeNode *n = new TreeNode; tree_nodes.push_back(n);
    std::string nm = a.str(); n->hasname = nm[0] == '='; n->name = nm.substr(1);
    n->flags = a.num(); n->val = tree_val(a);
    for(int k = a.num();k > 0;k--) { TreeNode::Attr x; x.name = a.str(); x.v = tree_val(a); n->attrs.push_back(x); }
    for(int k = n->flags >> 8;k > 0;k--) { TreeNode::Attr x = n->attrs[0]; n->attrs.push_back(x); } // repeated attribute
    for(int k = a.num();k > 0;k--) n->kids.push_back(tree_read(a));
    return n;
}

class TreeSrc : public Bin_src_plugin
{
    static const char *text(const TreeNode::Val &v) { return v.has_text ? v.text.c_str() : nullptr; }
public:
    TreeNode *root = nullptr;
    bool inits = true,own[SYMBOL_TABLES_COUNT] = {false,false};
    std::vector<std::pair<std::string,int>> symbols[SYMBOL_TABLES_COUNT];
    TreeSrc(const char *fn) : Bin_src_plugin(fn,nullptr) {}
    bool Initialize() override { return inits; }
    void *getRoot() override { return root; }
    const char *getNodeName(void *e) override { TreeNode *n = (TreeNode*)e; return n->hasname ? n->name.c_str() : nullptr; }
    const char *getNodeValue(void *e) override { return text(((TreeNode*)e)->val); }
    const char *getNodeBinValue(void *e,XML_Binary_Type &type,int &size) override
    {
        TreeNode *n = (TreeNode*)e;
        if (!(n->flags & 1)) return Bin_src_plugin::getNodeBinValue(e,type,size);
        type = (XML_Binary_Type)n->val.type; size = 0;
        if (!n->val.has_raw) return nullptr;
        if (type == XBT_STRING) size = strlen(n->val.raw.c_str());
        else if (XBT_IS_VARSIZE(type)) size = *(const int32_t*)n->val.raw.data();
        return n->val.raw.data();
    }
    void ForAllChildren(OnElement_t on,void *p,void *u) override { for(auto c : ((TreeNode*)p)->kids) on(c,u); }
    void ForAllChildrenRecursively(OnElementRec_t on,void *p,void *u,int deep) override { on(p,u,deep); for(auto c : ((TreeNode*)p)->kids) ForAllChildrenRecursively(on,c,u,deep+1); }
    void ForAllParams(OnParam_t on,void *e,void *u) override { for(auto &x : ((TreeNode*)e)->attrs) on(x.name.c_str(),text(x.v),e,u); }
    bool ForAllBinParams(OnBinParam_t on,void *e,void *u) override
    {
        TreeNode *n = (TreeNode*)e;
        if (!(n->flags & 2)) return false;
        for(auto &x : n->attrs) on(x.name.c_str(),0,(XML_Binary_Type)x.v.type,x.v.has_raw ? x.v.raw.data() : nullptr,e,u);
        return true;
    }
    int getSymbolCount(SymbolTableTypes t) override { return own[t] ? (int)symbols[t].size() : Bin_src_plugin::getSymbolCount(t); }
    const char *getSymbol(SymbolTableTypes t,int i,XML_Binary_Type &type) override
    {
        if (own[t] && (i < 0 || i >= (int)symbols[t].size())) { fprintf(stderr,"Assertion: getSymbol(%d) of %d\n",i,(int)symbols[t].size()); abort(); }
        if (!own[t]) return Bin_src_plugin::getSymbol(t,i,type);
        type = (XML_Binary_Type)symbols[t][i].second; return symbols[t][i].first.c_str();
    }
};

static TreeSrc *tree_src(Args &a) // FILENAME (ntags (name type)* | -1) (nattrs ... | -1) tree
{
    std::string fn = a.str();
    TreeSrc *s = new TreeSrc(fn.c_str());
    for(int t = 0;t < 2;t++)
    {
        int n = a.num(); s->own[t] = n >= 0;
        for(int i = 0;i < n;i++) { std::string nm = a.str(); int ty = a.num(); s->symbols[t].push_back({nm,ty}); }
    }
    s->root = tree_read(a);
    return s;
}

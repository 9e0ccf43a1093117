/* P14 / P15: any sequence of element and text events inside any context. Memory errors are the
 * engine's own obligations; P14 adds that nothing is left behind. */
#include "doc.h"
#ifndef NE
#define NE 2
#endif
/* Every event is one of: a start tag whose name is 15 arbitrary bytes (so it equals any known name or none), with a
 * base set of attributes and possibly one more in front whose name is 15 arbitrary bytes and whose value is VALN arbitrary
 * bytes; an end tag; a text of arbitrary bytes or one that is an id. */
#ifndef SYMATTR
#define SYMATTR 0
#endif
#ifndef VALN
#define VALN 2
#endif
static int variant, ctx, ext;
static struct VfAttr base[16];
static int nBase;
static void set(const char *k, const char *v) { base[nBase].key = k; base[nBase].keySz = strlen(k) + 1; base[nBase].val = v; base[nBase].valLen = strlen(v); nBase++; }
static void attrs(void) {
    nBase = 0;
    switch(variant) {
    case 0: break;
    case 1: set("NodeId", "ns=1;s=x"); set("BrowseName", "Default Binary"); set("ReferenceType", "i=38"); set("IsForward", "false"); set("Alias", "Al"); set("DataType", "Al"); set("Name", "n"); set("ParentNodeId", "ns=1;s=p"); set("IsAbstract", "true"); break;
    case 2: set("NodeId", "ns=;;"); set("BrowseName", ":"); set("ReferenceType", ""); set("Alias", ""); set("DataType", ""); set("ParentNodeId", "zz"); set("ValueRank", ""); set("IsForward", ""); set("Name", ""); set("Value", ""); set("IsOptionSet", ""); break;
    case 3: set("NodeId", "ns=1;s=x"); set("BrowseName", "1:a"); set("ReferenceType", "ns=1;s=t"); set("Value", "1"); set("IsOptionSet", "true"); set("IsUnion", "true"); break;
    }
}
static void start(const char *n) { attrs(); SRAW(n, strlen(n) + 1, nBase, base); }
static char nm[NE][16], an[NE][16], av[NE][8], tx[NE][2];
static void symBytes(char *p, int n) { for(int i = 0; i < n; i++) p[i] = (char)vf_int(0, 255); }
static void symStart(int i, int withAttr) {
    symBytes(nm[i], 15); nm[i][15] = 0;
    attrs();
    if(withAttr) {
        for(int k = nBase; k > 0; k--) base[k] = base[k - 1];
        symBytes(an[i], 15); an[i][15] = 0;
        symBytes(av[i], VALN);
        for(int k = 0; k < VALN; k++) vf_assume(av[i][k] != 0);
        base[0].key = an[i]; base[0].keySz = 16; base[0].val = av[i]; base[0].valLen = (size_t)VALN;
        nBase++;
    }
    SRAW(nm[i], 16, nBase, base);
}
static void doc(void) {
    static const char *P[][6] = {
        {"UANodeSet"}, {"UANodeSet", "NamespaceUris"}, {"UANodeSet", "Aliases", "Alias"},
        {"UANodeSet", "UAVariable"}, {"UANodeSet", "UADataType"}, {"UANodeSet", "UAReferenceType"}, {"UANodeSet", "UAObject"},
        {"UANodeSet", "UAObject", "References"}, {"UANodeSet", "UAVariable", "References", "Reference"}, {"UANodeSet", "UADataType", "Definition"}, {"UANodeSet", "UADataType", "Definition", "Field"},
        {"UANodeSet", "UAVariable", "Value"}, {"UANodeSet", "UAVariable", "Value", "ListOfInt32"}, {"UANodeSet", "UAVariable", "Value", "ExtensionObject"}, {"UANodeSet", "UAVariable", "Value", "ExtensionObject", "TypeId"},
        {"UANodeSet", "UAVariable", "Value", "ListOfInt32", "ExtensionObject", "Body"}, {"UANodeSet", "UAObjectType", "Value", "Int32"}, {"UANodeSet", "UAVariableType", "Value", "ExtensionObject", "Body", "Int32"},
        {"UANodeSet", "UAMethod", "Extensions"}, {"UANodeSet", "UAView", "Extensions", "Extension"}, {"UANodeSet", "UAVariable", "DisplayName"}, {"UANodeSet", "UAReferenceType", "InverseName"}, {"UANodeSet", "Foo", "Foo"},
        {"UANodeSet", "UADataType", "Value"}, {"UANodeSet", "Extensions"}};
    for(int i = 0; i < 6 && P[ctx][i]; i++) start(P[ctx][i]);
    for(int i = 0; i < NE; i++) {
        switch(vf_choose(0, SYMATTR && i == NE - 1 ? 4 : 3)) {
        case 0: symStart(i, 0); break;
        case 1: if(vf_saxDepth <= 1) return; E(); break;
        case 2: symBytes(tx[i], 2); TN(tx[i], 2); break;
        case 3: T("ns=1;s=q"); break;
        case 4: symStart(i, 1); break;
        }
    }
    if(vf_docResult[0] == 0) closeAll();
}
#define NCTX 25
static int objs[8], nobj;
static void *xNew(void) { return &objs[nobj++ & 7]; }
static void xStart(void *d, const char *n, int c, const char **a) { (void)n; (void)c; (void)a; *(int *)d += 1; }
static void xEnd(void *d, const char *n, const char *v) { (void)n; (void)v; *(int *)d += 1; }
static void xFinish(void *d) { *(int *)d += 1; }
static int seen;
static void cb(void *c, NL_Node *n) { (void)c; seen += n->nodeClass >= 0; }
void vf_main(void) {
    ctx = vf_choose(0, NCTX - 1);
    variant = vf_choose(VLO, VHI);
    ext = variant == 1;
    vf_docResult[0] = TRUNC ? vf_choose(1, 2) : 0;
    NodesetLoader_ExtensionInterface ifc = {NULL, xNew, xStart, xEnd, xFinish};
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    bool ok = vf_import(l, 0, ext ? &ifc : NULL);
    vf_obs(ok);
#ifdef P14
    vf_assert(ok == !TRUNC, "well-formed documents are accepted, truncated ones are not");
#endif
    if(vf_choose(0, 1)) vf_obs(NodesetLoader_sort(l));
    for(int c = 0; c < NL_NODECLASS_COUNT; c++) NodesetLoader_forEachNode(l, (NL_NodeClass)c, NULL, cb);
    for(const NL_BiDirectionalReference *r = NodesetLoader_getBidirectionalRefs(l); r; r = r->next) seen++;
    NodesetLoader_delete(l);
#ifdef P14
    vf_assert(vf_live == 0, "everything is released, once");
    vf_assert(vf_openFiles == 0 && vf_parserLive == 0, "file and parser are closed");
#endif
    vf_witness("done");
}

/* P24: any sequence of API calls is answered, not crashed on. */
#include "doc.h"
#ifndef OPS
#define OPS 3
#endif
static int imported, first;
static void doc0(void) {
    S("UANodeSet", END); nsUris(1);
    S("UAObject", "NodeId", "ns=1;i=1", "BrowseName", "1:a", END);
    S("References", END); ref("ns=1;i=7", 0, "i=85"); ref("i=35", 0, "ns=1;i=2"); E();
    E();
    S("UAReferenceType", "NodeId", "ns=1;i=7", "BrowseName", "1:t", END); S("References", END); ref("i=45", 0, "i=33"); E(); E();
    E();
}
static void doc1(void) {
    S("UANodeSet", END); nsUris(1);
    S("UAObject", "NodeId", "ns=1;i=2", "BrowseName", "1:b", END); S("References", END); ref("i=35", 1, "ns=1;i=3"); E(); E();
    E();
}
/* held back forever: the type is never declared */
static void doc4(void) {
    S("UANodeSet", END); nsUris(1);
    S(vf_choose(0, 1) ? "UAMethod" : "UAReferenceType", "NodeId", "ns=1;i=4", "BrowseName", "1:b", END); S("References", END); ref("ns=1;i=99", 1, "i=85"); E(); E();
    E();
}
static int cnt;
static void cb(void *c, NL_Node *n) { (void)c; (void)n; cnt++; }
static NL_FileContext fc;
void vf_main(void) {
    for(int k = 0; k < 16; k++) vf_nsMap[k] = 5;
    NodesetLoader *l = NodesetLoader_new(vf_choose(0, 1) ? &vf_logger : NULL, NULL);
    vf_doc[0] = doc0; vf_doc[1] = doc1; vf_doc[4] = doc4; vf_docResult[2] = 1; vf_docResult[3] = 2;
    int n0 = 0, n1 = 0, e0 = 0, e1 = 0, n4 = 0;  /* imported / emitted */
    for(int i = 0; i < OPS; i++) {
        memset(&fc, 0, sizeof fc);
        switch(vf_int(0, 10)) {
        case 0: vf_assert(!NodesetLoader_importFile(l, NULL), "no context: refused"); break;
        case 1: fc.file = "0"; vf_assert(!NodesetLoader_importFile(l, &fc), "no callback: refused"); break;
        case 2: vf_assert(!vf_import(l, 7, NULL), "missing file: refused"); vf_witness("missing file"); break;
        case 3: vf_assert(!vf_import(l, 2, NULL), "malformed file: refused"); break;
        case 4: vf_assert(!vf_import(l, 3, NULL), "truncated file: refused"); break;
        case 5: if(n0) break; vf_assert(vf_import(l, 0, NULL), "good file"); n0 = 1; break;
        case 6: if(n1) break; vf_assert(vf_import(l, 1, NULL), "good file"); n1 = 1; break;
        case 7: {
            int any = n0 | n1;
            bool ok = NodesetLoader_sort(l);
            if(n4) { vf_assert(!ok, "unresolvable"); vf_witness("unresolvable"); }
            else if(any) { vf_assert(ok, "sorts"); e0 = n0; e1 = n1; vf_witness("sorted"); }
            break; }
        case 8: cnt = 0; {
            size_t k = 0;
            for(int c = 0; c < NL_NODECLASS_COUNT; c++) k += NodesetLoader_forEachNode(l, (NL_NodeClass)c, NULL, cb);
            vf_assert((int)k == cnt && cnt == 2 * e0 + e1, "the nodes of the sorted files"); vf_witness("visited"); }
            break;
        case 10: if(n4) break; vf_assert(vf_import(l, 4, NULL), "good file"); n4 = 1; break;
        case 9: vf_assert(NodesetLoader_getBidirectionalRefs(l) == NULL, "no encodings"); break;
        }
    }
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0 && vf_openFiles == 0 && vf_parserLive == 0, "everything is released");
}

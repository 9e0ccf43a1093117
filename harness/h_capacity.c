/* P19: more aliases / reference types / nodes than any initial capacity. */
#include "doc.h"
static int what, pick, mode;
static char buf[32];
static const char *num(const char *fmt, int v) { snprintf(buf, sizeof buf, fmt, v); return buf; }
#define HIER(i) (mode == 2 ? (i) % 2 : mode)
static int cnt[] = {305, 112};
static void doc(void) {
    S("UANodeSet", END); nsUris(1);
    if(what == 0) {
        S("Aliases", END);
        for(int i = 0; i < cnt[0]; i++) {
            char nm[16], v[16];
            snprintf(nm, sizeof nm, "A%d", i); snprintf(v, sizeof v, "i=%d", 2000 + i);
            S("Alias", "Alias", nm, END); T(v); E();
        }
        E();
        S("UAVariable", "NodeId", "ns=1;i=1", "BrowseName", "1:a", "DataType", num("A%d", pick), END);
        E();
    } else {
        for(int i = 0; i < cnt[1]; i++) {
            S("UAReferenceType", "NodeId", num("ns=1;i=%d", 1000 + i), "BrowseName", "1:t", END);
            S("References", END); ref("i=45", 0, HIER(i) ? "i=33" : "i=32"); E();
            E();
        }
        S("UAObject", "NodeId", "ns=1;i=1", "BrowseName", "1:a", END);
        S("References", END); ref(num("ns=1;i=%d", 1000 + pick), 1, "i=85"); E();
        E();
    }
    E();
}
void vf_main(void) {
    what = vf_choose(0, 1);
    static const int P0[] = {0, 1, 150, 298, 299, 300, 301, 304}, P1[] = {0, 1, 38, 49, 50, 99, 100, 111};
    mode = what ? vf_choose(0, 2) : 0;
    pick = what ? P1[vf_choose(0, 7)] : P0[vf_choose(0, 7)];
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "import");
    vf_assert(NodesetLoader_sort(l), "sort");
    struct { NL_Node *n; } found = {NULL};
    void grab(void *c, NL_Node *n);
    NodesetLoader_forEachNode(l, what ? NODECLASS_OBJECT : NODECLASS_VARIABLE, &found, grab);
    vf_assert(found.n != NULL, "node");
    if(what == 0) {
        vf_assert(vf_isNum(&((NL_VariableNode *)found.n)->datatype, 0, 2000u + (unsigned)pick), "alias resolved");
        vf_witness("aliases");
    } else {
        vf_assert((found.n->hierachicalRefs != NULL) == HIER(pick) && (found.n->nonHierachicalRefs != NULL) == !HIER(pick), "classification");
        vf_witness("types");
    }
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "everything is released");
}
void grab(void *c, NL_Node *n) { *(NL_Node **)c = n; }

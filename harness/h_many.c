/* P21: node lists grow without losing, repeating or reordering anything. */
#include "doc.h"
static int cls, n, mark;
static const char *CLS[] = {"UAView", "UAObjectType", "UADataType", "UAReferenceType", "UAVariableType", "UAMethod", "UAObject"};
static const NL_NodeClass NC[] = {NODECLASS_VIEW, NODECLASS_OBJECTTYPE, NODECLASS_DATATYPE, NODECLASS_REFERENCETYPE, NODECLASS_VARIABLETYPE, NODECLASS_METHOD, NODECLASS_OBJECT};
static void doc(void) {
    S("UANodeSet", END); nsUris(1);
    for(int i = 0; i < n; i++) {
        char a[24];
        snprintf(a, sizeof a, "ns=1;i=%d", 1000 + (i * 37) % 20011);
        S(CLS[cls], "NodeId", a, "BrowseName", "1:a", END);
#ifdef UNKNOWN
        S("References", END); ref("ns=1;i=999", 1, "i=85"); E();
#endif
        E();
    }
#ifdef UNKNOWN
    S("UAReferenceType", "NodeId", "ns=1;i=999", "BrowseName", "1:rt", END); S("References", END); ref("i=45", 0, "i=32"); E(); E();
#endif
    E();
}
static int seen[20100], total;
static int other;
static void cb(void *ctx, NL_Node *x) {
    vf_assert(ctx == &total, "the caller's context is passed on");
    vf_assert(x->nodeClass == NC[cls], "node class");
    int k = (int)x->id.identifier.numeric;
    if(k == 999) { other++; return; }
    vf_assert(k >= 1000 && k < 1000 + 20011, "a declared node");
    seen[k - 1000]++;
    total++;
}
void vf_main(void) {
    cls = vf_choose(LO, HI);
    n = vf_int(NLO, NHI);
    if(vf_int(0, 1)) vf_assume(n % STEP == 0); else vf_assume(n <= NLO + NEAR);
    mark = vf_int(0, 20010);
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "imports");
    vf_assert(NodesetLoader_sort(l), "sorts");
    size_t k = NodesetLoader_forEachNode(l, NC[cls], &total, cb);
    vf_assert((int)k == n + other && total == n, "as many as declared");
    for(int i = 0; i < n; i++) vf_assert(seen[(i * 37) % 20011] == 1, "each once");
    vf_witness("grown");
    vf_obs(total);
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "released");
}

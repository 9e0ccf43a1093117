/* P07: every numeric namespace-zero reference type i=31..129. */
#include "doc.h"
static int t;
static const char *type(char *b) {
    strcpy(b, "i=000");
    b[2] = (char)('0' + t / 100); b[3] = (char)('0' + t / 10 % 10); b[4] = (char)('0' + t % 10);
    return b;
}
static void doc(void) {
    char b[8];
    S("UANodeSet", END);
    nsUris(1);
    S("UAObjectType", "NodeId", "ns=1;i=1", "BrowseName", "1:a", END);
    S("References", END);
    ref(type(b), 1, "i=85");
    E();
    E();
    E();
}
void vf_main(void) {
    t = vf_int(31, 129);
    /* HasEncoding (38) is deliberately kept with the hierarchical references */
    vf_assume(t != 38);
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "well-formed document imports");
    vf_assert(NodesetLoader_sort(l), "built-in reference types are known");
    vf_collect(l);
    vf_assert(vf_nNodes == 1, "one node");
    NL_Node *n = vf_nodes[0].n;
    int h = n->hierachicalRefs != NULL, nh = n->nonHierachicalRefs != NULL;
    vf_assert(h + nh == 1, "the reference is kept once");
    int want = VF_OR(VF_OR(VF_AND(t >= 33, t <= 36), VF_AND(t >= 44, t <= 49)), t == 56);
    vf_assert(h == want, "built-in hierarchical types are classified as such");
    if(h) vf_witness("hierarchical"); else vf_witness("non-hierarchical");
    NodesetLoader_delete(l);
}

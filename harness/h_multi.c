/* P25: several files imported into one loader, sorted together or one after the other. */
#include "doc.h"
static int swap_, between, tA, tB, dirB, idB, aliasB, reuse, again;
/* file 0: Uris a,b; file 1: Uris b,a or a,b; the callback hands out one index per distinct Uri */
static unsigned short nsCb(void *ctx, const char *uri) { (void)ctx; vf_nsCount++; return (unsigned short)(40 + uri[4] - 'a'); }
static void docA(void) {
    char b[16];
    S("UANodeSet", END);
    S("NamespaceUris", END); EL("Uri", "urn:a"); EL("Uri", "urn:b"); E();
    S("Alias", "Alias", "Al", END); T("i=35"); E();
    S("UAObject", "NodeId", "ns=1;i=1", "BrowseName", "2:x", END);
    S("References", END); ref("Al", 0, nid(b, 2, tA)); E();
    E(); E();
}
static void docB(void) {
    char a[16], b[16];
    S("UANodeSet", END);
    S("NamespaceUris", END); EL("Uri", swap_ ? "urn:b" : "urn:a"); EL("Uri", swap_ ? "urn:a" : "urn:b"); E();
    if(aliasB) { S("Alias", "Alias", "Al", END); T("i=46"); E(); }
    S("UAObject", "NodeId", nid(a, swap_ ? 1 : 2, idB), "BrowseName", "1:y", END);
    S("References", END); ref("Al", dirB, nid(b, swap_ ? 2 : 1, tB)); E();
    E(); E();
}
static bool imp(NodesetLoader *l, int d) {
    char f[2] = {(char)('0' + d), 0};
    NL_FileContext fc; memset(&fc, 0, sizeof fc); fc.file = f; fc.addNamespace = nsCb;
    return NodesetLoader_importFile(l, &fc);
}
static int posA, posB, cntA, cntB;
void vf_main(void) {
    swap_ = vf_choose(0, 1); between = vf_choose(0, 1); dirB = vf_choose(0, 1); aliasB = vf_choose(0, 1);
    again = vf_choose(0, 1);
    tA = vf_int(0, 2); idB = vf_int(0, 2); tB = vf_int(0, 2);
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = docA; vf_doc[1] = docB;
    vf_assert(imp(l, 0), "first file");
    if(between) vf_assert(NodesetLoader_sort(l), "sorts");
    vf_assert(imp(l, 1), "second file");
    vf_assert(vf_nsCount == 4, "every Uri of every file is announced");
    bool ok = NodesetLoader_sort(l);
    /* without an alias of its own the second file's reference has no known type: null id, a built-in one */
    vf_assert(ok, "sorts");
    if(again) vf_assert(NodesetLoader_sort(l), "nothing left to sort");
    vf_collect(l);
    vf_assert(vf_nNodes == 2, "the nodes of both files, once");
    NL_Node *A = NULL, *B = NULL;
    for(int i = 0; i < 2; i++) {
        if(vf_nodes[i].n->browseName.name[0] == 'x') { A = vf_nodes[i].n; posA = i; }
        if(vf_nodes[i].n->browseName.name[0] == 'y') { B = vf_nodes[i].n; posB = i; }
    }
    vf_assert(A && B, "both nodes");
    vf_assert(vf_isNum(&A->id, 40, 1) && A->browseName.nsIdx == 41, "first file: its own namespace table");
    vf_assert(isNid(&B->id, 41, idB) && B->browseName.nsIdx == (swap_ ? 41 : 40), "second file: its own namespace table");
    NL_Reference *ra = A->hierachicalRefs, *rb = aliasB ? B->hierachicalRefs : B->nonHierachicalRefs;
    vf_assert(ra && vf_isNum(&ra->refType, 0, 35) && isNid(&ra->target, 41, tA), "first file: references");
    vf_assert(rb && isNid(&rb->target, 40, tB) && rb->isForward == dirB, "second file: references");
    if(aliasB) { vf_assert(vf_isNum(&rb->refType, 0, 46), "second file: its own alias"); vf_witness("own alias"); }
    else vf_assert(UA_NodeId_isNull(&rb->refType), "the first file's aliases are gone");
    if(!between) { vf_assert(VF_IMPLIES(tA == idB, posB < posA), "order across files"); vf_witness("together"); }
    else vf_witness("one after the other");
    vf_obs(posA);
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "released");
}

/* P25: a reference type and nodes using it, spread over files in any order; sorting may be tried after any file. */
#include "doc.h"
static int decl, ty[K], id[K], hier, cur, both;
static void docK(void) {
    char a[16];
    S("UANodeSet", END); nsUris(1);
    if(cur == decl || both) {
        if(cur == decl) { S("UAReferenceType", "NodeId", "ns=1;i=90", "BrowseName", "1:t", END); S("References", END); ref("i=45", 0, hier ? "i=33" : "i=32"); E(); E(); }
    }
    if(cur != decl || both) {
        S("UAObject", "NodeId", nid(a, 1, id[cur]), "BrowseName", "1:n", END);
        S("References", END); ref(ty[cur] ? "ns=1;i=90" : "i=35", 1, "i=85"); E(); E();
    }
    E();
}
void vf_main(void) {
    for(int k = 0; k < 16; k++) vf_nsMap[k] = 5;
    decl = vf_choose(0, K); /* K: never */
    hier = vf_choose(0, 1); both = vf_choose(0, 1);
    for(int i = 0; i < K; i++) {
        ty[i] = vf_choose(0, 1); id[i] = vf_int(0, 9);
        for(int j = 0; j < i; j++) vf_assume(id[i] != id[j]);
    }
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = docK;
    int used = 0, ok = 0;
    for(cur = 0; cur < K; cur++) {
        vf_assert(vf_import(l, 0, NULL), "imports");
        if(cur != decl || both) used |= ty[cur];
        if(cur == K - 1 || vf_choose(0, 1)) {
            ok = NodesetLoader_sort(l);
            vf_assert(ok == (!used || decl <= cur), "sorting fails exactly while a type used so far is not declared");
            if(!ok) vf_witness("held back");
        }
    }
    if(ok) {
        vf_collect(l);
        vf_assert(vf_nNodes == (decl < K) + (both ? K : decl < K ? K - 1 : K), "every node of every file comes out, once");
        for(int i = 0; i < K; i++) if(i != decl || both) {
            vf_assert(vf_countNum(5, NID(id[i])) == 1, "once");
            NL_Node *n = vf_findNum(5, NID(id[i]));
            vf_assert((n->hierachicalRefs != NULL) == (!ty[i] || hier) && (n->nonHierachicalRefs != NULL) == (ty[i] && !hier) && !n->unknownRefs, "its reference is classified");
        }
        vf_witness("sorted");
    }
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "released");
}

/* P05: ids declared more than once. */
#include "doc.h"
#ifndef K
#define K 3
#endif
#ifndef HELD
#define HELD 0          /* references of a type that is declared after the nodes */
#endif
static int id[K], cls[K], nref[K], held[K], str;
static const char *CLS[] = {"UAObject", "UAVariable", "UADataType"};
static const NL_NodeClass NC[] = {NODECLASS_OBJECT, NODECLASS_VARIABLE, NODECLASS_DATATYPE};
static const char *sid(char *b, int d) {
    if(!str) return nid(b, 1, d);
    strcpy(b, "ns=1;s=ab0");
    b[9] = (char)('0' + d);
    return b;
}
static void doc(void) {
    char a[16], bn[4] = "1:a";
    S("UANodeSet", END);
    nsUris(1);
    for(int i = 0; i < K; i++) {
        bn[2] = (char)('a' + i);
        S(CLS[cls[i]], "NodeId", sid(a, id[i]), "BrowseName", bn, END);
        EL("DisplayName", bn);
        S("References", END);
        if(nref[i] & 1) ref("i=47", 0, "i=85");
        if(nref[i] & 2) ref("i=39", 1, "ns=1;s=other");
        if(held[i]) ref("ns=1;i=90", 1, "i=84");
        E();
        E();
    }
    if(HELD) {
        S("UAReferenceType", "NodeId", "ns=1;i=90", "BrowseName", "1:z", END);
        S("References", END);
        ref("i=45", 0, "i=32");
        E();
        E();
    }
    E();
}
void vf_main(void) {
    str = HELD ? 0 : vf_choose(0, 1);
    for(int i = 0; i < K; i++) { id[i] = vf_int(0, K - 1); cls[i] = vf_choose(0, CMAX); nref[i] = HELD ? i & 2 : vf_choose(0, 1) ? 3 : i & 2; held[i] = HELD && vf_choose(0, 1); }
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "well-formed document imports");
    vf_assert(NodesetLoader_sort(l), "repeated ids do not make the import fail");
    vf_collect(l);
    int kept = 0;
    for(int i = 0; i < K; i++) {
        int dup = 0;
        for(int j = 0; j < i; j++) dup = VF_OR(dup, id[j] == id[i]);
        int seen = 0;
        for(int p = 0; p < vf_nNodes; p++) {
            NL_Node *n = vf_nodes[p].n;
            if(n->browseName.name[0] == 'a' + i) {
                seen++;
                vf_assert(vf_nodes[p].cls == NC[cls[i]] && n->nodeClass == NC[cls[i]], "class of the kept node");
                if(!str) vf_assert(vf_isNum(&n->id, vf_nsMap[0], NID(id[i])), "id of the kept node");
                vf_assert(n->displayName.text[2] == 'a' + i, "text of the kept node");
                int r = 0; for(NL_Reference *x = n->hierachicalRefs; x; x = x->next) r++;
                for(NL_Reference *x = n->nonHierachicalRefs; x; x = x->next) r++;
                vf_assert(r == (nref[i] & 1) + (nref[i] >> 1) + held[i], "references of the kept node");
            }
        }
        vf_assert(seen == !dup, "the first declaration of an id is kept, later ones are dropped");
        kept += !dup;
        vf_obs(seen);
    }
    vf_assert(vf_nNodes == kept + HELD, "one node per id");
    vf_assert((vf_log.count[NODESETLOADER_LOGLEVEL_ERROR] > 0) == (kept < K), "dropping a declaration is logged");
    if(kept == K) vf_witness("no repetition"); else vf_witness("repetition");
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "dropped declarations are released");
}

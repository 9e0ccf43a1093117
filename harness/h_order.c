/* P03 / P04: emission order and cycle detection through the public interface.
 * K nodes whose ids are symbolic; every node may carry one parent declaration whose target id is
 * symbolic too, so "who is whose parent" (including dangling targets and self references) is the
 * solver's choice. KIND fixes how a declaration is written; -1 explores every way per node. */
#include "doc.h"
#ifndef K
#define K 3
#endif
static int id[K], tg[K], fw[K], kind[K], cls[K];
enum { NONE, INVERSE, FORWARD, PARENT, PARENT_AND_INVERSE, PARENT_AND_FORWARD };
static const char *CLS[] = {"UAObject", "UAVariable", "UAMethod", "UAView", "UAObjectType", "UAVariableType", "UADataType", "UAReferenceType"};
#define INSTANCE(c) ((c) < 4)
static void doc(void) {
    char a[16], b[16];
    S("UANodeSet", END);
    nsUris(1);
    for(int i = 0; i < K; i++) {
        nid(a, 1, id[i]); nid(b, 1, tg[i]);
        if(kind[i] >= PARENT)
            S(CLS[cls[i]], "NodeId", a, "BrowseName", "1:n", "ParentNodeId", b, END);
        else
            S(CLS[cls[i]], "NodeId", a, "BrowseName", "1:n", END);
        if(kind[i] != NONE && kind[i] != PARENT) {
            S("References", END);
            if(kind[i] == PARENT_AND_FORWARD) nid(b, 1, fw[i]);
            ref(REFTYPE, kind[i] == FORWARD || kind[i] == PARENT_AND_FORWARD, b);
            E();
        }
        E();
    }
    E();
}
void vf_main(void) {
    for(int i = 0; i < K; i++) {
        id[i] = vf_int(0, K + 1);
        for(int j = 0; j < i; j++) vf_assume(id[j] != id[i]);
        tg[i] = vf_int(0, K + 1);
        kind[i] = vf_choose(KLO, KHI);
#ifdef K0
        if(i == 0) kind[i] = K0;
#endif
        if(kind[i] == PARENT_AND_FORWARD) fw[i] = vf_int(0, K + 1);
#ifdef KNOT
        if(kind[i] == KNOT) vf_end_path();
#endif
        cls[i] = i == 0 || CMAX == 0 ? vf_choose(0, CMAX) : vf_choose(0, 1) ? (cls[0] + 1) % (CMAX + 1) : cls[0];
        /* ParentNodeId is an attribute of instance nodes; as the only declaration it is exercised for those */
        if(!INSTANCE(cls[i]) && (kind[i] == PARENT || kind[i] == PARENT_AND_FORWARD)) vf_end_path();
    }
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "well-formed document imports");
    bool ok = NodesetLoader_sort(l);
    /* the declared hierarchy: edge[a][b] = a comes before b (self references impose nothing) */
    int edge[K][K], reach[K][K];
    for(int a = 0; a < K; a++) for(int b = 0; b < K; b++) {
        int e = VF_AND(kind[b] != NONE && kind[b] != FORWARD, tg[b] == id[a]);
        if(kind[a] == FORWARD) e = VF_OR(e, tg[a] == id[b]);
        if(kind[a] == PARENT_AND_FORWARD) e = VF_OR(e, fw[a] == id[b]);
        edge[a][b] = a == b ? 0 : e;
        reach[a][b] = edge[a][b];
#ifdef P04
        /* a cycle may run through a node that is not in the file */
        int up = kind[b] != NONE && kind[b] != FORWARD, down = kind[a] == FORWARD || kind[a] == PARENT_AND_FORWARD, x = kind[a] == FORWARD ? tg[a] : fw[a];
        reach[a][b] = VF_OR(reach[a][b], VF_AND(up && down, VF_AND(x == tg[b], VF_AND(x != id[a], x != id[b]))));
#endif
    }
    for(int k = 0; k < K; k++) for(int a = 0; a < K; a++) for(int b = 0; b < K; b++)
        reach[a][b] = VF_OR(reach[a][b], VF_AND(reach[a][k], reach[k][b]));
    int cyclic = 0;
    for(int a = 0; a < K; a++) cyclic = VF_OR(cyclic, reach[a][a]);
#ifdef P04
    if(!ok) {
        vf_witness("a cycle is rejected");
        vf_assert(cyclic, "sorting fails only when the hierarchy has a cycle");
        vf_assert(vf_log.count[NODESETLOADER_LOGLEVEL_ERROR] > 0, "the failure is logged");
    } else {
        vf_witness("an acyclic hierarchy is accepted");
        vf_assert(!cyclic, "a cyclic hierarchy is rejected");
    }
    vf_obs(ok);
#else
    if(ok) {
        vf_witness("sorted");
        vf_collect(l);
        vf_assert(vf_nNodes == K, "as many nodes as declared");
        int pos[K];
        for(int i = 0; i < K; i++) {
            pos[i] = -1;
            for(int p = 0; p < vf_nNodes; p++)
                if(isNid(&vf_nodes[p].n->id, vf_nsMap[0], id[i])) {
                    vf_assert(pos[i] < 0, "each node appears once");
                    pos[i] = p;
                    static const NL_NodeClass NC[] = {NODECLASS_OBJECT, NODECLASS_VARIABLE, NODECLASS_METHOD, NODECLASS_VIEW, NODECLASS_OBJECTTYPE, NODECLASS_VARIABLETYPE, NODECLASS_DATATYPE, NODECLASS_REFERENCETYPE};
                    vf_assert(vf_nodes[p].cls == NC[cls[i]] && vf_nodes[p].n->nodeClass == NC[cls[i]], "in the list of its class");
                }
            vf_assert(pos[i] >= 0, "each node appears");
            vf_obs(pos[i]);
        }
        for(int a = 0; a < K; a++) for(int b = 0; b < K; b++)
            if(a != b && cls[a] == cls[b])
                vf_assert(VF_IMPLIES(reach[a][b], pos[a] < pos[b]), "a node comes after its hierarchical predecessors");
    }
#endif
    NodesetLoader_delete(l);
}

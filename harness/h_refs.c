/* P13: every reference of a node is kept, once, with type, direction and target. */
#include "doc.h"
#ifndef NR
#define NR 3
#endif
static int ty[NR], dir[NR], tgt[NR], cls;
/* hierarchical, non-hierarchical, type definition, custom non-hierarchical, two custom ones declared after use */
#ifndef TLO
#define TLO 0
#endif
#ifndef THI
#define THI 4
#endif
static const char *TY[] = {"i=47", "i=41", "i=40", "ns=1;i=60", "ns=1;i=61", "ns=1;i=62"};
static const unsigned TN_[] = {47, 41, 40, 60, 61, 62};
static const char *CLS[] = {"UAObject", "UAVariable", "UAObjectType", "UAReferenceType", "UADataType", "UAVariableType", "UAMethod", "UAView"};
#define INV(d) ((d) == 1 || (d) == 4)
static void rt(const char *id, const char *sup) {
    S("UAReferenceType", "NodeId", id, "BrowseName", "1:r", END);
    S("References", END); ref("i=45", 0, sup); E(); E();
}
static void doc(void) {
    char a[16];
    S("UANodeSet", END);
    nsUris(1);
    rt("ns=1;i=60", "i=32");
    S(CLS[cls], "NodeId", "ns=1;i=1", "BrowseName", "1:a", END);
    S("References", END);
    for(int i = 0; i < NR; i++) {
        nid(a, 1, tgt[i]);
        switch(dir[i]) {
        case 0: ref(TY[ty[i]], 1, a); break;
        case 1: ref(TY[ty[i]], 0, a); break;
        case 3: S("Reference", "ReferenceType", TY[ty[i]], "IsForward", "1", END); T(a); E(); break;
        case 4: S("Reference", "ReferenceType", TY[ty[i]], "IsForward", "0", END); T(a); E(); break;
        case 2: S("Reference", "IsForward", "true", "ReferenceType", TY[ty[i]], END); T(a); E(); break;
        }
    }
    E();
    E();
    rt("ns=1;i=61", "i=33");
    rt("ns=1;i=62", "i=32");
    E();
}
void vf_main(void) {
    cls = vf_choose(0, CMAX);
    for(int i = 0; i < NR; i++) {
        ty[i] = vf_choose(TLO, THI);
        dir[i] = i ? vf_choose(0, 1) : vf_choose(0, 4);
        tgt[i] = vf_int(0, 9);
        /* a type definition is a forward reference */
        if(ty[i] == 2 && INV(dir[i])) vf_end_path();
    }
    /* a node cannot be both above and below the same target */
    for(int i = 0; i < NR; i++) for(int j = 0; j < NR; j++)
        if((ty[i] == 0 || ty[i] == 4) && (ty[j] == 0 || ty[j] == 4) && INV(dir[i]) && !INV(dir[j])) vf_assume(tgt[i] != tgt[j]);
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "well-formed document imports");
    bool ok = NodesetLoader_sort(l);
    vf_assert(ok, "sorts");
    vf_collect(l);
    vf_assert(vf_nNodes == 4, "nodes");
    NL_Node *n = vf_findNum(vf_nsMap[0], 1);
    vf_assert(n && n->unknownRefs == NULL, "every reference is classified");
    NL_Reference *td = cls == 0 ? ((NL_ObjectNode *)n)->refToTypeDef : cls == 1 ? ((NL_VariableNode *)n)->refToTypeDef : NULL;
    NL_Reference *lists[3] = {n->hierachicalRefs, n->nonHierachicalRefs, td};
    int total = 0;
    if(TLO > 2) vf_witness("type definition");
    for(int k = 0; k < 3; k++) for(NL_Reference *r = lists[k]; r; r = r->next) {
        total++;
        /* some written reference says exactly this */
        int ok1 = 0;
        for(int i = 0; i < NR; i++) {
            int m = vf_isNum(&r->refType, ty[i] > 2 ? vf_nsMap[0] : 0, TN_[ty[i]]);
            m = VF_AND(m, r->isForward == !INV(dir[i]));
            m = VF_AND(m, isNid(&r->target, vf_nsMap[0], tgt[i]));
            m = VF_AND(m, (k == 0) == (ty[i] == 0 || ty[i] == 4));
            ok1 = VF_OR(ok1, m);
        }
        vf_assert(ok1, "no reference is invented or changed");
    }
    vf_assert(total == NR, "as many references as written");
    for(int i = 0; i < NR; i++) {
        int have = 0, want = 0;
        for(int k = 0; k < 3; k++) for(NL_Reference *r = lists[k]; r; r = r->next)
            have += VF_AND(VF_AND(vf_isNum(&r->refType, ty[i] > 2 ? vf_nsMap[0] : 0, TN_[ty[i]]), r->isForward == !INV(dir[i])), isNid(&r->target, vf_nsMap[0], tgt[i]));
        for(int j = 0; j < NR; j++) want += VF_AND(ty[j] == ty[i] && INV(dir[j]) == INV(dir[i]), tgt[j] == tgt[i]);
        vf_assert(have == want, "every written reference is kept, once");
    }
    if(cls < 2) {
        int first = -1;
        for(int i = NR - 1; i >= 0; i--) if(ty[i] == 2) first = i;
        vf_assert((td != NULL) == (first >= 0), "the type definition of an instance is available");
        if(td) { vf_assert(isNid(&td->target, vf_nsMap[0], tgt[first]), "the first type definition wins"); vf_witness("type definition"); }
    }
    vf_witness("references");
    vf_obs(total);
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "released");
}

/* P06 / P07: custom reference types.  T types ns=1;i=10..; base[t] is what type t is derived from
 * (a built-in type or the previous custom type); a node uses one type whose id is symbolic; USE
 * decides whether the user comes before or after the declarations. */
#include "doc.h"
#ifndef EXTRA
#define EXTRA 2
#endif
#ifndef T_
#define T_ 2
#endif
static int base[T_], order[T_], usePos, useId, asForward, userIsRefType, second, extra;
/* built-in bases: hierarchical ones first */
static const char *BASE[] = {"i=33", "i=35", "i=44", "i=45", "i=47", "i=34", "i=49", "i=32", "i=41", "i=31"};
#define NHIER 7
#define NBASE 10
static void user(void) {
    char b[16], c[16];
    S(userIsRefType ? "UAReferenceType" : "UAObject", "NodeId", "ns=1;i=50", "BrowseName", "1:u", END);
    S("References", END);
    ref(nid(b, 1, useId), asForward, "ns=1;s=target");
    if(second) ref(nid(c, 1, 0), 1, "i=86");
    ref("i=47", 0, "i=85");
    E();
    E();
}
static void doc(void) {
    char a[16], s[16];
    S("UANodeSet", END);
    nsUris(1);
    for(int k = 0; k <= T_; k++) {
        if(k == usePos) user();
        if(k == T_) break;
        int t = order[k];
        S("UAReferenceType", "NodeId", nid(a, 1, t), "BrowseName", "1:t", END);
        S("References", END);
        if(extra == 1) { ref("i=46", 1, "i=47"); ref("i=47", 1, "i=33"); }
        ref("i=45", 0, base[t] >= NBASE ? nid(s, 1, base[t] - NBASE) : BASE[base[t]]);
        if(extra == 2) { ref("i=45", 1, "i=47"); ref("i=41", 0, "i=33"); ref("i=46", 1, "i=35"); }
        E();
        E();
    }
    E();
}
static int hier(int t) { return base[t] >= NBASE ? hier(base[t] - NBASE) : base[t] < NHIER; }
void vf_main(void) {
    for(int t = 0; t < T_; t++) {
        base[t] = vf_choose(BLO, t ? NBASE : NBASE - 1);
        if(base[t] == NBASE) base[t] = NBASE + t - 1;
        order[t] = t;
    }
#ifdef ANYORDER
    { int r = vf_choose(0, T_ - 1); int tmp = order[r]; order[r] = order[0]; order[0] = tmp; }
#endif
#ifdef FINDING
    vf_assume(order[0] != 0);
#endif
    usePos = vf_choose(0, T_);
    useId = vf_int(0, T_);
    asForward = vf_choose(0, 1);
    userIsRefType = vf_choose(0, UMAX);
    second = vf_choose(0, SECOND);
    extra = vf_choose(0, EXTRA);
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "well-formed document imports");
    bool ok = NodesetLoader_sort(l);
    vf_obs(ok);
#ifdef P06
    vf_assert(ok == (useId < T_), "sorting fails exactly when a reference type cannot be resolved");
    if(!ok) { vf_witness("unresolved"); vf_assert(vf_log.count[NODESETLOADER_LOGLEVEL_ERROR] > 0, "the failure is logged"); }
#endif
    if(ok) {
        vf_witness("resolved");
        vf_collect(l);
        vf_assert(vf_nNodes == T_ + 1, "all nodes");
#ifdef P07
        NL_Node *u = vf_findNum(vf_nsMap[0], 50);
        vf_assert(u != NULL, "the user is there");
        int h = 0, n = 0;
        for(NL_Reference *r = u->hierachicalRefs; r; r = r->next)
            if(r->target.identifierType == UA_NODEIDTYPE_STRING) {
                h++;
                vf_assert(r->isForward == asForward && isNid(&r->refType, vf_nsMap[0], useId), "the reference is unchanged");
            }
        for(NL_Reference *r = u->nonHierachicalRefs; r; r = r->next) if(r->target.identifierType == UA_NODEIDTYPE_STRING) n++;
        vf_assert(h + n == 1, "the reference is kept once");
        for(int t = 0; t < T_; t++) vf_assert(VF_IMPLIES(useId == t, h == hier(t)), "a custom type is hierarchical exactly when its supertype is");
        if(h) vf_witness("hierarchical"); else vf_witness("non-hierarchical");
        vf_assert(u->unknownRefs == NULL, "nothing stays unclassified");
#endif
    }
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "everything is released");
}

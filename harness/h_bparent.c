/* Under which parent, by which reference and with which type definition a node is added. */
#include "bdoc.h"
static const char *EL_[] = {"UAObject", "UAVariable", "UAMethod", "UAView"};
static const char *TG[] = {"ns=1;i=50", "ns=1;i=51", "i=85"};
static const char *RT[] = {"i=35", "i=46", "i=47", "ns=1;i=90"};
static int cls, nInv, tgt[2], rt[2], pid, fwd, fwdType, before, tdef, noise;
static int idOf(const UA_NodeId *id, int t) { return t == 2 ? vf_isNum(id, 0, 85) : vf_isNum(id, vf_nsMap[0], t == 0 ? 50 : 51); }
static int rtIs(const UA_NodeId *id, int r) { return r == 3 ? vf_isNum(id, vf_nsMap[0], 90) : vf_isNum(id, 0, r == 0 ? 35 : r == 1 ? 46 : 47); }
static const char *own(void) { return pid & 1 ? "ns=1;s=T" : "ns=1;i=70"; }
static void node(void) {
    if(pid) S(EL_[cls], "NodeId", "ns=1;i=60", "BrowseName", "1:n", "ParentNodeId", TG[pid - 1], END);
    else S(EL_[cls], "NodeId", "ns=1;i=60", "BrowseName", "1:n", END);
    S("References", END);
    if(noise == 1) ref("i=37", 1, "i=78");
    for(int i = 0; i < nInv; i++) {
        if(i == 1 && tdef) ref("i=40", 1, tdef == 1 ? "i=63" : own());
        ref(RT[rt[i]], 0, TG[tgt[i]]);
    }
    if(noise == 2) ref("i=47", 1, "ns=1;i=61");
    if(tdef && nInv < 2) ref("i=40", 1, tdef == 1 ? "i=63" : own());
    E(); E();
}
static void parents(void) {
    S("UAObject", "NodeId", "ns=1;i=50", "BrowseName", "1:p", END);
    S("References", END); ref("i=35", 0, "i=85"); if(fwd) ref(RT[fwdType], 1, "ns=1;i=60"); E(); E();
    S("UAObject", "NodeId", "ns=1;i=51", "BrowseName", "1:q", END); parentRef("i=35", "i=85"); E();
}
static void doc(void) {
    docBegin(1);
    S("UAReferenceType", "NodeId", "ns=1;i=90", "BrowseName", "1:R", END); parentRef("i=45", "i=47"); E();
    S("UAObjectType", "NodeId", own(), "BrowseName", "1:T", END); parentRef("i=45", "i=58"); E();
    if(before) { node(); parents(); } else { parents(); node(); }
    E();
}
static int isStr(const UA_NodeId *id) { UA_NodeId t = UA_NODEID_STRING(vf_nsMap[0], "T"); return UA_NodeId_equal(id, &t); }
static int seen;
static void onAdd(const struct VfAdd *a) {
    if(!vf_isNum(a->id, vf_nsMap[0], 60) || a->result != UA_STATUSCODE_GOOD) return;
    seen++;
    if(nInv) {
        int ok = 0, named = 0;
        for(int i = 0; i < nInv; i++) named |= pid && tgt[i] == pid - 1;
        for(int i = 0; i < nInv; i++) ok |= idOf(a->parent, tgt[i]) && rtIs(a->refType, rt[i]) && (!named || tgt[i] == pid - 1);
        vf_assert(ok, "parent and reference of the same declaration, preferably the one ParentNodeId names");
    } else if(pid) {
        vf_assert(idOf(a->parent, pid - 1), "ParentNodeId");
        if(fwd && pid == 1) { vf_assert(rtIs(a->refType, fwdType), "type of the parent's own reference"); if(before) vf_witness("node in front of its parent"); }
        else vf_assert(rtIs(a->refType, 2), "HasComponent");
    } else vf_assert(UA_NodeId_isNull(a->parent), "no parent is invented");
    if(cls < 2) { if(tdef) vf_assert(tdef == 1 ? vf_isNum(a->typeDef, 0, 63) : (pid & 1 ? isStr(a->typeDef) : vf_isNum(a->typeDef, vf_nsMap[0], 70)), "type definition"); else vf_assert(UA_NodeId_isNull(a->typeDef), "no type definition"); }
}
void vf_main(void) {
    cls = vf_choose(0, 3); nInv = vf_choose(0, 2); pid = vf_choose(0, 3);
    for(int i = 0; i < nInv; i++) { tgt[i] = vf_choose(0, 2); rt[i] = i ? (rt[0] + 1) % 4 : vf_choose(0, 3); }
    fwd = nInv == 2 ? 0 : vf_choose(0, 1); if(fwd) fwdType = nInv ? rt[0] : vf_choose(0, 3);
    int extra = vf_choose(0, nInv == 2 ? 1 : cls < 2 ? 4 : 2);
    if(cls >= 2) extra *= 2;
    tdef = cls < 2 && (extra == 1 || extra == 2) ? extra : 0; noise = extra > 2 ? extra - 2 : cls >= 2 ? extra / 2 : 0;
    before = nInv ? (cls + extra) & 1 : vf_choose(0, 1);
    if(cls >= 2 && !nInv && !pid) vf_end_path();
    if(fwd && nInv && tgt[0] == 0 && rt[0] != fwdType) vf_end_path();    /* the same two nodes twice related: either may be taken */
    vf_doc[0] = doc; vf_onAdd = onAdd;
    vf_assert(vf_load(0), "loads");
    vf_assert(seen == 1, "the node is added once");
    if(nInv == 2 && pid == 2) vf_witness("several declarations");
    bEnd();
}

/* Reference types are hierarchical, type definitions or neither according to the hierarchy of the server, of earlier files
 * and of the file itself.  Types ns=1;i=10.. form a chain below a standard one; the first ones exist at the server, the next
 * come from an earlier file, the others from the file that uses one of them. */
#include "bdoc.h"
static const char *ROOT[] = {"i=33", "i=35", "i=49", "i=32", "i=41", "i=31", "i=40"};
static const unsigned ROOTN[] = {33, 35, 49, 32, 41, 31, 40};
static int root, atServer, inFirst, inSecond, wide, use, cls, before, selfSuper;
#define L (atServer + inFirst + inSecond)
static void type(int k) {
    char a[16], b[16];
    S("UAReferenceType", "NodeId", nid(a, 1, k), "BrowseName", "1:R", END);
    S("References", END);
    if(selfSuper == 1) ref("i=45", 0, a);
    ref("i=45", 0, k ? nid(b, 1, k - 1) : ROOT[root]);
    if(selfSuper == 2) ref("i=37", 0, "i=33");
    if(selfSuper == 3) { ref("i=45", 1, root <= 2 ? "i=40" : "i=47"); ref("i=45", 1, root == 6 ? "i=36" : "i=40"); }   /* its subtypes do not decide what it is */
    E(); E();
}
static void types(int from, int to) { for(int k = from; k < to; k++) type(k); }
static void user(void) {
    char b[16];
    S(cls ? "UAVariable" : "UAObject", "NodeId", "ns=1;i=60", "BrowseName", "1:n", END);
    S("References", END);
    if(root == 6) { ref("i=47", 0, "i=85"); ref(nid(b, 1, use), 1, "i=63"); }
    else ref(nid(b, 1, use), 0, "ns=1;i=50");
    E(); E();
}
static void doc0(void) { docBegin(1); types(atServer, atServer + inFirst); E(); }
static void doc1(void) {
    docBegin(1);
    if(before) user();
    types(atServer + inFirst, L);
    S("UAObject", "NodeId", "ns=1;i=50", "BrowseName", "1:p", END); parentRef("i=35", "i=85"); E();
    if(!before) user();
    E();
}
static int seen;
static void onAdd(const struct VfAdd *a) {
    if(a->result != UA_STATUSCODE_GOOD) return;
    if(!vf_isNum(a->id, vf_nsMap[0], 60)) return;
    seen++;
    int isU = vf_isNum(a->refType, vf_nsMap[0], NID(use));
    if(root <= 2) vf_assert(vf_isNum(a->parent, vf_nsMap[0], 50) && isU, "parent by a hierarchical reference");
    else if(root == 6) { vf_assert(vf_isNum(a->parent, 0, 85) && vf_isNum(a->refType, 0, 47), "parent"); vf_assert(vf_isNum(a->typeDef, 0, 63), "type definition by a subtype of HasTypeDefinition"); }
    else vf_assert(UA_NodeId_isNull(a->parent) && UA_NodeId_isNull(a->refType), "no parent by a reference that is not hierarchical");
}
static void sub(unsigned short tns, unsigned tid, unsigned short pns, unsigned pid) {
    struct VfSubtype *s = &vf_subtypes[vf_nSubtypes++];
    s->tns = tns; s->tid = tid; s->pns = pns; s->pid = pid; s->cls = UA_NODECLASS_REFERENCETYPE;
}
void vf_main(void) {
    root = vf_choose(0, 6);
    atServer = vf_choose(0, 2); inFirst = vf_choose(0, 2); inSecond = vf_choose(0, 2);
    if(L == 0 || L > MAXL) vf_end_path();
    wide = vf_choose(0, WIDE) ? 101 : 0;
    use = wide ? L - 1 : vf_int(0, L - 1);
    cls = vf_choose(0, 1); before = vf_choose(0, 1); selfSuper = inSecond && !wide ? vf_choose(0, 3) : 0;
    for(int i = 0; i < wide; i++) sub(7, 1000u + (unsigned)i, 0, ROOTN[root]);
    for(int k = 0; k < atServer; k++) sub(vf_nsMap[0], NID(k), k ? vf_nsMap[0] : 0, k ? NID(k - 1) : ROOTN[root]);
    vf_doc[0] = doc0; vf_doc[1] = doc1; vf_onAdd = onAdd;
    if(inFirst) vf_assert(vf_load(0), "the first file loads");
    if(selfSuper == 1) vf_onAdd = 0;
    bool ok = vf_load(1);
    if(selfSuper == 1) { vf_witness("a type that is its own supertype"); bEnd(); return; }
    vf_assert(ok, "the file loads");
    vf_assert(seen == 1, "the node is added once");
    UA_NodeId n = UA_NODEID_NUMERIC(vf_nsMap[0], 60), t = UA_NODEID_NUMERIC(vf_nsMap[0], NID(use)), p = UA_NODEID_NUMERIC(vf_nsMap[0], 50);
    if(root > 2 && root < 6) vf_assert(vf_srvHasRef(&n, &t, &p, 0) == 1, "the reference is added once");
    if(root == 1 && inFirst && atServer && inSecond) vf_witness("a chain over server and two files");
    bEnd();
}

/* Every reference of the nodeset is at the server, with its type and direction, and no other one. */
#include "bdoc.h"
enum { NONHIER, ORGANIZES, COMPONENT, CUSTOM, CUSTOMSUB, GENERATES, N_TYPES };
static const char *TY[] = {"i=37", "i=35", "i=47", "ns=1;i=90", "ns=1;i=91", "i=41"};
static const unsigned TYN[] = {37, 35, 47, 90, 91, 41};
static const char *EL_[] = {"UAObject", "UAVariable", "UAMethod", "UAView", "UAObjectType", "UAVariableType", "UADataType", "UAReferenceType"};
static int cls, type[NR], fwd[NR], tg[NR], customHier, typesLast, tdef, enc, strTarget;
static void refTypes(void) {
    S("UAReferenceType", "NodeId", "ns=1;i=90", "BrowseName", "1:R", END); parentRef("i=45", customHier ? "i=35" : "i=32"); E();
    S("UAReferenceType", "NodeId", "ns=1;i=91", "BrowseName", "1:Q", END); parentRef("i=45", "ns=1;i=90"); E();
}
/* standard nodes, large numbers */
static int big;
static const char *BIG[] = {"ns=0;i=3000 ", "ns=1;i=429496729 ", "ns=2;i=1500 "};
static const char *target(char *b, int i) { if(big && !i) { strcpy(b, BIG[big - 1]); b[strlen(b) - 1] = (char)('0' + tg[i]); return b; } if(strTarget) { strcpy(b, "ns=1;s=T "); b[8] = (char)('0' + tg[i]); return b; } return nid(b, 1, tg[i]); }
static void doc(void) {
    char b[24];
    docBegin(2);
    if(!typesLast) refTypes();
    S(EL_[cls], "NodeId", "ns=1;i=60", "BrowseName", "1:a", END);
    S("References", END);
    ref(cls < 4 ? "i=47" : "i=45", 0, cls < 4 ? "i=85" : "i=58");
    if(tdef) ref("i=40", 1, "i=63");
    for(int i = 0; i < NR; i++) ref(TY[type[i]], fwd[i], target(b, i));
    E(); E();
    S("UAObject", "NodeId", strTarget ? "ns=1;s=T5" : "ns=1;i=15", "BrowseName", "1:b", END); parentRef("i=35", "i=85"); E();
    if(enc) {
        S("UADataType", "NodeId", "ns=1;i=65", "BrowseName", "1:D", END);
        S("References", END); ref("i=45", 0, "i=22"); if(enc == 2) ref("i=38", 1, "ns=1;i=66"); E(); E();
        S("UAObject", "NodeId", "ns=1;i=66", "BrowseName", "Default Binary", END);
        S("References", END); ref("i=38", 0, "ns=1;i=65"); ref("i=40", 1, "i=76"); E(); E();
    }
    if(typesLast) refTypes();
    E();
}
struct W { UA_NodeId src, type, dst; int fwd; };
static struct W w[24]; static int nW;
static UA_NodeId n0(unsigned i) { return UA_NODEID_NUMERIC(0, i); }
static UA_NodeId n1(unsigned i) { return UA_NODEID_NUMERIC(vf_nsMap[0], i); }
static void want(UA_NodeId src, UA_NodeId t, int f, UA_NodeId dst) { w[nW].src = src; w[nW].type = t; w[nW].dst = dst; w[nW].fwd = f; nW++; }
static char strId[NR][4];
void vf_main(void) {
    cls = vf_choose(0, 7); strTarget = FULL || cls == 0 || cls == 4 ? vf_choose(0, 1) : cls & 1;
    int any = 0;
    for(int i = 0; i < NR; i++) {
        type[i] = i ? (type[0] + vf_choose(0, FULL ? 2 : 1) * (1 + i)) % N_TYPES : vf_choose(0, N_TYPES - 1); fwd[i] = vf_choose(0, 1);
        any |= type[i] == CUSTOM || type[i] == CUSTOMSUB;
        tg[i] = type[i] == NONHIER || type[i] == GENERATES ? vf_int(0, 9) : (FULL || !i ? vf_choose(0, 1) : cls & 1) ? 5 : 7;
    }
    customHier = any ? vf_choose(0, 1) : 0; typesLast = any ? FULL ? vf_choose(0, 1) : fwd[0] : 0; tdef = cls < 2 ? strTarget : 0;
    enc = !any && !strTarget && (cls == 0 || cls == 6) ? vf_choose(0, 2) : 0;
    for(int i = 0; i < NR; i++) for(int j = 0; j < NR; j++) {           /* no cycles */
        int hi = type[i] == ORGANIZES || type[i] == COMPONENT || (customHier && (type[i] == CUSTOM || type[i] == CUSTOMSUB));
        int hj = type[j] == ORGANIZES || type[j] == COMPONENT || (customHier && (type[j] == CUSTOM || type[j] == CUSTOMSUB));
        if(hi && hj && fwd[i] && !fwd[j] && tg[i] == tg[j]) vf_end_path();
    }
    big = (type[0] == NONHIER || type[0] == GENERATES) && !strTarget ? vf_choose(0, FULL || cls == 0 || cls == 7 ? 3 : cls & 3) : 0;
    if(big == 2) vf_assume(tg[0] <= 5);
    vf_doc[0] = doc;
    vf_assert(vf_load(0), "loads");
    UA_NodeId A = n1(60), B = strTarget ? UA_NODEID_STRING(vf_nsMap[0], "T5") : n1(15);
    want(A, n0(cls < 4 ? 47 : 45), 0, n0(cls < 4 ? 85 : 58)); want(B, n0(35), 0, n0(85));
    if(tdef) want(A, n0(40), 1, n0(63));
    for(int i = 0; i < NR; i++) {
        strId[i][0] = 'T'; strId[i][1] = (char)('0' + tg[i]);
        want(A, type[i] == CUSTOM || type[i] == CUSTOMSUB ? n1(TYN[type[i]]) : n0(TYN[type[i]]), fwd[i], big && !i ? big == 1 ? n0(30000u + (unsigned)tg[0]) : big == 2 ? n1(4294967290u + (unsigned)tg[0]) : UA_NODEID_NUMERIC(vf_nsMap[1], 15000u + (unsigned)tg[0]) : strTarget ? UA_NODEID_STRING(vf_nsMap[0], strId[i]) : n1(NID(tg[i])));
    }
    want(n1(90), n0(45), 0, n0(customHier ? 35 : 32)); want(n1(91), n0(45), 0, n1(90));
    int nWritten = nW + (enc ? enc + 2 : 0);
    if(enc) { want(n1(65), n0(45), 0, n0(22)); want(n1(66), n0(38), 0, n1(65)); want(n1(66), n0(40), 1, n0(76)); if(enc == 2) want(n1(65), n0(38), 1, n1(66)); else { want(n1(65), n0(38), 1, n1(66)); } }
    if(enc == 1) nWritten = nW - 1;                    /* the other direction of a written one: allowed, not demanded */
    vf_assert(vf_nSrv == (enc ? 6 : 4), "all nodes");
    for(int i = 0; i < nWritten; i++) {
        const struct W *x = &w[i];
        int s = vf_srvFind(&x->src);
        vf_assert(s >= 0, "the source is there");
        int isParent = x->fwd ? 0 : VF_AND(UA_NodeId_equal(&vf_srvNodes[s].parent, &x->dst), UA_NodeId_equal(&vf_srvNodes[s].refType, &x->type));
        int isTypeDef = x->fwd && UA_NodeId_equal(&vf_srvNodes[s].typeDef, &x->dst) && vf_isNum(&x->type, 0, 40);
        vf_assert(VF_OR(VF_OR(isParent, isTypeDef), vf_srvHasRef(&x->src, &x->type, &x->dst, x->fwd) > 0), "every reference that is written");
    }
    for(int i = 0; i < vf_nSrvRefs; i++) {
        const struct VfSrvRef *r = &vf_srvRefs[i];
        int ok = 0;
        for(int j = 0; j < nW; j++)
            ok |= VF_AND(VF_AND(UA_NodeId_equal(&r->src, &w[j].src), UA_NodeId_equal(&r->dst, &w[j].dst)), VF_AND(UA_NodeId_equal(&r->type, &w[j].type), (r->fwd != 0) == w[j].fwd));
        vf_assert(ok, "no other reference");
        vf_assert(vf_srvFind(&r->src) < r->nodes, "the source is there before its references");
    }
    for(int j = 0; j < vf_nSrv; j++) {                /* the reference a node is added with is one of its own */
        int ok = 0;
        for(int k = 0; k < nW; k++) ok |= VF_AND(VF_AND(!w[k].fwd, UA_NodeId_equal(&vf_srvNodes[j].id, &w[k].src)), VF_AND(UA_NodeId_equal(&vf_srvNodes[j].parent, &w[k].dst), UA_NodeId_equal(&vf_srvNodes[j].refType, &w[k].type)));
        int encoding = vf_isNum(&vf_srvNodes[j].id, vf_nsMap[0], 66);
        vf_assert(ok || encoding, "parent reference is a written one");
    }
    if(big == 2) vf_witness("large number");
    if(enc == 2) vf_witness("encoding in both directions");
    if(typesLast && customHier && type[0] == CUSTOMSUB) vf_witness("reference of a type declared later");
    bEnd();
}

/* Nodes the server refuses at first are added as soon as it takes them, once each. */
#include "bdoc.h"
static const char *EL_[] = {"UAObject", "UAVariable", "UAMethod", "UAView"};
static int n, cls[NN], par[NN], order[NN], refuse[NN], tried[NN], added[NN];
static void node(int i) {
    char a[16], b[16];
    if(cls[i] == 1) S("UAVariable", "NodeId", nid(a, 1, i), "BrowseName", "1:n", "DataType", "i=6", END);
    else S(EL_[cls[i]], "NodeId", nid(a, 1, i), "BrowseName", "1:n", END);
    S("References", END);
    ref("i=47", 0, par[i] < 0 ? "i=85" : nid(b, 1, par[i]));
    ref("i=37", 1, "i=78");
    E();
    if(cls[i] == 1) { S("Value", END); EL("Int32", "7"); E(); }
    E();
}
static void doc(void) { docBegin(1); for(int i = 0; i < n; i++) node(order[i]); E(); }
static int idx(const UA_NodeId *id) { for(int i = 0; i < n; i++) if(vf_isNum(id, vf_nsMap[0], NID(i))) return i; return -1; }
static int mayAdd(const struct VfAdd *a) { int i = idx(a->id); if(i < 0) return 1; return ++tried[i] > refuse[i]; }
static void onAdd(const struct VfAdd *a) {
    int i = idx(a->id);
    vf_assert(i >= 0, "only nodes of the file");
    if(a->result != UA_STATUSCODE_GOOD) { vf_assert(!added[i], "a node that was taken is not added again"); return; }
    vf_assert(!added[i], "a node is added once");
    added[i] = 1;
    vf_assert(par[i] < 0 ? vf_isNum(a->parent, 0, 85) : vf_isNum(a->parent, vf_nsMap[0], NID(par[i])), "its parent");
    if(cls[i] == 1) {
        const UA_VariableAttributes *v = (const UA_VariableAttributes *)a->attr;
        vf_assert(v->value.type && v->value.data && *(UA_Int32 *)v->value.data == 7, "its value");
    }
}
void vf_main(void) {
    vf_mayAdd = mayAdd; vf_onAdd = onAdd; vf_doc[0] = doc;
    n = NN;
    for(int i = 0; i < n; i++) {
        cls[i] = vf_choose(0, CMAX); par[i] = CHAIN ? i - 1 : i ? vf_choose(-1, 0) : -1;
        order[i] = i;
        if(REFUSE) refuse[i] = vf_int(0, 10);
    }
    if(vf_choose(0, 1)) for(int i = 0; i < n; i++) order[i] = n - 1 - i;
    vf_assert(vf_load(0) || REFUSE, "loads");
    for(int i = 0; i < n; i++) {
        UA_NodeId id = UA_NODEID_NUMERIC(vf_nsMap[0], NID(i)), t = UA_NODEID_NUMERIC(0, 78), rt = UA_NODEID_NUMERIC(0, 37);
        int waits = par[i] >= 0 ? refuse[par[i]] : 0;      /* until the parent is there */
        int sure = refuse[i] + waits + (par[i] >= 0 && !CHAIN) <= 9;
        if(sure) { vf_assert(added[i], "every node the server takes within ten attempts"); vf_assert(vf_srvHasRef(&id, &rt, &t, 1) == 1, "with its references"); }
        if(refuse[i] >= 10) vf_assert(!added[i] || refuse[i] < 10, "never taken");
    }
    int alt = 0;
    for(int i = 1; i < n; i++) alt += cls[i] == 0 && cls[i - 1] == 1;
    if(!CHAIN || alt >= NN / 2 - 1) vf_witness("done");
    bEnd();
}

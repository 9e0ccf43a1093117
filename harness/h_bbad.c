/* Data types no C structure can represent, and unusual but legal ones: the import ends, memory is safe, the other
 * types and the values are not affected. */
#include "bdoc.h"
enum { NONE_, UNKNOWN, SELF, OTHER_, INT, NS0UNKNOWN, N_REF };
static const char *REF_[] = {"", "ns=1;i=99", "ns=1;i=60", "ns=1;i=61", "i=6", "i=14999"};
static const char *REF1[] = {"", "ns=1;i=99", "ns=1;i=61", "ns=1;i=60", "i=6", "i=14999"};
static const char *PAR[] = {"i=22", "ns=1;i=60", "i=12756", "ns=1;i=99", "i=24"};
static int mem[2][2], rank[2][2], opt[2], par[2], val, depth;
static void field(const char *name, const char *type, int array, int o) {
    S("Field", "Name", name, "DataType", type, "ValueRank", array ? "1" : "-1", "IsOptional", o ? "true" : "false", END); E();
}
static void type(int t) {
    S("UADataType", "NodeId", t ? "ns=1;i=61" : "ns=1;i=60", "BrowseName", "1:T", END);
    parentRef("i=45", PAR[par[t]]);
    if(par[t] == 2) S("Definition", "Name", "T", "IsUnion", "true", END); else S("Definition", "Name", "T", END);
    for(int m = 0; m < 2; m++) if(mem[t][m]) field(m ? "B" : "A", t ? REF1[mem[t][m]] : REF_[mem[t][m]], rank[t][m], m == 0 && opt[t]);
    E(); E();
}
/* a value of type 60 that goes down into every member, `depth` levels */
static void body(int d) {
    EL("SwitchField", "1");
    if(d) { S("A", END); body(d - 1); S("T", END); body(d - 1); E(); E(); S("B", END); S("T", END); body(d - 1); E(); E(); }
    else { EL("A", "7"); EL("B", "8"); }
}
static void doc(void) {
    docBegin(1);
    type(0); type(1);
    S("UADataType", "NodeId", "ns=1;i=70", "BrowseName", "1:Good", END); parentRef("i=45", "i=22");
    S("Definition", "Name", "Good", END); field("X", "i=6", 0, 0); E(); E();
    if(val) {
        S("UAVariable", "NodeId", "ns=1;i=1", "BrowseName", "1:a", "DataType", "ns=1;i=60", "ValueRank", val == 2 ? "1" : "-1", END);
        parentRef("i=35", "i=85");
        S("Value", END);
        if(val == 2) S("ListOfExtensionObject", END);
        for(int k = 0; k < val; k++) { typeIdBody("ns=1;i=60", "T"); body(depth); typeIdBodyEnd(); }
        if(val == 2) E();
        E(); E();
    }
    S("UAVariable", "NodeId", "ns=1;i=2", "BrowseName", "1:b", "DataType", "ns=1;i=70", "ValueRank", "-1", END);
    parentRef("i=35", "i=85");
    S("Value", END); typeIdBody("ns=1;i=70", "Good"); EL("X", "42"); typeIdBodyEnd(); E(); E();
    E();
}
static int good, seen;
static void onAdd(const struct VfAdd *a) {
    if(a->cls != UA_NODECLASS_VARIABLE || a->result != UA_STATUSCODE_GOOD) return;
    const UA_VariableAttributes *at = a->attr;
    seen++;
    if(a->id->identifier.numeric == 2) { good++; vf_assert(at->value.type && at->value.data && *(UA_Int32 *)at->value.data == 42, "other values are not affected"); }
}
void vf_main(void) {
    static const int M01[] = {NONE_, SELF, OTHER_}, M10[] = {NONE_, INT, SELF, OTHER_};
    par[0] = vf_choose(PLO, PHI);
    mem[0][0] = vf_choose(0, N_REF - 1); mem[0][1] = M01[vf_choose(0, 2)]; mem[1][0] = M10[vf_choose(0, 3)];
    for(int t = 0; t < 2; t++) for(int m = 0; m < 2; m++)
        if(mem[t][m] == SELF || mem[t][m] == OTHER_ || mem[t][m] == UNKNOWN) rank[t][m] = vf_choose(0, 1);
    if(mem[0][0] && !rank[0][0] && par[0] != 2) opt[0] = vf_choose(0, 1);
    val = vf_choose(0, 1) * 2; depth = val ? 1 : 0;
    vf_doc[0] = doc; vf_onAdd = onAdd;
    vf_assert(vf_load(0), "loads");
    UA_NodeId g = UA_NODEID_NUMERIC(vf_nsMap[0], 70);
    const UA_DataType *t = NodesetLoader_getCustomDataType(&vf_server, &g);
    vf_assert(t && t->membersSize == 1 && t->memSize == 4, "other types are not affected");
    vf_assert(good == 1, "the other variable is there");
    for(int k = 0; k < 2; k++) {
        UA_NodeId id = UA_NODEID_NUMERIC(vf_nsMap[0], 60u + (unsigned)k);
        const UA_DataType *d = NodesetLoader_getCustomDataType(&vf_server, &id);
        vf_assert(d && d->memSize > 0, "the type is known and has a size");
        for(unsigned m = 0; m < d->membersSize; m++) vf_assert(d->members[m].memberType && d->members[m].memberName, "members are complete");
    }
    if(val && seen == 2) vf_witness("value of an unusual type");
    bTypesUsable();
    bEnd();
}

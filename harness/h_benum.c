/* Enumeration values, written as <symbol>_<value> or as the number: the number arrives. */
#include "bdoc.h"
enum { CUSTOM, DERIVED, APPTYPE, FROMAPP, N_TYPES };
static const char *DT[] = {"ns=1;i=62", "ns=1;i=64", "i=307", "ns=1;i=65"};
static int type, form, list, nSym, nDig, neg, sym[4], dig[4];
static char text[16];
static void val(void) { S("Int32", END); if(form < 3) T(text); else if(form == 4) EL("Value", "1"); E(); }
static void doc(void) {
    docBegin(1);
    S("UADataType", "NodeId", "ns=1;i=62", "BrowseName", "1:E", END); parentRef("i=45", "i=29");
    S("Definition", "Name", "E", END); S("Field", "Name", "A", "Value", "7", END); E(); E(); E();
    S("UADataType", "NodeId", "ns=1;i=64", "BrowseName", "1:D", END); parentRef("i=45", "ns=1;i=62"); E();
    S("UADataType", "NodeId", "ns=1;i=65", "BrowseName", "1:F", END); parentRef("i=45", "i=307"); E();
    S("UAVariable", "NodeId", "ns=1;i=1", "BrowseName", "1:a", "DataType", DT[type], "ValueRank", list ? "1" : "-1", END);
    parentRef("i=35", "i=85");
    S("Value", END);
    if(list) { S("ListOfInt32", END); S("Int32", END); T("B_2"); E(); val(); E(); } else val();
    E(); E(); E();
}
static int seen;
static void onAdd(const struct VfAdd *a) {
    if(a->cls != UA_NODECLASS_VARIABLE) return;
    const UA_VariableAttributes *at = a->attr;
    seen++;
    vf_assert(at->value.type && at->value.type->typeKind == UA_DATATYPEKIND_ENUM && at->value.type->memSize == 4, "the value is an enumeration");
    if(type != APPTYPE) { UA_NodeId id = UA_NODEID_NUMERIC(vf_nsMap[0], type == CUSTOM ? 62 : type == DERIVED ? 64 : 65); vf_assert(UA_NodeId_equal(&at->value.type->typeId, &id), "of the variable's data type"); }
    else vf_assert(at->value.type == UA_findDataType(&at->dataType), "of the variable's data type");
    vf_assert(at->value.arrayLength == (list ? 2u : 0u) && at->value.data, "scalar or array as written");
    const UA_Int32 *p = at->value.data;
    if(list) vf_assert(*p++ == 2, "first element");
    int v = 0;
    if(form < 3) for(int i = 0; i < nDig; i++) v = v * 10 + dig[i] - '0';
    vf_assert(*p == (neg ? -v : v), "the number that was written");
}
void vf_main(void) {
    type = vf_choose(0, N_TYPES - 1); list = vf_choose(0, 1);
    form = vf_choose(0, 4);                       /* <symbol>_<value>, <value>, _<value>, nothing, an element */
    int n = 0;
    if(form == 0) { nSym = vf_choose(1, LEN); for(int i = 0; i < nSym; i++) { sym[i] = vf_int(33, 126); vf_assume(VF_AND(sym[i] != '<', sym[i] != '&')); text[n++] = (char)sym[i]; } }
    if(form == 0 || form == 2) text[n++] = '_';
    if(form < 3) {
        neg = vf_choose(0, 1); nDig = vf_choose(1, LEN);
        if(neg) text[n++] = '-';
        for(int i = 0; i < nDig; i++) { dig[i] = vf_int('0', '9'); text[n++] = (char)dig[i]; }
    }
    vf_doc[0] = doc; vf_onAdd = onAdd;
    vf_assert(vf_load(0), "loads");
    vf_assert(seen == 1, "the variable is added once");
    if(form == 0 && list) vf_witness("symbol and value");
    bEnd();
}

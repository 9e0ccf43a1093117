/* Many members, many types, and types the application registered itself. */
#include "bdoc.h"
static int n, parentN, types, own, probe;
static void fields(int from, int cnt) {
    for(int i = from; i < from + cnt; i++) { char f[6]; snprintf(f, sizeof f, "F%d", i); S("Field", "Name", f, "DataType", i % 2 ? "i=6" : "i=3", END); E(); }
}
static void doc(void) {
    docBegin(1);
    if(parentN) { S("UADataType", "NodeId", "ns=1;i=50", "BrowseName", "1:P", END); parentRef("i=45", "i=22"); S("Definition", "Name", "P", END); fields(0, parentN); E(); E(); }
    S("UADataType", "NodeId", "ns=1;i=60", "BrowseName", "1:S", END); parentRef("i=45", parentN ? "ns=1;i=50" : "i=22");
    S("Definition", "Name", "S", END); fields(parentN, n); E(); E();
    for(int i = 0; i < types; i++) {
        char id[16]; snprintf(id, sizeof id, "ns=1;i=%d", 1000 + i);
        S("UADataType", "NodeId", id, "BrowseName", "1:E", END); parentRef("i=45", "i=29"); E();
    }
    E();
}
#if MEMBERS
enum { NPRE = 0 };
#else
enum { NPRE = 2 };
#endif
static UA_DataType pre[3];
static UA_DataTypeArray preArr = {NULL, NPRE, pre, 0};
void vf_main(void) {
#if MEMBERS
    parentN = vf_choose(0, 1) * 200;
    n = vf_choose(254 - parentN, 257 - parentN);
#else
    n = 1; { int k = vf_choose(0, 2); types = k == 0 ? 1 : k == 1 ? vf_choose(97, 101) : vf_choose(198, 202); }
    own = types < 150 ? vf_choose(0, 1) : 0;
    for(int i = 0; i < 3; i++) {
        memcpy(&pre[i], &UA_TYPES[UA_TYPES_INT32], sizeof(UA_DataType));
        pre[i].typeId = UA_NODEID_NUMERIC(9, 500u + (unsigned)i);
    }
    if(own) vf_server.config.customDataTypes = &preArr;
#endif
    vf_doc[0] = doc;
    vf_assert(vf_load(0), "loads");
    UA_NodeId s = UA_NODEID_NUMERIC(vf_nsMap[0], 60);
    const UA_DataType *t = NodesetLoader_getCustomDataType(&vf_server, &s);
    vf_assert(t && t->memSize > 0, "the type is known");
    int total = parentN + n;
    if(total <= 255) {
        vf_assert(t->membersSize == (unsigned)total && t->memSize == 8u * (unsigned)(total / 2) + (total == 1 ? 1u : total % 2 ? 4u : 0u), "all members");
        for(int i = 0; i < total; i++) vf_assert(t->members[i].memberType == &UA_TYPES[i % 2 ? UA_TYPES_INT32 : UA_TYPES_BYTE], "type of each member");
        if(MEMBERS && total == 255) vf_witness("as many members as fit");
    } else if(MEMBERS) vf_witness("more members than a type can have");
#if !MEMBERS
    /* any of them, chosen by the solver */
    probe = vf_int(0, types - 1);
    UA_NodeId e = UA_NODEID_NUMERIC(vf_nsMap[0], 1000u + (unsigned)probe);
    const UA_DataType *x = NodesetLoader_getCustomDataType(&vf_server, &e);
    vf_assert(x && x->typeKind == UA_DATATYPEKIND_ENUM && x->typeId.identifier.numeric == 1000u + (unsigned)probe, "every type is known");
    if(types == 100) vf_witness("many types");
    if(own) {
        vf_witness("types of the application");
        for(int i = 0; i < 2; i++) { UA_NodeId p = UA_NODEID_NUMERIC(9, 500u + (unsigned)i); vf_assert(NodesetLoader_getCustomDataType(&vf_server, &p) == &pre[i], "the application's types are still known"); }
        vf_assert(pre[2].typeId.identifier.numeric == 502 && preArr.typesSize == 2, "the application's array is not written to");
        /* the application's array is not ours to release */
        for(UA_DataTypeArray *a = (UA_DataTypeArray *)(uintptr_t)vf_server.config.customDataTypes; a; a = (UA_DataTypeArray *)(uintptr_t)a->next)
            if(a->next == &preArr) a->next = NULL;
        if(vf_server.config.customDataTypes == &preArr) vf_server.config.customDataTypes = NULL;
    }
#endif
    bEnd();
}

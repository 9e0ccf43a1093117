/* Data types of one nodeset are used by the next: as member, supertype, type of values; what was loaded before stays as it is. */
#include "bdoc.h"
enum { VALUE, MEMBER, ARRAY, DERIVED, ENUMMEMBER, ALIASMEMBER, UNIONMEMBER, OPTMEMBER, N_ROLES };
static int role, swapped, strIds, list, withV0, d, e, third, same;
static int file;
static char *tid(char *b, int item) { strcpy(b, strIds ? "ns=1;s=60" : "ns=1;i=60"); b[3] = (char)('1' + (swapped && file)); b[8] = (char)('0' + item); return b; }
static char *oid(char *b, int item) { strcpy(b, strIds ? "ns=1;s=70" : "ns=1;i=70"); b[3] = (char)('1' + !(swapped && file)); b[8] = (char)('0' + item); return b; }
static void field(const char *name, const char *type, int array, int opt) {
    S("Field", "Name", name, "DataType", type, "ValueRank", array ? "1" : "-1", "IsOptional", opt ? "true" : "false", END); E();
}
static void uris(void) { S("UANodeSet", END); S("NamespaceUris", END); if(swapped && file) { EL("Uri", "urn:b"); EL("Uri", "urn:a"); } else { EL("Uri", "urn:a"); EL("Uri", "urn:b"); } E(); }
static void dt(const char *id, const char *name, const char *parent) { S("UADataType", "NodeId", id, "BrowseName", name, END); parentRef("i=45", parent); }
static char t1[4], t2[4];
static void tBody(void) { t1[0] = (char)d; t1[1] = (char)e; t1[2] = 0; EL("txt", t1); t2[0] = (char)e; t2[1] = 0; EL("num", t2); }
static void types0(void) {
    char b[16];
    dt(tid(b, 0), "1:T", "i=22"); S("Definition", "Name", "T", END); field("txt", "i=12", 0, 0); field("num", "i=8", 0, 0); E(); E();
    dt(tid(b, 1), "1:E", "i=29"); S("Definition", "Name", "E", END); S("Field", "Name", "A", "Value", "0", END); E(); E(); E();
    dt(tid(b, 2), "1:A", "i=3"); E();
    dt(tid(b, 3), "1:U", "i=12756"); S("Definition", "Name", "U", "IsUnion", "true", END); field("i", "i=8", 0, 0); field("s", "i=12", 0, 0); E(); E();
}
static void doc0(void) {
    char b[16];
    uris(); types0();
    if(withV0) {
        S("UAVariable", "NodeId", "ns=1;i=1", "BrowseName", "1:v", "DataType", tid(b, 0), END); parentRef("i=35", "i=85");
        S("Value", END); typeIdBody(tid(b, 0), "T"); tBody(); typeIdBodyEnd(); E(); E();
    }
    E();
}
static void value(const char *type) {
    char b[16];
    S("UAVariable", "NodeId", "ns=1;i=2", "BrowseName", "1:w", "DataType", type, "ValueRank", list ? "1" : "-1", END); parentRef("i=35", "i=85");
    S("Value", END);
    if(list) S("ListOfExtensionObject", END);
    typeIdBody(type, "X");
    switch(role) {
    case VALUE: tBody(); break;
    case MEMBER: case OPTMEMBER: S("m", END); tBody(); E(); break;
    case ARRAY: S("m", END); S("T", END); tBody(); E(); S("T", END); tBody(); E(); E(); break;
    case DERIVED: tBody(); t1[0] = (char)d; t1[1] = 0; EL("m", t1); break;
    case ENUMMEMBER: t1[0] = (char)d; t1[1] = 0; EL("m", t1); break;
    case ALIASMEMBER: t1[0] = (char)d; t1[1] = 0; EL("m", t1); break;
    case UNIONMEMBER: S("m", END); EL("SwitchField", "2"); t1[0] = (char)d; t1[1] = (char)e; t1[2] = 0; EL("s", t1); E(); break;
    }
    typeIdBodyEnd();
    if(list) E();
    E(); E();
    (void)b;
}
static void doc1(void) {
    char a[16], b[16];
    uris();
    if(same) types0();
    if(role == VALUE) { value(tid(a, 0)); E(); return; }
    dt(oid(a, 0), "1:X", role == DERIVED ? tid(b, 0) : "i=22");
    S("Definition", "Name", "X", END);
    field("m", role == DERIVED ? "i=6" : tid(b, role == ENUMMEMBER ? 1 : role == ALIASMEMBER ? 2 : role == UNIONMEMBER ? 3 : 0), role == ARRAY, role == OPTMEMBER);
    E(); E();
    value(oid(a, 0));
    E();
}
static void doc2(void) { docBegin(1); dt("ns=1;i=99", "1:Z", "i=22"); S("Definition", "Name", "Z", END); field("z", "i=6", 0, 0); E(); E(); E(); }
static UA_NodeId nid0(int item, char *buf) {     /* id of a type of the first file, at the server */
    buf[0] = '6'; buf[1] = (char)('0' + item); buf[2] = 0;
    if(strIds) { UA_NodeId r = UA_NODEID_STRING(vf_nsMap[0], buf); r.identifier.string.length = 2; return r; }
    return UA_NODEID_NUMERIC(vf_nsMap[0], 60u + (unsigned)item);
}
static void isT(const char *p, const UA_DataType *t) {
    char x[2] = {(char)d, (char)e};
    vf_assert(strIs((const UA_String *)(p + t->members[0].padding), x, 2), "text of the structure");
    UA_Int64 y; memcpy(&y, p + t->members[0].padding + sizeof(UA_String) + t->members[1].padding, 8);
    vf_assert(y == e - '0', "number of the structure");
}
static int seen;
static const UA_DataType *v0Type;
static void onAdd(const struct VfAdd *a) {
    if(a->cls != UA_NODECLASS_VARIABLE) return;
    seen++;
    const UA_VariableAttributes *at = a->attr;
    const UA_DataType *t = at->value.type;
    char buf[4], bu[4], bx[4];
    UA_NodeId ti = nid0(0, buf), xi = nid0(0, bx);
    vf_assert(t && at->value.data, "a value");
    if(file == 0) { v0Type = t; isT((const char *)at->value.data, t); return; }
    bx[0] = '7'; bx[1] = '0'; bx[2] = 0; if(strIds) { xi = UA_NODEID_STRING(vf_nsMap[1], bx); xi.identifier.string.length = 2; } else xi = UA_NODEID_NUMERIC(vf_nsMap[1], 70);
    vf_assert(UA_NodeId_equal(&t->typeId, role == VALUE ? &ti : &xi), "of the variable's type");
    const char *p = at->value.data;
    vf_assert(at->value.arrayLength == (list ? 1u : 0u), "scalar or array");
    const UA_DataTypeMember *m = t->members;
    (void)bu;
    switch(role) {
    case VALUE: isT(p, t); break;
    case MEMBER: vf_assert(UA_NodeId_equal(&m->memberType->typeId, &ti), "member type of the earlier file"); isT(p + m->padding, m->memberType); break;
    case OPTMEMBER: vf_assert(*(const char *const *)p != NULL && UA_NodeId_equal(&m->memberType->typeId, &ti), "optional member"); isT(*(const char *const *)p, m->memberType); break;
    case ARRAY: { size_t n = *(const size_t *)p; const char *q = *(const char *const *)(p + sizeof(size_t)); vf_assert(n == 2, "two elements"); isT(q, m->memberType); isT(q + m->memberType->memSize, m->memberType); break; }
    case DERIVED: vf_assert(t->membersSize == 3, "inherited members"); isT(p, t); vf_assert(*(const UA_Int32 *)(p + sizeof(UA_String) + 8 + t->members[2].padding) == d - '0', "own member"); break;
    case ENUMMEMBER: vf_assert(m->memberType->typeKind == UA_DATATYPEKIND_ENUM && *(const UA_Int32 *)p == d - '0', "enumeration"); break;
    case ALIASMEMBER: vf_assert(m->memberType->typeKind == UA_DATATYPEKIND_BYTE && *(const UA_Byte *)p == d - '0' && t->memSize == 1, "byte"); break;
    case UNIONMEMBER: { const UA_DataType *u = m->memberType; char x[2] = {(char)d, (char)e}; vf_assert(*(const UA_UInt32 *)p == 2 && strIs((const UA_String *)(p + u->members[1].padding), x, 2), "union"); break; }
    }
}
void vf_main(void) {
    role = vf_choose(0, N_ROLES - 1); swapped = vf_choose(0, 1); strIds = vf_choose(0, 1); list = vf_choose(0, 1); withV0 = vf_choose(0, 1); third = vf_choose(0, 1);
    same = vf_choose(0, 1);
    d = vf_int('0', '9'); e = vf_int('0', '9');
    vf_doc[0] = doc0; vf_doc[1] = doc1; vf_doc[2] = doc2; vf_onAdd = onAdd;
    file = 0; vf_assert(vf_load(0), "first file");
    const UA_DataType *t[4]; UA_DataType copy[4]; char buf[4][4];
    for(int i = 0; i < 4; i++) {
        UA_NodeId id = nid0(i, buf[i]);
        t[i] = NodesetLoader_getCustomDataType(&vf_server, &id);
        vf_assert(t[i] != NULL, "types of the first file");
        memcpy(&copy[i], t[i], sizeof copy[i]);
    }
    file = 1; vf_assert(vf_load(1), "second file");
    vf_assert(seen == 1 + withV0, "the variables are added");
    if(third) { file = 2; vf_assert(vf_load(2), "third file"); }
    for(int i = 0; i < 4; i++) {
        UA_NodeId id = nid0(i, buf[i]);
        const UA_DataType *n = NodesetLoader_getCustomDataType(&vf_server, &id);
        vf_assert(n && (same || n == t[i]), "still the same type");
        vf_assert(UA_NodeId_equal(&t[i]->typeId, &id) && t[i]->memSize == copy[i].memSize && t[i]->members == copy[i].members && t[i]->membersSize == copy[i].membersSize && t[i]->typeKind == copy[i].typeKind, "what was loaded before stays");
        vf_assert(n->memSize == copy[i].memSize && n->typeKind == copy[i].typeKind && n->membersSize == copy[i].membersSize, "the same description");
    }
    if(withV0) vf_assert(v0Type == t[0], "values keep their type");
    if(swapped && role == DERIVED && strIds) vf_witness("supertype of an earlier file in another namespace");
    if(same && third) vf_witness("the same types in both files");
    bEnd();
}

/* Data types of a nodeset are known to the server after loading: identity, name, encoding, kind and members. */
#include "bdoc.h"
enum { P_STRUCT, P_UNION, P_ENUM, P_OPTIONSET, P_BUILTIN, P_NUMBER, P_DURATION, P_RANGE, P_APPTYPE, N_PARENTS };
static const char *PID[] = {"i=22", "i=12756", "i=29", "i=12755", "i=?", "i=26", "i=290", "i=884", "i=307"};
static int par, digit, kid, rank0, opt0, abst, strId, enc, order, mdig, self;
static char builtin[8] = "i=0", member[8] = "i=0";
static const char *id0(void) { return strId ? "ns=1;s=AB" : "ns=1;i=60"; }
static const char *id1(void) { return strId ? "ns=1;s=C" : "ns=1;i=61"; }
static int structural(void) { return par == P_STRUCT || par == P_RANGE || par == P_OPTIONSET || par == P_UNION; }
static void field(const char *name, const char *type, int rank, int opt) {
    char r[3] = "-1"; if(rank >= 0) { r[0] = (char)('0' + rank); r[1] = 0; }
    S("Field", "Name", name, "DataType", type, "ValueRank", r, "IsOptional", opt ? "true" : "false", END); E();
}
static void t0(void) {
    static const char *A[] = {"false", "true", "1"};
    S("UADataType", "NodeId", id0(), "BrowseName", "1:Zero", "IsAbstract", A[abst], END);
    S("References", END); if(kid && self == 1) ref("i=45", 1, id1()); ref("i=45", 0, par == P_BUILTIN ? builtin : PID[par]); if(kid && self == 2) ref("i=45", 1, id1()); if(enc == 2) ref("i=38", 1, "ns=1;i=71"); E();
    if(par == P_STRUCT || par == P_RANGE || par == P_UNION) {
        if(par == P_UNION) S("Definition", "Name", "Zero", "IsUnion", "true", END); else S("Definition", "Name", "Zero", END);
        field("First", member, rank0, opt0);
        E();
    } else if(par == P_ENUM) { S("Definition", "Name", "Zero", END); S("Field", "Name", "A", "Value", "0", END); E(); S("Field", "Name", "B", "Value", "1", END); E(); E(); }
    else if(par == P_OPTIONSET) { S("Definition", "Name", "Zero", "IsOptionSet", "true", END); S("Field", "Name", "A", "Value", "0", END); E(); E(); }
    E();
}
static void t1(void) {
    S("UADataType", "NodeId", id1(), "BrowseName", "1:One", END);
    parentRef("i=45", kid ? id0() : "i=22");
    if(!kid) { S("Definition", "Name", "One", END); field("Other", id0(), self == 1 ? 1 : -1, 0); field("Text", "i=12", -1, 0); E(); }
    else if(par == P_STRUCT || par == P_RANGE) { S("Definition", "Name", "One", END); field("Own", "i=12", -1, 0); E(); }
    E();
}
static void encoding(const char *id, const char *name) {
    S("UAObject", "NodeId", id, "BrowseName", name, END);
    S("References", END); ref("i=38", 0, id0()); ref("i=40", 1, "i=76"); E(); E();
}
static void encodings(void) { if(enc) { if(enc == 2) encoding("ns=1;i=71", "Default XML"); encoding(strId ? "ns=1;s=E" : "ns=1;i=70", "Default Binary"); } }
static void doc(void) {
    docBegin(1);
    if(order) encodings();
    t0(); t1();
    if(!order) encodings();
    E();
}
static void mkId(UA_NodeId *id, const char *str, unsigned num) {
    *id = strId ? UA_NODEID_STRING(vf_nsMap[0], (char *)(uintptr_t)str) : UA_NODEID_NUMERIC(vf_nsMap[0], num);
}
static void expectMember(const UA_DataTypeMember *m, const char *name, const UA_DataType *t, int array, int opt) {
    vf_assert(m->memberName && strcmp(m->memberName, name) == 0, "member name");
    vf_assert(m->memberType == t, "member type");
    vf_assert(m->isArray == (array != 0) && m->isOptional == (opt != 0), "array and optional flags");
}
void vf_main(void) {
    par = vf_choose(PLO, PHI);
    kid = vf_choose(0, 1);
    strId = vf_choose(0, 1);
    enc = vf_choose(0, 2); order = enc ? vf_choose(0, 1) : 0;
    abst = vf_choose(0, 2);
    self = kid ? vf_choose(0, strId || enc == 1 ? 0 : 2) : vf_choose(0, 1);
    if(par == P_BUILTIN) { digit = vf_int('1', '9'); builtin[2] = (char)digit; }
    mdig = vf_int('1', '9'); member[2] = (char)mdig;
    if(par == P_STRUCT || par == P_RANGE) { rank0 = vf_int(-1, 3); opt0 = vf_choose(0, 1); } else rank0 = -1;
    vf_doc[0] = doc;
    vf_assert(vf_load(0), "loads");
    UA_NodeId i0, i1, e0;
    mkId(&i0, "AB", 60); mkId(&i1, "C", 61); mkId(&e0, "E", 70);
    const UA_DataType *a = NodesetLoader_getCustomDataType(&vf_server, &i0), *b = NodesetLoader_getCustomDataType(&vf_server, &i1);
    vf_assert(a && b && a != b, "both types are known");
    vf_assert(UA_NodeId_equal(&a->typeId, &i0) && UA_NodeId_equal(&b->typeId, &i1), "ids");
    vf_assert(a->typeName && strcmp(a->typeName, "Zero") == 0 && b->typeName && strcmp(b->typeName, "One") == 0, "names");
    int optional = opt0 && !0;
    switch(par) {
    case P_STRUCT: case P_RANGE: {
        unsigned n = par == P_RANGE ? 2 : 0;
        vf_assert(a->typeKind == (optional ? UA_DATATYPEKIND_OPTSTRUCT : UA_DATATYPEKIND_STRUCTURE), "structure");
        vf_assert(a->membersSize == n + 1, "own members behind inherited ones");
        if(n) { expectMember(&a->members[0], "Low", &UA_TYPES[UA_TYPES_DOUBLE], 0, 0); expectMember(&a->members[1], "High", &UA_TYPES[UA_TYPES_DOUBLE], 0, 0); }
        expectMember(&a->members[n], "First", &UA_TYPES[mdig - '1'], rank0 >= 0, optional);
        if(kid) {
            vf_assert(b->typeKind == a->typeKind, "a subtype is of the same kind");
            vf_assert(b->membersSize == n + 2, "members of the supertypes first");
            for(unsigned k = 0; k <= n; k++) expectMember(&b->members[k], a->members[k].memberName, a->members[k].memberType, a->members[k].isArray, a->members[k].isOptional);
            expectMember(&b->members[n + 1], "Own", &UA_TYPES[UA_TYPES_STRING], 0, 0);

        }
        break; }
    case P_UNION:
        vf_assert(a->typeKind == UA_DATATYPEKIND_UNION && a->membersSize == 1, "union");
        expectMember(&a->members[0], "First", &UA_TYPES[mdig - '1'], 0, 0);
        break;
    case P_ENUM: case P_APPTYPE:
        vf_assert(a->typeKind == UA_DATATYPEKIND_ENUM && a->memSize == 4 && a->membersSize == 0 && a->pointerFree, "enumeration");
        if(kid) vf_assert(b->typeKind == UA_DATATYPEKIND_ENUM && b->memSize == 4, "a subtype is of the same kind");
        break;
    case P_OPTIONSET:
        vf_assert(a->typeKind == UA_DATATYPEKIND_STRUCTURE && a->membersSize == 2, "option set: the two masks");
        expectMember(&a->members[0], "Value", &UA_TYPES[UA_TYPES_BYTESTRING], 0, 0); expectMember(&a->members[1], "ValidBits", &UA_TYPES[UA_TYPES_BYTESTRING], 0, 0);
        break;
    default: {
        const UA_DataType *t = par == P_BUILTIN ? &UA_TYPES[digit - '1'] : &UA_TYPES[par == P_NUMBER ? UA_TYPES_VARIANT : UA_TYPES_DOUBLE];
        vf_assert(a->typeKind == t->typeKind && a->memSize == t->memSize && a->membersSize == 0, "represented like the built-in type it is derived from");
        vf_assert(VF_IMPLIES(!t->pointerFree, !a->pointerFree), "pointers are released");
        if(kid) vf_assert(b->typeKind == t->typeKind && b->memSize == t->memSize, "over two levels");

        break; }
    }
    if(structural()) {
        if(enc) vf_assert(UA_NodeId_equal(&a->binaryEncodingId, &e0), "id of the binary encoding"); else vf_assert(UA_NodeId_isNull(&a->binaryEncodingId), "no encoding");
        if(enc && !kid) vf_witness("encoding");
    }
    if(!kid) {
        vf_assert(b->membersSize == 2 && b->typeKind == UA_DATATYPEKIND_STRUCTURE, "structure");
        expectMember(&b->members[0], "Other", abst ? &UA_TYPES[UA_TYPES_VARIANT] : a, self == 1, 0);
        expectMember(&b->members[1], "Text", &UA_TYPES[UA_TYPES_STRING], 0, 0);
        if(abst == 2) vf_witness("member of an abstract type");
    }
    bEnd();
}

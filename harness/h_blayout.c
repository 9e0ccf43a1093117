/* The layout of imported structures and unions is that of the C structures they describe. */
#include "bdoc.h"
#include <stdalign.h>
typedef struct { UA_Int32 a; UA_Byte b; } TStr;                                /* size 8, alignment 4, tail padding */
typedef struct { UA_UInt32 sw; union { UA_Byte a; UA_Double b; } f; } UUn;     /* union whose fields start at 8 */
typedef struct { UA_UInt32 sw; union { UA_Int16 a; UA_Byte b; } f; } VUn;      /* union whose fields start at 4 */
enum { BUILTIN, TT, UU, VV, EE, DERIVED, ARRAY, OPTIONAL, N_FORMS };
static const struct { unsigned size, align, ptr; } B[26] = {{0, 0, 0},
#define X(T, P) {sizeof(UA_##T), alignof(UA_##T), P}
    X(Boolean, 0), X(SByte, 0), X(Byte, 0), X(Int16, 0), X(UInt16, 0), X(Int32, 0), X(UInt32, 0), X(Int64, 0), X(UInt64, 0), X(Float, 0), X(Double, 0), X(String, 1), X(DateTime, 0),
    X(Guid, 0), X(ByteString, 1), X(XmlElement, 1), X(NodeId, 1), X(ExpandedNodeId, 1), X(StatusCode, 0), X(QualifiedName, 1), X(LocalizedText, 1), X(ExtensionObject, 1), X(DataValue, 1), X(Variant, 1), X(DiagnosticInfo, 1)};
static int form[M], digit[M], isUnion, order, inherit;
static char typeText[M][16];
static void typeNode(const char *id, const char *name, const char *parent, void (*def)(void)) {
    S("UADataType", "NodeId", id, "BrowseName", name, END);
    parentRef("i=45", parent);
    if(def) def();
    E();
}
static void field(const char *name, const char *type, int array, int opt) {
    S("Field", "Name", name, "DataType", type, "ValueRank", array ? "1" : "-1", "IsOptional", opt ? "true" : "false", END); E();
}
static const char *NAME[] = {"M0", "M1", "M2", "M3"};
static void fields(int lo, int hi) { for(int i = lo; i < hi; i++) field(NAME[i], typeText[i], form[i] == ARRAY, form[i] == OPTIONAL); }
static void defS(void) { if(isUnion) S("Definition", "Name", "S", "IsUnion", "true", END); else S("Definition", "Name", "S", END); fields(inherit ? 1 : 0, M); E(); }
static void defP(void) { S("Definition", "Name", "P", END); fields(0, 1); E(); }
static void defT(void) { S("Definition", "Name", "T", END); field("a", "i=6", 0, 0); field("b", "i=3", 0, 0); E(); }
static void defU(void) { S("Definition", "Name", "U", "IsUnion", "true", END); field("a", "i=3", 0, 0); field("b", "i=11", 0, 0); E(); }
static void defV(void) { S("Definition", "Name", "V", "IsUnion", "true", END); field("a", "i=4", 0, 0); field("b", "i=3", 0, 0); E(); }
static void defE(void) { S("Definition", "Name", "E", END); S("Field", "Name", "A", "Value", "0", END); E(); E(); }
static char derived[8] = "i=10";
static void parts(void) {
    int used[N_FORMS] = {0};
    for(int i = 0; i < M; i++) used[form[i]] = 1;
    if(used[TT]) typeNode("ns=1;i=61", "1:T", "i=22", defT);
    if(used[UU]) typeNode("ns=1;i=62", "1:U", "i=12756", defU);
    if(used[VV]) typeNode("ns=1;i=63", "1:V", "i=12756", defV);
    if(used[EE]) typeNode("ns=1;i=64", "1:E", "i=29", defE);
    if(used[DERIVED]) typeNode("ns=1;i=65", "1:D", derived, NULL);
}
static void doc(void) {
    docBegin(1);
    if(order) parts();
    if(inherit) typeNode("ns=1;i=59", "1:P", "i=22", defP);
    /* ids are emitted in the order of the document only within one level; S comes first or last by its id too */
    typeNode("ns=1;i=60", "1:S", inherit ? "ns=1;i=59" : isUnion ? "i=12756" : "i=22", defS);
    if(!order) parts();
    E();
}
static unsigned up(unsigned o, unsigned a) { return (o + a - 1) / a * a; }
void vf_main(void) {
    isUnion = vf_choose(ULO, UHI);
    order = vf_choose(0, 1);
    inherit = isUnion || M < 2 ? 0 : vf_choose(0, 1);
    unsigned size[M], al[M], ptr[M], maxAl = isUnion ? 4 : 1, opt = 0, needParts = 0;
    for(int i = 0; i < M; i++) {
        form[i] = vf_choose(0, isUnion ? ARRAY : OPTIONAL);
        size[i] = al[i] = 8; ptr[i] = 0;
        switch(form[i]) {
        case BUILTIN: {
            int id, n = 2;
            strcpy(typeText[i], "i=");
            if(M == 1) {                              /* every builtin type */
                int tens = vf_choose(0, 2);
                digit[i] = vf_int('0', tens == 2 ? '5' : '9');
                if(!tens) vf_assume(digit[i] != '0');
                if(tens) typeText[i][n++] = (char)('0' + tens);
                typeText[i][n] = (char)digit[i];
                id = tens * 10 + digit[i] - '0';
            } else {                                  /* one of each size and alignment */
                static const int R[] = {1, 4, 6, 11, 12, 14};
                id = R[vf_choose(0, 5)];
                snprintf(typeText[i], sizeof typeText[i], "i=%d", id);
            }
            size[i] = B[id].size; al[i] = B[id].align; ptr[i] = B[id].ptr;
            break; }
        case TT: strcpy(typeText[i], "ns=1;i=61"); size[i] = sizeof(TStr); al[i] = alignof(TStr); break;
        case UU: strcpy(typeText[i], "ns=1;i=62"); size[i] = sizeof(UUn); al[i] = alignof(UUn); break;
        case VV: strcpy(typeText[i], "ns=1;i=63"); size[i] = sizeof(VUn); al[i] = alignof(VUn); break;
        case EE: strcpy(typeText[i], "ns=1;i=64"); size[i] = 4; al[i] = 4; break;
        case DERIVED: {                              /* derived from a builtin type; the members share it */
            strcpy(typeText[i], "ns=1;i=65");
            if(derived[3] == '0') derived[3] = M == 1 ? (char)vf_int('1', '5') : '2';
            int id = 10 + derived[3] - '0';
            size[i] = B[id].size; al[i] = B[id].align; ptr[i] = B[id].ptr;
            break; }
        case ARRAY: strcpy(typeText[i], "i=3"); size[i] = sizeof(size_t) + sizeof(void *); ptr[i] = 1; break;
        default: strcpy(typeText[i], "i=3"); ptr[i] = 1; opt = 1;
        }
        needParts |= form[i] >= TT && form[i] <= DERIVED;
    }
    if(!needParts && order) vf_end_path();
    for(int i = 0; i < M; i++) maxAl = al[i] > maxAl ? al[i] : maxAl;
    vf_doc[0] = doc;
    vf_assert(vf_load(0), "loads");
    UA_NodeId sid = UA_NODEID_NUMERIC(vf_nsMap[0], 60);
    const UA_DataType *s = NodesetLoader_getCustomDataType(&vf_server, &sid);
    vf_assert(s && s->membersSize == M, "the type is there with its members");
    vf_assert(s->typeKind == (isUnion ? UA_DATATYPEKIND_UNION : opt ? UA_DATATYPEKIND_OPTSTRUCT : UA_DATATYPEKIND_STRUCTURE), "kind");
    unsigned pos = isUnion ? up(4, maxAl) : 0, expect = pos, end = pos, anyPtr = 0;
    for(int i = 0; i < M; i++) {
        const UA_DataTypeMember *m = &s->members[i];
        anyPtr = VF_OR(anyPtr, ptr[i]);
        if(isUnion) {
            vf_assert(m->padding == pos, "fields of a union start behind the switch field");
            end = pos + size[i] > end ? pos + size[i] : end;
        } else {
            expect = up(end, al[i]);
            vf_assert(end + m->padding == expect, "offset of the member as in C");
            end = expect + size[i];
        }
    }
    vf_assert(s->memSize == up(end, maxAl), "size as in C");
    vf_assert(VF_IMPLIES(anyPtr, !s->pointerFree), "a type with pointers is not pointer free");
    vf_obs(s->memSize);
    if(needParts) vf_witness("custom members");
    if(anyPtr) vf_witness("pointers");
    bEnd();
}

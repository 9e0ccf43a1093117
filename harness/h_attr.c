/* P10: attributes of a node element: any order, foreign attributes in between, defaults when absent. */
#include "doc.h"
#include <stddef.h>
enum { TXT, IDREF, BN, NID_ };
struct At { const char *name, *def; int kind; size_t off; };
#define A(n, d, T_, f) {n, d, TXT, offsetof(T_, f)}
static const struct At OBJ[] = {{"NodeId", 0, NID_, 0}, {"BrowseName", 0, BN, 0}, {"ParentNodeId", 0, IDREF, offsetof(NL_ObjectNode, parentNodeId)}, A("EventNotifier", "0", NL_ObjectNode, eventNotifier)};
static const struct At OBT[] = {{"NodeId", 0, NID_, 0}, {"BrowseName", 0, BN, 0}, A("IsAbstract", "false", NL_ObjectTypeNode, isAbstract)};
static const struct At VAR[] = {{"NodeId", 0, NID_, 0}, {"BrowseName", 0, BN, 0}, {"ParentNodeId", 0, IDREF, offsetof(NL_VariableNode, parentNodeId)}, {"DataType", "i=24", IDREF, offsetof(NL_VariableNode, datatype)},
    A("ValueRank", "-1", NL_VariableNode, valueRank), A("ArrayDimensions", "", NL_VariableNode, arrayDimensions), A("AccessLevel", "1", NL_VariableNode, accessLevel), A("UserAccessLevel", "1", NL_VariableNode, userAccessLevel),
    A("Historizing", "false", NL_VariableNode, historizing), A("MinimumSamplingInterval", "-1", NL_VariableNode, minimumSamplingInterval)};
static const struct At DT[] = {{"NodeId", 0, NID_, 0}, {"BrowseName", 0, BN, 0}, A("IsAbstract", "false", NL_DataTypeNode, isAbstract)};
static const struct At MET[] = {{"NodeId", 0, NID_, 0}, {"BrowseName", 0, BN, 0}, {"ParentNodeId", 0, IDREF, offsetof(NL_MethodNode, parentNodeId)}, A("Executable", "true", NL_MethodNode, executable), A("UserExecutable", "true", NL_MethodNode, userExecutable)};
static const struct At RT[] = {{"NodeId", 0, NID_, 0}, {"BrowseName", 0, BN, 0}, A("Symmetric", "false", NL_ReferenceTypeNode, symmetric)};
static const struct At VT[] = {{"NodeId", 0, NID_, 0}, {"BrowseName", 0, BN, 0}, {"DataType", "i=24", IDREF, offsetof(NL_VariableTypeNode, datatype)}, A("ValueRank", "-1", NL_VariableTypeNode, valueRank),
    A("ArrayDimensions", "", NL_VariableTypeNode, arrayDimensions), A("IsAbstract", "false", NL_VariableTypeNode, isAbstract)};
static const struct At VIEW[] = {{"NodeId", 0, NID_, 0}, {"BrowseName", 0, BN, 0}, {"ParentNodeId", 0, IDREF, offsetof(NL_ViewNode, parentNodeId)}, A("ContainsNoLoops", "false", NL_ViewNode, containsNoLoops), A("EventNotifier", "0", NL_ViewNode, eventNotifier)};
#define N(a) (int)(sizeof(a) / sizeof(a[0]))
static const struct { const char *el; NL_NodeClass c; const struct At *at; int n; } CL[] = {
    {"UAObject", NODECLASS_OBJECT, OBJ, N(OBJ)}, {"UAObjectType", NODECLASS_OBJECTTYPE, OBT, N(OBT)}, {"UAVariable", NODECLASS_VARIABLE, VAR, N(VAR)}, {"UADataType", NODECLASS_DATATYPE, DT, N(DT)},
    {"UAMethod", NODECLASS_METHOD, MET, N(MET)}, {"UAReferenceType", NODECLASS_REFERENCETYPE, RT, N(RT)}, {"UAVariableType", NODECLASS_VARIABLETYPE, VT, N(VT)}, {"UAView", NODECLASS_VIEW, VIEW, N(VIEW)}};
static int cls, present[16], len, v[16][2], rot, foreign;
static char txt[16][16];
static void doc(void) {
    const char *kv[32];
    int n = 0, k = CL[cls].n;
    S("UANodeSet", END);
    nsUris(1);
    for(int j = 0; j < k; j++) {
        int i = rot >= 0 ? (j + rot) % k : (k - 1 - j);
        if(foreign == 1) { kv[2 * n] = "NodeIdX"; kv[2 * n + 1] = "i=99"; n++; foreign = 0; }
        if(!present[i]) continue;
        const struct At *a = &CL[cls].at[i];
        char *t = txt[i];
        switch(a->kind) {
        case NID_: nid(t, 1, v[i][0] & 7); break;
        case IDREF: nid(t, 1, v[i][0] & 7); break;
        case BN: t[0] = '1'; t[1] = ':'; for(int q = 0; q < len; q++) t[2 + q] = (char)('a' + (v[i][q] & 15)); t[2 + len] = 0; break;
        default: for(int q = 0; q < len; q++) t[q] = (char)v[i][q]; t[len] = 0;
        }
        kv[2 * n] = a->name; kv[2 * n + 1] = t; n++;
        if(foreign == 2 && n == 1) { kv[2 * n] = "SymbolicName"; kv[2 * n + 1] = "zz"; n++; kv[2 * n] = "Alias"; kv[2 * n + 1] = "q"; n++; }
    }
    if(foreign == 3) { kv[2 * n] = "Name"; kv[2 * n + 1] = "w"; n++; }
    SA(CL[cls].el, n, kv);
    E();
    E();
}
void vf_main(void) {
    cls = vf_choose(0, 7);
    int k = CL[cls].n, mode = vf_choose(0, 2), who = mode == 0 ? 0 : vf_choose(1, k - 1);
    /* everything; everything but one; the id and one other */
    for(int i = 0; i < k; i++) { present[i] = i == 0 || (mode == 0 ? 1 : mode == 1 ? i != who : i == who); v[i][0] = vf_int(1, 255); v[i][1] = vf_int(1, 255); }
    len = vf_choose(0, 2);
    rot = vf_choose(-1, ROT) ; 
    foreign = vf_choose(0, 3);
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "well-formed document imports");
    vf_assert(NodesetLoader_sort(l), "sorts");
    vf_collect(l);
    vf_assert(vf_nNodes == 1 && vf_nodes[0].cls == CL[cls].c, "one node of the element's class");
    NL_Node *n = vf_nodes[0].n;
    vf_assert(n->nodeClass == CL[cls].c, "node class");
    for(int i = 0; i < k; i++) {
        const struct At *a = &CL[cls].at[i];
        switch(a->kind) {
        case NID_: vf_assert(vf_isNum(&n->id, vf_nsMap[0], NID(v[i][0] & 7)), "id"); break;
        case BN:
            if(!present[i]) { vf_assert(n->browseName.name == NULL || n->browseName.name[0] == 0, "no browse name"); break; }
            vf_assert(n->browseName.nsIdx == vf_nsMap[0] && n->browseName.name && (int)strlen(n->browseName.name) == len, "browse name");
            for(int q = 0; q < len; q++) vf_assert(n->browseName.name[q] == (char)('a' + (v[i][q] & 15)), "browse name text");
            break;
        case IDREF: {
            const UA_NodeId *id = (const UA_NodeId *)((char *)n + a->off);
            if(present[i]) vf_assert(vf_isNum(id, vf_nsMap[0], NID(v[i][0] & 7)), "id attribute");
            else if(a->def) vf_assert(vf_isNum(id, 0, 24), "default data type");
            else vf_assert(UA_NodeId_isNull(id), "absent id attribute");
            break; }
        default: {
            const char *s = *(char **)((char *)n + a->off);
            vf_assert(s != NULL, "attribute has a value");
            if(present[i]) {
                vf_assert((int)strlen(s) == len, "attribute text length");
                for(int q = 0; q < len; q++) vf_assert(s[q] == (char)v[i][q], "attribute text");
                vf_witness("attribute present");
            } else { vf_assert(!strcmp(s, a->def), "attribute default"); vf_witness("attribute absent"); }
        } }
    }
    NodesetLoader_delete(l);
}

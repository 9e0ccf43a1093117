#include "ua_backend.h"
static void *ownAlloc(size_t n);
UA_Server vf_server;
void (*vf_onAdd)(const struct VfAdd *a);
int (*vf_mayAdd)(const struct VfAdd *a);
struct VfSrvNode vf_srvNodes[260]; int vf_nSrv;
struct VfSrvRef vf_srvRefs[300]; int vf_nSrvRefs;
struct VfSubtype vf_subtypes[260] = {
    {0, 33, 0, 31, UA_NODECLASS_REFERENCETYPE}, {0, 32, 0, 31, UA_NODECLASS_REFERENCETYPE}, {0, 34, 0, 33, UA_NODECLASS_REFERENCETYPE}, {0, 35, 0, 33, UA_NODECLASS_REFERENCETYPE}, {0, 36, 0, 33, UA_NODECLASS_REFERENCETYPE}, {0, 44, 0, 34, UA_NODECLASS_REFERENCETYPE}, {0, 45, 0, 34, UA_NODECLASS_REFERENCETYPE}, {0, 46, 0, 44, UA_NODECLASS_REFERENCETYPE}, {0, 47, 0, 44, UA_NODECLASS_REFERENCETYPE}, {0, 48, 0, 36, UA_NODECLASS_REFERENCETYPE}, {0, 49, 0, 47, UA_NODECLASS_REFERENCETYPE}, {0, 56, 0, 44, UA_NODECLASS_REFERENCETYPE}, {0, 37, 0, 32, UA_NODECLASS_REFERENCETYPE}, {0, 38, 0, 32, UA_NODECLASS_REFERENCETYPE}, {0, 39, 0, 32, UA_NODECLASS_REFERENCETYPE}, {0, 40, 0, 32, UA_NODECLASS_REFERENCETYPE}, {0, 41, 0, 32, UA_NODECLASS_REFERENCETYPE}, {0, 117, 0, 32, UA_NODECLASS_REFERENCETYPE}, {0, 129, 0, 47, UA_NODECLASS_REFERENCETYPE},
    {0, 1, 0, 24, UA_NODECLASS_DATATYPE}, {0, 26, 0, 24, UA_NODECLASS_DATATYPE}, {0, 12, 0, 24, UA_NODECLASS_DATATYPE}, {0, 13, 0, 24, UA_NODECLASS_DATATYPE}, {0, 14, 0, 24, UA_NODECLASS_DATATYPE}, {0, 15, 0, 24, UA_NODECLASS_DATATYPE}, {0, 16, 0, 24, UA_NODECLASS_DATATYPE}, {0, 17, 0, 24, UA_NODECLASS_DATATYPE}, {0, 18, 0, 24, UA_NODECLASS_DATATYPE}, {0, 19, 0, 24, UA_NODECLASS_DATATYPE}, {0, 20, 0, 24, UA_NODECLASS_DATATYPE}, {0, 21, 0, 24, UA_NODECLASS_DATATYPE}, {0, 22, 0, 24, UA_NODECLASS_DATATYPE}, {0, 23, 0, 24, UA_NODECLASS_DATATYPE}, {0, 25, 0, 24, UA_NODECLASS_DATATYPE}, {0, 29, 0, 24, UA_NODECLASS_DATATYPE}, {0, 27, 0, 26, UA_NODECLASS_DATATYPE}, {0, 28, 0, 26, UA_NODECLASS_DATATYPE}, {0, 10, 0, 26, UA_NODECLASS_DATATYPE}, {0, 11, 0, 26, UA_NODECLASS_DATATYPE}, {0, 2, 0, 27, UA_NODECLASS_DATATYPE}, {0, 4, 0, 27, UA_NODECLASS_DATATYPE}, {0, 6, 0, 27, UA_NODECLASS_DATATYPE}, {0, 8, 0, 27, UA_NODECLASS_DATATYPE}, {0, 3, 0, 28, UA_NODECLASS_DATATYPE}, {0, 5, 0, 28, UA_NODECLASS_DATATYPE}, {0, 7, 0, 28, UA_NODECLASS_DATATYPE}, {0, 9, 0, 28, UA_NODECLASS_DATATYPE}, {0, 290, 0, 11, UA_NODECLASS_DATATYPE}, {0, 294, 0, 13, UA_NODECLASS_DATATYPE}, {0, 295, 0, 12, UA_NODECLASS_DATATYPE}, {0, 884, 0, 22, UA_NODECLASS_DATATYPE}, {0, 296, 0, 22, UA_NODECLASS_DATATYPE}, {0, 12755, 0, 22, UA_NODECLASS_DATATYPE}, {0, 12756, 0, 22, UA_NODECLASS_DATATYPE}, {0, 307, 0, 29, UA_NODECLASS_DATATYPE}};
int vf_nSubtypes = 55;
int vf_nAddCalls, vf_srvNamespaces;
char vf_srvUri[16][40];
struct VfSrvLog vf_srvLog;
static void srvLog(void *ctx, UA_LogLevel level, UA_LogCategory cat, const char *msg, va_list args) {
    int i = level == UA_LOGLEVEL_DEBUG ? 0 : level == UA_LOGLEVEL_WARNING ? 1 : level == UA_LOGLEVEL_ERROR ? 2 : 3;
    vf_srvLog.n[i]++;
    vf_srvLog.level = level; vf_srvLog.cat = cat; vf_srvLog.ctx = ctx;
    vsnprintf(vf_srvLog.text, sizeof vf_srvLog.text, msg, args);
}
static int logMark;
UA_Logger vf_srvLogger = {srvLog, &logMark, NULL};
UA_ServerConfig *UA_Server_getConfig(UA_Server *s) { if(!s->config.logging) s->config.logging = &vf_srvLogger; return &s->config; }
UA_UInt16 UA_Server_addNamespace(UA_Server *s, const char *name) {
    (void)s;
    size_t n = strlen(name);
    vf_assert(n < 40 && vf_srvNamespaces < 16, "model: Uri fits");
    for(int i = 0; i < vf_srvNamespaces; i++) if(strcmp(vf_srvUri[i], name) == 0) return vf_nsMap[i];
    memcpy(vf_srvUri[vf_srvNamespaces], name, n + 1);
    return vf_nsMap[vf_srvNamespaces++];
}
const UA_ObjectAttributes UA_ObjectAttributes_default = {0};
const UA_VariableAttributes UA_VariableAttributes_default = {.valueRank = -2, .accessLevel = 1, .userAccessLevel = 1};
const UA_MethodAttributes UA_MethodAttributes_default = {.executable = true, .userExecutable = true};
const UA_ObjectTypeAttributes UA_ObjectTypeAttributes_default = {0};
const UA_VariableTypeAttributes UA_VariableTypeAttributes_default = {.valueRank = -2};
const UA_ReferenceTypeAttributes UA_ReferenceTypeAttributes_default = {0};
const UA_DataTypeAttributes UA_DataTypeAttributes_default = {0};
const UA_ViewAttributes UA_ViewAttributes_default = {0};

int vf_srvFind(const UA_NodeId *id) {
    for(int i = 0; i < vf_nSrv; i++) if(UA_NodeId_equal(&vf_srvNodes[i].id, id)) return i;
    return -1;
}
int vf_srvHasRef(const UA_NodeId *src, const UA_NodeId *type, const UA_NodeId *dst, int fwd) {
    int n = 0;
    for(int i = 0; i < vf_nSrvRefs; i++) {
        const struct VfSrvRef *r = &vf_srvRefs[i];
        n += VF_AND(VF_AND(UA_NodeId_equal(&r->src, src), UA_NodeId_equal(&r->dst, dst)), VF_AND(UA_NodeId_equal(&r->type, type), (r->fwd != 0) == (fwd != 0)));
    }
    return n;
}
static int known(const UA_NodeId *id) {
    if(id->namespaceIndex == 0 && id->identifierType == UA_NODEIDTYPE_NUMERIC && id->identifier.numeric != 0 && id->identifier.numeric < 30000) return 1;
    for(int i = 0; i < vf_nSubtypes; i++)
        if(vf_isNum(id, vf_subtypes[i].tns, vf_subtypes[i].tid)) return 1;
    return vf_srvFind(id) >= 0;
}
/* The model keeps its own copies outside the counted heap. */
static void *ownAlloc(size_t n) { return malloc(n); }
static void ownCopy(const UA_NodeId *s, UA_NodeId *d) {
    *d = *s;
    if(s->identifierType == UA_NODEIDTYPE_STRING || s->identifierType == UA_NODEIDTYPE_BYTESTRING) {
        d->identifier.string.data = (UA_Byte *)ownAlloc(s->identifier.string.length + 1);
        memcpy(d->identifier.string.data, s->identifier.string.data, s->identifier.string.length);
    }
}
static UA_StatusCode add(struct VfAdd *a) {
    vf_nAddCalls++;
    a->result = UA_STATUSCODE_GOOD;
    int noParent = UA_NodeId_isNull(a->parent);
    if(vf_srvFind(a->id) >= 0) a->result = 0x805E0000u;                                       /* BadNodeIdExists */
    else if(noParent) { if(!(a->cls == UA_NODECLASS_OBJECT || a->cls == UA_NODECLASS_VARIABLE) || !UA_NodeId_isNull(a->refType)) a->result = UA_STATUSCODE_BADPARENTNODEIDINVALID; }
    else if(!known(a->parent)) a->result = UA_STATUSCODE_BADPARENTNODEIDINVALID;
    else if(UA_NodeId_isNull(a->refType) || !known(a->refType)) a->result = 0x804C0000u;      /* BadReferenceTypeIdInvalid */
    else if(a->cls == UA_NODECLASS_OBJECTTYPE || a->cls == UA_NODECLASS_VARIABLETYPE || a->cls == UA_NODECLASS_DATATYPE || a->cls == UA_NODECLASS_REFERENCETYPE) {
        /* types only below a supertype of the same class */
        int p = vf_srvFind(a->parent);
        if(!vf_isNum(a->refType, 0, UA_NS0ID_HASSUBTYPE)) a->result = 0x80540000u;            /* BadReferenceNotAllowed */
        else if(p >= 0 && vf_srvNodes[p].cls != a->cls) a->result = UA_STATUSCODE_BADPARENTNODEIDINVALID;
    }
    if(a->result == UA_STATUSCODE_GOOD && vf_mayAdd && !vf_mayAdd(a)) a->result = 0x80020000u; /* BadInternalError */
    if(a->result == UA_STATUSCODE_GOOD) {
        vf_assert(vf_nSrv < 260, "model: nodes fit");
        struct VfSrvNode *n = &vf_srvNodes[vf_nSrv];
        n->cls = a->cls;
        ownCopy(a->id, &n->id); ownCopy(a->parent, &n->parent); ownCopy(a->refType, &n->refType); ownCopy(a->typeDef, &n->typeDef);
        vf_nSrv++;
    }
    if(vf_onAdd) vf_onAdd(a);
    return a->result;
}
UA_StatusCode UA_Server_addNode_begin(UA_Server *s, const UA_NodeClass cls, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId ref,
        const UA_QualifiedName qn, const UA_NodeId td, const void *attr, const UA_DataType *at, void *ctx, UA_NodeId *out) {
    (void)s; (void)out;
    struct VfAdd a = {cls, &id, &parent, &ref, &td, &qn, attr, at, ctx, 0};
    return add(&a);
}
UA_StatusCode UA_Server_addNode_finish(UA_Server *s, const UA_NodeId id) { (void)s; (void)id; return UA_STATUSCODE_GOOD; }
#define ADD(FN, CLS, ATTR) UA_StatusCode FN(UA_Server *s, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId ref, const UA_QualifiedName qn, const ATTR attr, void *ctx, UA_NodeId *out) { \
    (void)s; (void)out; struct VfAdd a = {CLS, &id, &parent, &ref, &UA_NODEID_NULL, &qn, &attr, NULL, ctx, 0}; return add(&a); }
ADD(UA_Server_addViewNode, UA_NODECLASS_VIEW, UA_ViewAttributes)
ADD(UA_Server_addObjectTypeNode, UA_NODECLASS_OBJECTTYPE, UA_ObjectTypeAttributes)
ADD(UA_Server_addReferenceTypeNode, UA_NODECLASS_REFERENCETYPE, UA_ReferenceTypeAttributes)
ADD(UA_Server_addDataTypeNode, UA_NODECLASS_DATATYPE, UA_DataTypeAttributes)
UA_StatusCode UA_Server_addMethodNode(UA_Server *s, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId ref, const UA_QualifiedName qn, const UA_MethodAttributes attr,
        UA_MethodCallback m, size_t inN, const UA_Argument *in, size_t outN, const UA_Argument *outA, void *ctx, UA_NodeId *out) {
    (void)s; (void)m; (void)inN; (void)in; (void)outN; (void)outA; (void)out;
    struct VfAdd a = {UA_NODECLASS_METHOD, &id, &parent, &ref, &UA_NODEID_NULL, &qn, &attr, NULL, ctx, 0};
    return add(&a);
}
UA_StatusCode UA_Server_addReference(UA_Server *s, const UA_NodeId src, const UA_NodeId type, const UA_ExpandedNodeId dst, UA_Boolean fwd) {
    (void)s;
    vf_assert(vf_nSrvRefs < 300, "model: references fit");
    struct VfSrvRef *r = &vf_srvRefs[vf_nSrvRefs++];
    ownCopy(&src, &r->src); ownCopy(&type, &r->type); ownCopy(&dst.nodeId, &r->dst); r->fwd = fwd; r->nodes = vf_nSrv;
    return UA_STATUSCODE_GOOD;
}

UA_StatusCode UA_Server_readNodeClass(UA_Server *s, const UA_NodeId id, UA_NodeClass *out) {
    (void)s;
    int i = vf_srvFind(&id);
    if(i >= 0) { *out = vf_srvNodes[i].cls; return UA_STATUSCODE_GOOD; }
    if(!known(&id)) return UA_STATUSCODE_BADNODEIDUNKNOWN;
    *out = UA_NODECLASS_OBJECT;
    for(int k = 0; k < vf_nSubtypes; k++) if(vf_isNum(&id, vf_subtypes[k].tns, vf_subtypes[k].tid)) *out = vf_subtypes[k].cls;
    return UA_STATUSCODE_GOOD;
}
/* ---- browsing (only what the type hierarchy needs) ---- */
void *vfh_calloc(size_t, size_t); void *vfh_malloc(size_t); void vfh_free(void *);
void UA_BrowseDescription_init(UA_BrowseDescription *p) { memset(p, 0, sizeof *p); }
static UA_StatusCode heapCopy(const UA_NodeId *s, UA_NodeId *d) { return UA_NodeId_copy(s, d); }
void UA_BrowseResult_clear(UA_BrowseResult *p) {
    for(size_t i = 0; i < p->referencesSize; i++) { UA_NodeId_clear(&p->references[i].nodeId.nodeId); UA_NodeId_clear(&p->references[i].referenceTypeId); }
    if(p->references) vfh_free(p->references);
    if(p->continuationPoint.data) vfh_free(p->continuationPoint.data);
    memset(p, 0, sizeof *p);
}
static void push(UA_BrowseResult *br, size_t max, const UA_NodeId *id, int fwd, UA_NodeClass cls) {
    if(max && br->referencesSize == max) {
        if(!br->continuationPoint.data) { br->continuationPoint.data = (UA_Byte *)vfh_malloc(8); br->continuationPoint.length = 8; }
        return;
    }
    UA_ReferenceDescription *rd = &br->references[br->referencesSize++];
    rd->referenceTypeId = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
    rd->isForward = fwd; rd->nodeClass = cls;
    heapCopy(id, &rd->nodeId.nodeId);
}
static int wantsSubtypeRefs(const UA_BrowseDescription *bd) {
    return UA_NodeId_isNull(&bd->referenceTypeId) || vf_isNum(&bd->referenceTypeId, 0, UA_NS0ID_HASSUBTYPE) ||
           (bd->includeSubtypes && (vf_isNum(&bd->referenceTypeId, 0, 31) || vf_isNum(&bd->referenceTypeId, 0, 33) || vf_isNum(&bd->referenceTypeId, 0, 34)));
}
UA_BrowseResult UA_Server_browse(UA_Server *s, UA_UInt32 max, const UA_BrowseDescription *bd) {
    (void)s;
    UA_BrowseResult br;
    memset(&br, 0, sizeof br);
    if(!known(&bd->nodeId)) { br.statusCode = UA_STATUSCODE_BADNODEIDUNKNOWN; return br; }
    if(!wantsSubtypeRefs(bd)) return br;
    size_t cap = (size_t)vf_nSubtypes + (size_t)vf_nSrv + 1;
    br.references = (UA_ReferenceDescription *)vfh_calloc(cap, sizeof(UA_ReferenceDescription));
    for(int i = 0; i < vf_nSubtypes; i++) {
        const struct VfSubtype *t = &vf_subtypes[i];
        if(bd->nodeClassMask && !(bd->nodeClassMask & (UA_UInt32)t->cls)) continue;
        UA_NodeId a = UA_NODEID_NUMERIC(t->tns, t->tid), b = UA_NODEID_NUMERIC(t->pns, t->pid);
        if(bd->browseDirection != UA_BROWSEDIRECTION_INVERSE && UA_NodeId_equal(&b, &bd->nodeId)) push(&br, max, &a, 1, t->cls);
        if(bd->browseDirection != UA_BROWSEDIRECTION_FORWARD && UA_NodeId_equal(&a, &bd->nodeId)) push(&br, max, &b, 0, t->cls);
    }
    for(int i = 0; i < vf_nSrv; i++) {
        const struct VfSrvNode *t = &vf_srvNodes[i];
        if(bd->nodeClassMask && !(bd->nodeClassMask & (UA_UInt32)t->cls)) continue;
        if(!vf_isNum(&t->refType, 0, UA_NS0ID_HASSUBTYPE)) continue;
        if(bd->browseDirection != UA_BROWSEDIRECTION_INVERSE && UA_NodeId_equal(&t->parent, &bd->nodeId)) push(&br, max, &t->id, 1, t->cls);
        if(bd->browseDirection != UA_BROWSEDIRECTION_FORWARD && UA_NodeId_equal(&t->id, &bd->nodeId)) push(&br, max, &t->parent, 0, t->cls);
    }
    if(br.referencesSize == 0) { vfh_free(br.references); br.references = NULL; }
    return br;
}
/* what the README tells the application to do after deleting the server */
void vf_srvCleanTypes(void) {
    NodesetLoader_cleanupCustomDataTypes(vf_server.config.customDataTypes);
    vf_server.config.customDataTypes = NULL;
}
bool vf_load(int doc) {
    char file[2] = {(char)('0' + doc), 0};
    return NodesetLoader_loadFile(&vf_server, file, NULL);
}

/* Shared pieces of the harnesses that load a document into a server. */
#include "doc.h"
#include "ua_backend.h"
static inline void docBegin(int uris) { S("UANodeSet", END); nsUris(uris); }
/* reference written the way nodesets do; inverse unless fwd */
static inline void parentRef(const char *type, const char *target) { S("References", END); ref(type, 0, target); E(); }
static inline void typeIdBody(const char *typeId, const char *name) {
    S("ExtensionObject", END); S("TypeId", END); EL("Identifier", typeId); E(); S("Body", END); S(name, END);
}
static inline void typeIdBodyEnd(void) { E(); E(); E(); }
static inline int strIs(const UA_String *s, const char *t, size_t n) {
    if(s->length != n) return 0;
    int eq = 1;
    for(size_t i = 0; i < n; i++) eq &= s->data[i] == (UA_Byte)t[i];
    return eq;
}
/* everything given back once the server is gone too */
/* what open62541 relies on in every data type it was given: complete members that lie inside the type's memory */
static inline void bTypesUsable(void) {
    for(const UA_DataTypeArray *a = vf_server.config.customDataTypes; a; a = a->next)
        for(size_t i = 0; i < a->typesSize; i++) {
            const UA_DataType *t = &a->types[i];
            size_t at = 0;
            if(t->typeName) vf_assert(strlen(t->typeName) < 100000, "names end");
            int seq = t->typeKind == UA_DATATYPEKIND_STRUCTURE || t->typeKind == UA_DATATYPEKIND_OPTSTRUCT;
            vf_assert(t->membersSize == 0 || t->members != NULL, "members exist");
            for(unsigned m = 0; m < t->membersSize; m++) {
                const UA_DataTypeMember *x = &t->members[m];
                vf_assert(x->memberType != NULL && x->memberName != NULL, "members are complete");
                vf_assert(strlen(x->memberName) < 100000, "names end");
                size_t size = x->isArray ? sizeof(size_t) + sizeof(void *) : x->isOptional ? sizeof(void *) : x->memberType->memSize;
                if(!seq) at = 0;
                at += x->padding + size;
                vf_assert(at <= t->memSize, "members lie inside the type");
            }
        }
}
static inline void bEnd(void) {
    vf_srvCleanTypes();
    vf_assert(vf_live == 0, "no memory left behind");
}

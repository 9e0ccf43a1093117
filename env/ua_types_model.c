/* Executable model of open62541's generic type handling: the table of types, lookup, deep
 * copy, deep release, variants and dates.  Layout rules are those of open62541 1.4. */
#include <open62541/server.h>
#define KIND(K, T, F) {#T, {0, UA_NODEIDTYPE_NUMERIC, {UA_DATATYPEKIND_##K + 1}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_##T), UA_DATATYPEKIND_##K, F, F, 0, NULL}
static UA_DataTypeMember rangeMembers[2] = {
    {"Low", &UA_TYPES[UA_TYPES_DOUBLE], 0, false, false}, {"High", &UA_TYPES[UA_TYPES_DOUBLE], offsetof(UA_Range, high) - sizeof(UA_Double), false, false}};
static UA_DataTypeMember argumentMembers[5] = {
    {"Name", &UA_TYPES[UA_TYPES_STRING], 0, false, false},
    {"DataType", &UA_TYPES[UA_TYPES_NODEID], offsetof(UA_Argument, dataType) - offsetof(UA_Argument, name) - sizeof(UA_String), false, false},
    {"ValueRank", &UA_TYPES[UA_TYPES_INT32], offsetof(UA_Argument, valueRank) - offsetof(UA_Argument, dataType) - sizeof(UA_NodeId), false, false},
    {"ArrayDimensions", &UA_TYPES[UA_TYPES_UINT32], offsetof(UA_Argument, arrayDimensionsSize) - offsetof(UA_Argument, valueRank) - sizeof(UA_Int32), true, false},
    {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], offsetof(UA_Argument, description) - offsetof(UA_Argument, arrayDimensions) - sizeof(void *), false, false}};
static UA_DataTypeMember optionSetMembers[2] = {
    {"Value", &UA_TYPES[UA_TYPES_BYTESTRING], 0, false, false}, {"ValidBits", &UA_TYPES[UA_TYPES_BYTESTRING], 0, false, false}};
UA_DataType UA_TYPES[UA_TYPES_COUNT] = {
    KIND(BOOLEAN, Boolean, 1), KIND(SBYTE, SByte, 1), KIND(BYTE, Byte, 1), KIND(INT16, Int16, 1), KIND(UINT16, UInt16, 1),
    KIND(INT32, Int32, 1), KIND(UINT32, UInt32, 1), KIND(INT64, Int64, 1), KIND(UINT64, UInt64, 1), KIND(FLOAT, Float, 1),
    KIND(DOUBLE, Double, 1), KIND(STRING, String, 0), KIND(DATETIME, DateTime, 1), KIND(GUID, Guid, 1), KIND(BYTESTRING, ByteString, 0),
    KIND(XMLELEMENT, XmlElement, 0), KIND(NODEID, NodeId, 0), KIND(EXPANDEDNODEID, ExpandedNodeId, 0), KIND(STATUSCODE, StatusCode, 1),
    KIND(QUALIFIEDNAME, QualifiedName, 0), KIND(LOCALIZEDTEXT, LocalizedText, 0), KIND(EXTENSIONOBJECT, ExtensionObject, 0),
    KIND(DATAVALUE, DataValue, 0), KIND(VARIANT, Variant, 0), KIND(DIAGNOSTICINFO, DiagnosticInfo, 0),
    {"Range", {0, UA_NODEIDTYPE_NUMERIC, {884}}, {0, UA_NODEIDTYPE_NUMERIC, {886}}, sizeof(UA_Range), UA_DATATYPEKIND_STRUCTURE, 1, 0, 2, rangeMembers},
    {"ApplicationType", {0, UA_NODEIDTYPE_NUMERIC, {307}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_Int32), UA_DATATYPEKIND_ENUM, 1, 1, 0, NULL},
    {"Argument", {0, UA_NODEIDTYPE_NUMERIC, {296}}, {0, UA_NODEIDTYPE_NUMERIC, {298}}, sizeof(UA_Argument), UA_DATATYPEKIND_STRUCTURE, 0, 0, 5, argumentMembers},
    {"OptionSet", {0, UA_NODEIDTYPE_NUMERIC, {12755}}, {0, UA_NODEIDTYPE_NUMERIC, {12765}}, sizeof(UA_OptionSet), UA_DATATYPEKIND_STRUCTURE, 0, 0, 2, optionSetMembers},
    {"ObjectAttributes", {0, UA_NODEIDTYPE_NUMERIC, {352}}, {0, UA_NODEIDTYPE_NUMERIC, {354}}, sizeof(UA_ObjectAttributes), UA_DATATYPEKIND_STRUCTURE, 0, 0, 0, NULL},
    {"VariableAttributes", {0, UA_NODEIDTYPE_NUMERIC, {355}}, {0, UA_NODEIDTYPE_NUMERIC, {357}}, sizeof(UA_VariableAttributes), UA_DATATYPEKIND_STRUCTURE, 0, 0, 0, NULL},
    {"VariableTypeAttributes", {0, UA_NODEIDTYPE_NUMERIC, {364}}, {0, UA_NODEIDTYPE_NUMERIC, {366}}, sizeof(UA_VariableTypeAttributes), UA_DATATYPEKIND_STRUCTURE, 0, 0, 0, NULL},
};
const UA_DataType *UA_findDataType(const UA_NodeId *id) {
    if(id->namespaceIndex != 0 || id->identifierType != UA_NODEIDTYPE_NUMERIC) return NULL;
    for(int i = 0; i < UA_TYPES_COUNT; i++)
        if(UA_TYPES[i].typeId.identifier.numeric == id->identifier.numeric) return &UA_TYPES[i];
    return NULL;
}
static void clearArray(size_t n, void *p, const UA_DataType *t) {
    if(!p || p == UA_EMPTY_ARRAY_SENTINEL) return;
    for(size_t i = 0; i < n; i++) UA_clear((char *)p + i * t->memSize, t);
    free(p);
}
void UA_init(void *p, const UA_DataType *t) { memset(p, 0, t->memSize); }
void *UA_new(const UA_DataType *t) { return calloc(1, t->memSize); }
void UA_delete(void *p, const UA_DataType *t) { if(p) UA_clear(p, t); free(p); }
void UA_clear(void *p, const UA_DataType *t) {
    char *ptr = (char *)p;
    switch((UA_DataTypeKind)t->typeKind) {
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: case UA_DATATYPEKIND_XMLELEMENT: UA_String_clear((UA_String *)p); break;
    case UA_DATATYPEKIND_NODEID: UA_NodeId_clear((UA_NodeId *)p); break;
    case UA_DATATYPEKIND_EXPANDEDNODEID: UA_NodeId_clear(&((UA_ExpandedNodeId *)p)->nodeId); UA_String_clear(&((UA_ExpandedNodeId *)p)->namespaceUri); break;
    case UA_DATATYPEKIND_QUALIFIEDNAME: UA_QualifiedName_clear((UA_QualifiedName *)p); break;
    case UA_DATATYPEKIND_LOCALIZEDTEXT: UA_LocalizedText_clear((UA_LocalizedText *)p); break;
    case UA_DATATYPEKIND_VARIANT: UA_Variant_clear((UA_Variant *)p); break;
    case UA_DATATYPEKIND_DATAVALUE: UA_Variant_clear(&((UA_DataValue *)p)->value); break;
    case UA_DATATYPEKIND_EXTENSIONOBJECT: {
        UA_ExtensionObject *e = (UA_ExtensionObject *)p;
        if(e->encoding <= UA_EXTENSIONOBJECT_ENCODED_XML) { UA_NodeId_clear(&e->content.encoded.typeId); UA_String_clear(&e->content.encoded.body); }
        else if(e->encoding == UA_EXTENSIONOBJECT_DECODED && e->content.decoded.data) UA_delete(e->content.decoded.data, e->content.decoded.type);
        break; }
    case UA_DATATYPEKIND_STRUCTURE:
        if(t->pointerFree) break;
        for(size_t i = 0; i < t->membersSize; i++) {
            const UA_DataTypeMember *m = &t->members[i];
            ptr += m->padding;
            if(!m->isArray) { UA_clear(ptr, m->memberType); ptr += m->memberType->memSize; }
            else { size_t n = *(size_t *)ptr; ptr += sizeof(size_t); clearArray(n, *(void **)ptr, m->memberType); ptr += sizeof(void *); }
        }
        break;
    case UA_DATATYPEKIND_OPTSTRUCT:
        for(size_t i = 0; i < t->membersSize; i++) {
            const UA_DataTypeMember *m = &t->members[i];
            ptr += m->padding;
            if(m->isArray) { size_t n = *(size_t *)ptr; ptr += sizeof(size_t); clearArray(n, *(void **)ptr, m->memberType); ptr += sizeof(void *); }
            else if(m->isOptional) { if(*(void **)ptr) UA_delete(*(void **)ptr, m->memberType); ptr += sizeof(void *); }
            else { UA_clear(ptr, m->memberType); ptr += m->memberType->memSize; }
        }
        break;
    case UA_DATATYPEKIND_UNION: {
        UA_UInt32 sel = *(UA_UInt32 *)ptr;
        if(sel == 0 || sel > t->membersSize) break;
        const UA_DataTypeMember *m = &t->members[sel - 1];
        ptr += m->padding;
        if(!m->isArray) UA_clear(ptr, m->memberType);
        else { size_t n = *(size_t *)ptr; ptr += sizeof(size_t); clearArray(n, *(void **)ptr, m->memberType); }
        break; }
    default: break;
    }
    memset(p, 0, t->memSize);
}
void UA_Variant_init(UA_Variant *p) { memset(p, 0, sizeof *p); }
void UA_Variant_clear(UA_Variant *p) {
    if(p->storageType == UA_VARIANT_DATA) {
        if(p->type && p->data > UA_EMPTY_ARRAY_SENTINEL) clearArray(p->arrayLength ? p->arrayLength : 1, p->data, p->type);
        if((void *)p->arrayDimensions > UA_EMPTY_ARRAY_SENTINEL) free(p->arrayDimensions);
    }
    UA_Variant_init(p);
}
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *type) { UA_Variant_init(v); v->type = type; v->arrayLength = 0; v->data = p; }
void UA_Variant_setArray(UA_Variant *v, void *a, size_t n, const UA_DataType *type) { UA_Variant_init(v); v->type = type; v->arrayLength = n; v->data = a; }

/* Calendar stand-in: every month has 31 days. Linear and strictly monotone in the fields, so two moments are equal
 * here exactly if all fields are (which is all the checks ask); the solver cannot divide its way through the real one. */
static long long daysFromCivil(long long y, unsigned m, unsigned d) { return (y * 12 + m) * 31 + d; }
UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct ts) {
    return ((((daysFromCivil(ts.year, ts.month, ts.day) * 24 + ts.hour) * 60 + ts.min) * 60 + ts.sec) * UA_DATETIME_SEC + UA_DATETIME_UNIX_EPOCH)
        + (UA_DateTime)ts.milliSec * UA_DATETIME_MSEC + (UA_DateTime)ts.microSec * UA_DATETIME_USEC + ts.nanoSec / 100;
}

/* Executable model of the parts of open62541 1.4 the loader uses. */
#include <open62541/server.h>
const UA_NodeId UA_NODEID_NULL = {0, UA_NODEIDTYPE_NUMERIC, {0}};
const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL = {{0, UA_NODEIDTYPE_NUMERIC, {0}}, {0, NULL}, 0};
const UA_String UA_STRING_NULL = {0, NULL};

UA_String UA_String_fromChars(const char *src) {
    UA_String s = {0, NULL};
    if(!src) return s;
    s.length = strlen(src);
    if(s.length) { s.data = (UA_Byte *)malloc(s.length); if(!s.data) { s.length = 0; return s; } memcpy(s.data, src, s.length); }
    else s.data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL;
    return s;
}
void UA_String_init(UA_String *p) { p->length = 0; p->data = NULL; }
void UA_String_clear(UA_String *p) {
    if(p->data && p->data != (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL) free(p->data);
    p->length = 0; p->data = NULL;
}
void UA_String_delete(UA_String *p) { if(p) UA_String_clear(p); free(p); }
void UA_ByteString_clear(UA_ByteString *p) { UA_String_clear(p); }
UA_StatusCode UA_String_copy(const UA_String *src, UA_String *dst) {
    dst->length = 0; dst->data = NULL;
    if(!src->data) return UA_STATUSCODE_GOOD;
    if(src->length == 0) { dst->data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL; return UA_STATUSCODE_GOOD; }
    dst->data = (UA_Byte *)malloc(src->length);
    if(!dst->data) return UA_STATUSCODE_BADOUTOFMEMORY;
    memcpy(dst->data, src->data, src->length);
    dst->length = src->length;
    return UA_STATUSCODE_GOOD;
}
static UA_Order vf_bytesOrder(const UA_String *a, const UA_String *b) {
    if(a->length != b->length) return a->length < b->length ? UA_ORDER_LESS : UA_ORDER_MORE;
    for(size_t i = 0; i < a->length; i++)
        if(a->data[i] != b->data[i]) return a->data[i] < b->data[i] ? UA_ORDER_LESS : UA_ORDER_MORE;
    return UA_ORDER_EQ;
}
UA_Boolean UA_String_equal(const UA_String *a, const UA_String *b) { return vf_bytesOrder(a, b) == UA_ORDER_EQ; }
void UA_QualifiedName_clear(UA_QualifiedName *p) { UA_String_clear(&p->name); p->namespaceIndex = 0; }
void UA_LocalizedText_clear(UA_LocalizedText *p) { UA_String_clear(&p->locale); UA_String_clear(&p->text); }
UA_UInt32 *UA_UInt32_new(void) { return (UA_UInt32 *)calloc(1, sizeof(UA_UInt32)); }
void UA_UInt32_delete(UA_UInt32 *p) { free(p); }
const char *UA_StatusCode_name(UA_StatusCode c) { return c == 0 ? "Good" : "Bad"; }

void UA_NodeId_init(UA_NodeId *p) { memset(p, 0, sizeof(UA_NodeId)); }
UA_NodeId *UA_NodeId_new(void) { return (UA_NodeId *)calloc(1, sizeof(UA_NodeId)); }
void UA_NodeId_clear(UA_NodeId *p) {
    if(p->identifierType == UA_NODEIDTYPE_STRING || p->identifierType == UA_NODEIDTYPE_BYTESTRING)
        UA_String_clear(&p->identifier.string);
    UA_NodeId_init(p);
}
void UA_NodeId_delete(UA_NodeId *p) { if(p) UA_NodeId_clear(p); free(p); }
UA_StatusCode UA_NodeId_copy(const UA_NodeId *src, UA_NodeId *dst) {
    if(src->identifierType == UA_NODEIDTYPE_STRING || src->identifierType == UA_NODEIDTYPE_BYTESTRING) {
        UA_NodeId tmp = UA_NODEID_NULL;
        UA_StatusCode r = UA_String_copy(&src->identifier.string, &tmp.identifier.string);
        if(r == UA_STATUSCODE_GOOD) { tmp.namespaceIndex = src->namespaceIndex; tmp.identifierType = src->identifierType; }
        *dst = tmp;
        return r;
    }
    *dst = *src;
    return UA_STATUSCODE_GOOD;
}
UA_Order UA_NodeId_order(const UA_NodeId *a, const UA_NodeId *b) {
    if(a == b) return UA_ORDER_EQ;
    if(a->namespaceIndex != b->namespaceIndex)
        return a->namespaceIndex < b->namespaceIndex ? UA_ORDER_LESS : UA_ORDER_MORE;
#ifndef VF_NUMERIC_IDS_ONLY
    if(a->identifierType != b->identifierType)
        return a->identifierType < b->identifierType ? UA_ORDER_LESS : UA_ORDER_MORE;
    switch(a->identifierType) {
    case UA_NODEIDTYPE_STRING:
    case UA_NODEIDTYPE_BYTESTRING:
        return vf_bytesOrder(&a->identifier.string, &b->identifier.string);
    case UA_NODEIDTYPE_GUID: {
        int c = memcmp(&a->identifier.guid, &b->identifier.guid, sizeof(UA_Guid));
        return c == 0 ? UA_ORDER_EQ : (c < 0 ? UA_ORDER_LESS : UA_ORDER_MORE); }
    case UA_NODEIDTYPE_NUMERIC:
    default: break;
    }
#endif
    if(a->identifier.numeric == b->identifier.numeric) return UA_ORDER_EQ;
    return a->identifier.numeric < b->identifier.numeric ? UA_ORDER_LESS : UA_ORDER_MORE;
}
UA_Boolean UA_NodeId_equal(const UA_NodeId *a, const UA_NodeId *b) { return UA_NodeId_order(a, b) == UA_ORDER_EQ; }
UA_Boolean UA_NodeId_isNull(const UA_NodeId *p) { return UA_NodeId_equal(p, &UA_NODEID_NULL); }
UA_UInt32 UA_NodeId_hash(const UA_NodeId *n) { return n->namespaceIndex * 31u + (n->identifierType == UA_NODEIDTYPE_NUMERIC ? n->identifier.numeric : 7u); }

static size_t vf_readNumber(const UA_Byte *p, size_t n, UA_UInt32 *out) {
    UA_UInt32 v = 0; size_t i = 0;
    while(i < n && p[i] >= '0' && p[i] <= '9') { v = v * 10 + (UA_UInt32)(p[i] - '0'); i++; }
    *out = v;
    return i;
}
static int vf_hex(UA_Byte c) {
    if(c >= '0' && c <= '9') return c - '0';
    if(c >= 'a' && c <= 'f') return c - 'a' + 10;
    if(c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
UA_StatusCode UA_Guid_parse(UA_Guid *guid, const UA_String s) {
    memset(guid, 0, sizeof(*guid));
    if(s.length != 36) return UA_STATUSCODE_BADDECODINGERROR;
    UA_Byte nib[32]; size_t k = 0;
    for(size_t i = 0; i < 36; i++) {
        if(i == 8 || i == 13 || i == 18 || i == 23) {
            if(s.data[i] != '-') return UA_STATUSCODE_BADDECODINGERROR;
            continue;
        }
        int h = vf_hex(s.data[i]);
        if(h < 0) return UA_STATUSCODE_BADDECODINGERROR;
        nib[k++] = (UA_Byte)h;
    }
    for(k = 0; k < 8; k++) guid->data1 = (guid->data1 << 4) | nib[k];
    for(; k < 12; k++) guid->data2 = (UA_UInt16)((guid->data2 << 4) | nib[k]);
    for(; k < 16; k++) guid->data3 = (UA_UInt16)((guid->data3 << 4) | nib[k]);
    for(k = 0; k < 8; k++) guid->data4[k] = (UA_Byte)((nib[16 + 2 * k] << 4) | nib[17 + 2 * k]);
    return UA_STATUSCODE_GOOD;
}
UA_Guid UA_GUID(const char *chars) {
    UA_Guid g; UA_Guid_parse(&g, UA_STRING((char *)(uintptr_t)chars)); return g;
}
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str) {
    UA_NodeId_init(id);
    const UA_Byte *p = str.data; size_t n = str.length;
    UA_UInt32 ns = 0;
    if(n >= 3 && p[0] == 'n' && p[1] == 's' && p[2] == '=') {
        size_t used = vf_readNumber(p + 3, n - 3, &ns);
        if(used == 0 || 3 + used >= n || p[3 + used] != ';') return UA_STATUSCODE_BADDECODINGERROR;
        p += 4 + used; n -= 4 + used;
    }
    if(n < 2 || p[1] != '=') return UA_STATUSCODE_BADDECODINGERROR;
    UA_String body = {n - 2, (UA_Byte *)(uintptr_t)(p + 2)};
    UA_StatusCode r = UA_STATUSCODE_GOOD;
    switch(p[0]) {
    case 'i': {
        UA_UInt32 v; 
        if(body.length == 0 || vf_readNumber(body.data, body.length, &v) != body.length) return UA_STATUSCODE_BADDECODINGERROR;
        id->identifier.numeric = v; break; }
    case 's':
    case 'b': /* model: the base64 text of an opaque id is kept undecoded */
        r = UA_String_copy(&body, &id->identifier.string);
        if(r != UA_STATUSCODE_GOOD) { UA_NodeId_init(id); return r; }
        id->identifierType = p[0] == 's' ? UA_NODEIDTYPE_STRING : UA_NODEIDTYPE_BYTESTRING; break;
    case 'g':
        r = UA_Guid_parse(&id->identifier.guid, body);
        if(r != UA_STATUSCODE_GOOD) { UA_NodeId_init(id); return r; }
        id->identifierType = UA_NODEIDTYPE_GUID; break;
    default: return UA_STATUSCODE_BADDECODINGERROR;
    }
    id->namespaceIndex = (UA_UInt16)ns;
    return UA_STATUSCODE_GOOD;
}
UA_NodeId UA_NODEID(const char *chars) {
    UA_NodeId id; UA_NodeId_parse(&id, UA_STRING((char *)(uintptr_t)chars)); return id;
}
int vf_printIds;   /* set by harnesses that look at the text */
static size_t putNum(char *b, UA_UInt32 v) {
    size_t n = 1;
    for(UA_UInt32 m = 10; n < 10 && v >= m; n++) m = m > 400000000u ? 0xFFFFFFFFu : m * 10;
    for(size_t i = n; i--; v /= 10) b[i] = (char)('0' + v % 10);
    return n;
}
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *out) {
    UA_String_init(out);
    if(!vf_printIds) {     /* only used for log messages: a fixed-size form */
        out->data = (UA_Byte *)malloc(2);
        if(!out->data) return UA_STATUSCODE_BADOUTOFMEMORY;
        out->data[0] = 'i'; out->data[1] = (UA_Byte)('0' + (id->identifierType == UA_NODEIDTYPE_NUMERIC ? id->identifier.numeric % 10 : 0)); out->length = 2;
        return UA_STATUSCODE_GOOD;
    }
    char b[400]; size_t n = 0;
    if(id->namespaceIndex) { memcpy(b, "ns=", 3); n = 3 + putNum(b + 3, id->namespaceIndex); b[n++] = ';'; }
    if(id->identifierType == UA_NODEIDTYPE_NUMERIC) { b[n++] = 'i'; b[n++] = '='; n += putNum(b + n, id->identifier.numeric); }
    else {
        const UA_String *t = &id->identifier.string;
        if(id->identifierType != UA_NODEIDTYPE_STRING || t->length >= 380) abort();   /* model: form of a printed id */
        b[n++] = 's'; b[n++] = '='; memcpy(b + n, t->data, t->length); n += t->length;
    }
    out->data = (UA_Byte *)malloc(n);
    if(!out->data) return UA_STATUSCODE_BADOUTOFMEMORY;
    memcpy(out->data, b, n); out->length = n;
    return UA_STATUSCODE_GOOD;
}

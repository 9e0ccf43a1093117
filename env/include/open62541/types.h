/* Stand-in for <open62541/types.h> (modelled on open62541 1.4): the sandbox has
 * no open62541, so the loader's sources are compiled against these declarations
 * and against the executable model in ../../ua_model.c. */
#ifndef VF_UA_TYPES_H
#define VF_UA_TYPES_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>

#ifdef __cplusplus
extern "C" {
#endif
#define UA_EXPORT
#define UA_INLINABLE(decl, impl) static inline decl impl

typedef bool UA_Boolean;
#define UA_TRUE true
#define UA_FALSE false
typedef int8_t UA_SByte;
typedef uint8_t UA_Byte;
typedef int16_t UA_Int16;
typedef uint16_t UA_UInt16;
typedef int32_t UA_Int32;
typedef uint32_t UA_UInt32;
typedef int64_t UA_Int64;
typedef uint64_t UA_UInt64;
typedef float UA_Float;
typedef double UA_Double;
#define UA_UINT16_MAX 65535
typedef uint32_t UA_StatusCode;
#define UA_STATUSCODE_GOOD 0x00000000u
#define UA_STATUSCODE_BADOUTOFMEMORY 0x80030000u
#define UA_STATUSCODE_BADDECODINGERROR 0x80070000u
#define UA_STATUSCODE_BADINTERNALERROR 0x80020000u
#define UA_STATUSCODE_BADNODEIDUNKNOWN 0x80340000u
#define UA_STATUSCODE_BADPARENTNODEIDINVALID 0x805B0000u
static inline UA_Boolean UA_StatusCode_isBad(UA_StatusCode c) { return (c >> 30) >= 0x02; }
static inline UA_Boolean UA_StatusCode_isGood(UA_StatusCode c) { return (c >> 30) == 0; }
const char *UA_StatusCode_name(UA_StatusCode code);

typedef struct { size_t length; UA_Byte *data; } UA_String;
typedef UA_String UA_ByteString;
typedef UA_String UA_XmlElement;
typedef int64_t UA_DateTime;
#define UA_DATETIME_USEC (10LL)
#define UA_DATETIME_MSEC (UA_DATETIME_USEC * 1000LL)
#define UA_DATETIME_SEC (UA_DATETIME_MSEC * 1000LL)
#define UA_DATETIME_UNIX_EPOCH (11644473600LL * UA_DATETIME_SEC)
typedef struct UA_DateTimeStruct {
    UA_UInt16 nanoSec; UA_UInt16 microSec; UA_UInt16 milliSec; UA_UInt16 sec;
    UA_UInt16 min; UA_UInt16 hour; UA_UInt16 day; UA_UInt16 month; UA_Int16 year;
} UA_DateTimeStruct;
UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct ts);
typedef struct { UA_UInt32 data1; UA_UInt16 data2; UA_UInt16 data3; UA_Byte data4[8]; } UA_Guid;
UA_StatusCode UA_Guid_parse(UA_Guid *guid, const UA_String str);
UA_Guid UA_GUID(const char *chars);

enum UA_NodeIdType {
    UA_NODEIDTYPE_NUMERIC = 0, UA_NODEIDTYPE_STRING = 3,
    UA_NODEIDTYPE_GUID = 4, UA_NODEIDTYPE_BYTESTRING = 5
};
typedef struct {
    UA_UInt16 namespaceIndex;
    enum UA_NodeIdType identifierType;
    union {
        UA_UInt32 numeric;
        UA_String string;
        UA_Guid guid;
        UA_ByteString byteString;
    } identifier;
} UA_NodeId;
typedef struct { UA_NodeId nodeId; UA_String namespaceUri; UA_UInt32 serverIndex; } UA_ExpandedNodeId;
typedef struct { UA_UInt16 namespaceIndex; UA_String name; } UA_QualifiedName;
typedef struct { UA_String locale; UA_String text; } UA_LocalizedText;
extern const UA_NodeId UA_NODEID_NULL;
extern const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL;
extern const UA_String UA_STRING_NULL;
typedef enum { UA_ORDER_LESS = -1, UA_ORDER_EQ = 0, UA_ORDER_MORE = 1 } UA_Order;

UA_String UA_String_fromChars(const char *src);
static inline UA_String UA_STRING(char *chars) {
    UA_String s; s.length = 0; s.data = NULL;
    if(!chars) return s;
    s.length = strlen(chars); s.data = (UA_Byte *)chars; return s;
}
#define UA_STRING_STATIC(CHARS) {sizeof(CHARS) - 1, (UA_Byte *)CHARS}
#define UA_STRING_ALLOC(CHARS) UA_String_fromChars(CHARS)
static inline UA_LocalizedText UA_LOCALIZEDTEXT(char *locale, char *text) {
    UA_LocalizedText lt; lt.locale = UA_STRING(locale); lt.text = UA_STRING(text); return lt;
}
static inline UA_QualifiedName UA_QUALIFIEDNAME(UA_UInt16 nsIndex, char *chars) {
    UA_QualifiedName qn; qn.namespaceIndex = nsIndex; qn.name = UA_STRING(chars); return qn;
}
static inline UA_NodeId UA_NODEID_NUMERIC(UA_UInt16 nsIndex, UA_UInt32 identifier) {
    UA_NodeId id; memset(&id, 0, sizeof(UA_NodeId));
    id.namespaceIndex = nsIndex; id.identifierType = UA_NODEIDTYPE_NUMERIC;
    id.identifier.numeric = identifier; return id;
}
static inline UA_NodeId UA_NODEID_STRING(UA_UInt16 nsIndex, char *chars) {
    UA_NodeId id; memset(&id, 0, sizeof(UA_NodeId));
    id.namespaceIndex = nsIndex; id.identifierType = UA_NODEIDTYPE_STRING;
    id.identifier.string = UA_STRING(chars); return id;
}
static inline UA_ExpandedNodeId UA_EXPANDEDNODEID_NUMERIC(UA_UInt16 ns, UA_UInt32 i) {
    UA_ExpandedNodeId e; memset(&e, 0, sizeof(e)); e.nodeId = UA_NODEID_NUMERIC(ns, i); return e;
}
void UA_NodeId_init(UA_NodeId *p);
UA_NodeId *UA_NodeId_new(void);
void UA_NodeId_clear(UA_NodeId *p);
void UA_NodeId_delete(UA_NodeId *p);
UA_StatusCode UA_NodeId_copy(const UA_NodeId *src, UA_NodeId *dst);
UA_Boolean UA_NodeId_equal(const UA_NodeId *a, const UA_NodeId *b);
UA_Boolean UA_NodeId_isNull(const UA_NodeId *p);
UA_Order UA_NodeId_order(const UA_NodeId *a, const UA_NodeId *b);
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str);
UA_NodeId UA_NODEID(const char *chars);
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *output);
UA_UInt32 UA_NodeId_hash(const UA_NodeId *n);
void UA_String_init(UA_String *p);
void UA_String_clear(UA_String *p);
void UA_String_delete(UA_String *p);
UA_StatusCode UA_String_copy(const UA_String *src, UA_String *dst);
UA_Boolean UA_String_equal(const UA_String *a, const UA_String *b);
void UA_ByteString_clear(UA_ByteString *p);
void UA_QualifiedName_clear(UA_QualifiedName *p);
void UA_LocalizedText_clear(UA_LocalizedText *p);
UA_UInt32 *UA_UInt32_new(void);
void UA_UInt32_delete(UA_UInt32 *p);

struct UA_DataType; typedef struct UA_DataType UA_DataType;
typedef enum { UA_VARIANT_DATA, UA_VARIANT_DATA_NODELETE } UA_VariantStorageType;
typedef struct { size_t dimensions_dummy; } UA_NumericRange_;
typedef struct {
    const UA_DataType *type; UA_VariantStorageType storageType;
    size_t arrayLength; void *data; size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions;
} UA_Variant;
#define UA_EMPTY_ARRAY_SENTINEL ((void *)0x01)
void UA_Variant_init(UA_Variant *p);
void UA_Variant_clear(UA_Variant *p);
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *type);
void UA_Variant_setArray(UA_Variant *v, void *array, size_t arraySize, const UA_DataType *type);
UA_StatusCode UA_Variant_setScalarCopy(UA_Variant *v, const void *p, const UA_DataType *type);
UA_StatusCode UA_Variant_setArrayCopy(UA_Variant *v, const void *array, size_t n, const UA_DataType *type);
static inline UA_Boolean UA_Variant_isEmpty(const UA_Variant *v) { return v->type == NULL; }
static inline UA_Boolean UA_Variant_isScalar(const UA_Variant *v) { return v->arrayLength == 0 && v->data > UA_EMPTY_ARRAY_SENTINEL; }

typedef enum {
    UA_EXTENSIONOBJECT_ENCODED_NOBODY = 0, UA_EXTENSIONOBJECT_ENCODED_BYTESTRING = 1,
    UA_EXTENSIONOBJECT_ENCODED_XML = 2, UA_EXTENSIONOBJECT_DECODED = 3,
    UA_EXTENSIONOBJECT_DECODED_NODELETE = 4
} UA_ExtensionObjectEncoding;
typedef struct {
    UA_ExtensionObjectEncoding encoding;
    union {
        struct { UA_NodeId typeId; UA_ByteString body; } encoded;
        struct { const UA_DataType *type; void *data; } decoded;
    } content;
} UA_ExtensionObject;
typedef struct {
    UA_Variant value; UA_DateTime sourceTimestamp, serverTimestamp;
    UA_UInt16 sourcePicoseconds, serverPicoseconds; UA_StatusCode status;
    UA_Boolean hasValue : 1, hasStatus : 1, hasSourceTimestamp : 1, hasServerTimestamp : 1,
        hasSourcePicoseconds : 1, hasServerPicoseconds : 1;
} UA_DataValue;
typedef struct UA_DiagnosticInfo {
    UA_Boolean hasSymbolicId : 1, hasNamespaceUri : 1, hasLocalizedText : 1, hasLocale : 1,
        hasAdditionalInfo : 1, hasInnerStatusCode : 1, hasInnerDiagnosticInfo : 1;
    UA_Int32 symbolicId, namespaceUri, localizedText, locale; UA_String additionalInfo;
    UA_StatusCode innerStatusCode; struct UA_DiagnosticInfo *innerDiagnosticInfo;
} UA_DiagnosticInfo;

typedef struct {
    const char *memberName;
    const UA_DataType *memberType;
    UA_Byte padding : 6;
    UA_Boolean isArray : 1;
    UA_Boolean isOptional : 1;
} UA_DataTypeMember;
typedef enum {
    UA_DATATYPEKIND_BOOLEAN = 0, UA_DATATYPEKIND_SBYTE = 1, UA_DATATYPEKIND_BYTE = 2,
    UA_DATATYPEKIND_INT16 = 3, UA_DATATYPEKIND_UINT16 = 4, UA_DATATYPEKIND_INT32 = 5,
    UA_DATATYPEKIND_UINT32 = 6, UA_DATATYPEKIND_INT64 = 7, UA_DATATYPEKIND_UINT64 = 8,
    UA_DATATYPEKIND_FLOAT = 9, UA_DATATYPEKIND_DOUBLE = 10, UA_DATATYPEKIND_STRING = 11,
    UA_DATATYPEKIND_DATETIME = 12, UA_DATATYPEKIND_GUID = 13, UA_DATATYPEKIND_BYTESTRING = 14,
    UA_DATATYPEKIND_XMLELEMENT = 15, UA_DATATYPEKIND_NODEID = 16,
    UA_DATATYPEKIND_EXPANDEDNODEID = 17, UA_DATATYPEKIND_STATUSCODE = 18,
    UA_DATATYPEKIND_QUALIFIEDNAME = 19, UA_DATATYPEKIND_LOCALIZEDTEXT = 20,
    UA_DATATYPEKIND_EXTENSIONOBJECT = 21, UA_DATATYPEKIND_DATAVALUE = 22,
    UA_DATATYPEKIND_VARIANT = 23, UA_DATATYPEKIND_DIAGNOSTICINFO = 24,
    UA_DATATYPEKIND_DECIMAL = 25, UA_DATATYPEKIND_ENUM = 26, UA_DATATYPEKIND_STRUCTURE = 27,
    UA_DATATYPEKIND_OPTSTRUCT = 28, UA_DATATYPEKIND_UNION = 29,
    UA_DATATYPEKIND_BITFIELDCLUSTER = 30
} UA_DataTypeKind;
#define UA_DATATYPEKINDS 31
struct UA_DataType {
    const char *typeName;
    UA_NodeId typeId;
    UA_NodeId binaryEncodingId;
    UA_UInt32 memSize : 16;
    UA_UInt32 typeKind : 6;
    UA_UInt32 pointerFree : 1;
    UA_UInt32 overlayable : 1;
    UA_UInt32 membersSize : 8;
    UA_DataTypeMember *members;
};
typedef struct UA_DataTypeArray {
    const struct UA_DataTypeArray *next;
    const size_t typesSize;
    const UA_DataType *types;
    UA_Boolean cleanup;
} UA_DataTypeArray;
#define UA_BYTE_MAX 255
#define UA_BINARY_OVERLAYABLE_INTEGER 1
#define UA_BINARY_OVERLAYABLE_FLOAT 1
const UA_DataType *UA_findDataType(const UA_NodeId *typeId);
void UA_clear(void *p, const UA_DataType *type);
void UA_delete(void *p, const UA_DataType *type);
void *UA_new(const UA_DataType *type);
void UA_init(void *p, const UA_DataType *type);
UA_StatusCode UA_copy(const void *src, void *dst, const UA_DataType *type);

#define UA_malloc malloc
#define UA_free free
#define UA_calloc calloc
#define UA_realloc realloc
#ifdef __cplusplus
}
#endif
#endif

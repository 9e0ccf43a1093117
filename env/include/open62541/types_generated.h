/* Stand-in for <open62541/types_generated.h>; see types.h. */
#ifndef VF_UA_TYPES_GENERATED_H
#define VF_UA_TYPES_GENERATED_H
#include <open62541/types.h>
enum {
    UA_TYPES_BOOLEAN, UA_TYPES_SBYTE, UA_TYPES_BYTE, UA_TYPES_INT16, UA_TYPES_UINT16,
    UA_TYPES_INT32, UA_TYPES_UINT32, UA_TYPES_INT64, UA_TYPES_UINT64, UA_TYPES_FLOAT,
    UA_TYPES_DOUBLE, UA_TYPES_STRING, UA_TYPES_DATETIME, UA_TYPES_GUID, UA_TYPES_BYTESTRING,
    UA_TYPES_XMLELEMENT, UA_TYPES_NODEID, UA_TYPES_EXPANDEDNODEID, UA_TYPES_STATUSCODE,
    UA_TYPES_QUALIFIEDNAME, UA_TYPES_LOCALIZEDTEXT, UA_TYPES_EXTENSIONOBJECT,
    UA_TYPES_DATAVALUE, UA_TYPES_VARIANT, UA_TYPES_DIAGNOSTICINFO,
    UA_TYPES_RANGE, UA_TYPES_APPLICATIONTYPE, UA_TYPES_ARGUMENT, UA_TYPES_OPTIONSET,
    UA_TYPES_OBJECTATTRIBUTES, UA_TYPES_VARIABLEATTRIBUTES, UA_TYPES_VARIABLETYPEATTRIBUTES,
    UA_TYPES_COUNT
};
extern UA_DataType UA_TYPES[UA_TYPES_COUNT];
typedef struct { UA_Double low; UA_Double high; } UA_Range;
typedef struct { UA_String name; UA_NodeId dataType; UA_Int32 valueRank; size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions; UA_LocalizedText description; } UA_Argument;
typedef UA_Int32 UA_ApplicationType;
#define UA_NS0ID_HASTYPEDEFINITION 40
#define UA_NS0ID_REFERENCES 31
#define UA_NS0ID_NONHIERARCHICALREFERENCES 32
#define UA_NS0ID_HIERARCHICALREFERENCES 33
#define UA_NS0ID_HASCHILD 34
#define UA_NS0ID_ORGANIZES 35
#define UA_NS0ID_HASEVENTSOURCE 36
#define UA_NS0ID_HASENCODING 38
#define UA_NS0ID_AGGREGATES 44
#define UA_NS0ID_HASSUBTYPE 45
#define UA_NS0ID_HASPROPERTY 46
#define UA_NS0ID_HASCOMPONENT 47
#define UA_NS0ID_HASNOTIFIER 48
#define UA_NS0ID_HASORDEREDCOMPONENT 49
#define UA_NS0ID_BASEDATATYPE 24
#define UA_NS0ID_NUMBER 26
#define UA_NS0ID_INTEGER 27
#define UA_NS0ID_UINTEGER 28
#define UA_NS0ID_ENUMERATION 29
#define UA_NS0ID_STRUCTURE 22
#define UA_NS0ID_OPTIONSET 12755
typedef struct { UA_ByteString value, validBits; } UA_OptionSet;
#define UA_NS0ID_UNION 12756
#endif

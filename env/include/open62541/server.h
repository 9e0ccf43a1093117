/* Stand-in for <open62541/server.h>; see types.h. */
#ifndef VF_UA_SERVER_H
#define VF_UA_SERVER_H
#include <open62541/types.h>
#include <open62541/types_generated.h>
typedef enum { UA_LOGLEVEL_TRACE = 100, UA_LOGLEVEL_DEBUG = 200, UA_LOGLEVEL_INFO = 300,
    UA_LOGLEVEL_WARNING = 400, UA_LOGLEVEL_ERROR = 500, UA_LOGLEVEL_FATAL = 600 } UA_LogLevel;
typedef enum { UA_LOGCATEGORY_NETWORK = 0, UA_LOGCATEGORY_SECURECHANNEL, UA_LOGCATEGORY_SESSION,
    UA_LOGCATEGORY_SERVER, UA_LOGCATEGORY_CLIENT, UA_LOGCATEGORY_USERLAND } UA_LogCategory;
typedef struct UA_Logger {
    void (*log)(void *logContext, UA_LogLevel level, UA_LogCategory category, const char *msg, va_list args);
    void *context;
    void (*clear)(struct UA_Logger *logger);
} UA_Logger;
struct UA_Server; typedef struct UA_Server UA_Server;
typedef struct { UA_Logger *logging; const UA_DataTypeArray *customDataTypes; } UA_ServerConfig;
UA_ServerConfig *UA_Server_getConfig(UA_Server *server);
UA_UInt16 UA_Server_addNamespace(UA_Server *server, const char *name);

typedef enum { UA_NODECLASS_UNSPECIFIED = 0, UA_NODECLASS_OBJECT = 1, UA_NODECLASS_VARIABLE = 2,
    UA_NODECLASS_METHOD = 4, UA_NODECLASS_OBJECTTYPE = 8, UA_NODECLASS_VARIABLETYPE = 16,
    UA_NODECLASS_REFERENCETYPE = 32, UA_NODECLASS_DATATYPE = 64, UA_NODECLASS_VIEW = 128 } UA_NodeClass;
typedef enum { UA_BROWSEDIRECTION_FORWARD = 0, UA_BROWSEDIRECTION_INVERSE = 1, UA_BROWSEDIRECTION_BOTH = 2 } UA_BrowseDirection;
#define UA_BROWSERESULTMASK_NONE 0
#define UA_BROWSERESULTMASK_BROWSENAME 8
#define UA_BROWSERESULTMASK_ALL 63
typedef struct { UA_NodeId nodeId; UA_BrowseDirection browseDirection; UA_NodeId referenceTypeId;
    UA_Boolean includeSubtypes; UA_UInt32 nodeClassMask; UA_UInt32 resultMask; } UA_BrowseDescription;
typedef struct { UA_NodeId referenceTypeId; UA_Boolean isForward; UA_ExpandedNodeId nodeId;
    UA_QualifiedName browseName; UA_LocalizedText displayName; UA_NodeClass nodeClass;
    UA_ExpandedNodeId typeDefinition; } UA_ReferenceDescription;
typedef struct { UA_StatusCode statusCode; UA_ByteString continuationPoint; size_t referencesSize;
    UA_ReferenceDescription *references; } UA_BrowseResult;
void UA_BrowseDescription_init(UA_BrowseDescription *p);
UA_BrowseResult UA_Server_browse(UA_Server *server, UA_UInt32 maxReferences, const UA_BrowseDescription *bd);
void UA_BrowseResult_clear(UA_BrowseResult *p);

typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask; UA_Byte eventNotifier; } UA_ObjectAttributes;
typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask;
    UA_Variant value; UA_NodeId dataType; UA_Int32 valueRank; size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions;
    UA_Byte accessLevel, userAccessLevel; UA_Double minimumSamplingInterval; UA_Boolean historizing; } UA_VariableAttributes;
typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask; UA_Boolean executable, userExecutable; } UA_MethodAttributes;
typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask; UA_Boolean isAbstract; } UA_ObjectTypeAttributes;
typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask;
    UA_Variant value; UA_NodeId dataType; UA_Int32 valueRank; size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions; UA_Boolean isAbstract; } UA_VariableTypeAttributes;
typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask; UA_Boolean isAbstract, symmetric; UA_LocalizedText inverseName; } UA_ReferenceTypeAttributes;
typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask; UA_Boolean isAbstract; } UA_DataTypeAttributes;
typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask; UA_Boolean containsNoLoops; UA_Byte eventNotifier; } UA_ViewAttributes;
extern const UA_ObjectAttributes UA_ObjectAttributes_default;
extern const UA_VariableAttributes UA_VariableAttributes_default;
extern const UA_MethodAttributes UA_MethodAttributes_default;
extern const UA_ObjectTypeAttributes UA_ObjectTypeAttributes_default;
extern const UA_VariableTypeAttributes UA_VariableTypeAttributes_default;
extern const UA_ReferenceTypeAttributes UA_ReferenceTypeAttributes_default;
extern const UA_DataTypeAttributes UA_DataTypeAttributes_default;
extern const UA_ViewAttributes UA_ViewAttributes_default;
typedef UA_StatusCode (*UA_MethodCallback)(void);
UA_StatusCode UA_Server_addNode_begin(UA_Server *server, const UA_NodeClass nodeClass, const UA_NodeId requestedNewNodeId,
    const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId, const UA_QualifiedName browseName,
    const UA_NodeId typeDefinition, const void *attr, const UA_DataType *attributeType, void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_readNodeClass(UA_Server *server, const UA_NodeId nodeId, UA_NodeClass *outNodeClass);
UA_StatusCode UA_Server_addNode_finish(UA_Server *server, const UA_NodeId nodeId);
UA_StatusCode UA_Server_addViewNode(UA_Server *server, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId ref, const UA_QualifiedName qn, const UA_ViewAttributes attr, void *ctx, UA_NodeId *out);
UA_StatusCode UA_Server_addObjectTypeNode(UA_Server *server, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId ref, const UA_QualifiedName qn, const UA_ObjectTypeAttributes attr, void *ctx, UA_NodeId *out);
UA_StatusCode UA_Server_addReferenceTypeNode(UA_Server *server, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId ref, const UA_QualifiedName qn, const UA_ReferenceTypeAttributes attr, void *ctx, UA_NodeId *out);
UA_StatusCode UA_Server_addDataTypeNode(UA_Server *server, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId ref, const UA_QualifiedName qn, const UA_DataTypeAttributes attr, void *ctx, UA_NodeId *out);
UA_StatusCode UA_Server_addMethodNode(UA_Server *server, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId ref, const UA_QualifiedName qn, const UA_MethodAttributes attr, UA_MethodCallback method,
    size_t inN, const UA_Argument *in, size_t outN, const UA_Argument *outA, void *ctx, UA_NodeId *out);
UA_StatusCode UA_Server_addReference(UA_Server *server, const UA_NodeId sourceId, const UA_NodeId refTypeId, const UA_ExpandedNodeId targetId, UA_Boolean isForward);
#endif

/* A server as the loader sees it: what open62541 would answer, and a record of what it was told. */
#ifndef VF_UA_BACKEND_H
#define VF_UA_BACKEND_H
#include "vf.h"
#include "sax.h"
#include <open62541/server.h>
#include <NodesetLoader/backendOpen62541.h>
#include <NodesetLoader/dataTypes.h>
struct UA_Server { UA_ServerConfig config; };
extern UA_Server vf_server;

struct VfAdd {                 /* one call that adds a node; everything is valid during vf_onAdd only */
    UA_NodeClass cls; const UA_NodeId *id, *parent, *refType, *typeDef; const UA_QualifiedName *bn;
    const void *attr; const UA_DataType *attrType; void *nodeContext; UA_StatusCode result; };
extern void (*vf_onAdd)(const struct VfAdd *a);
extern int (*vf_mayAdd)(const struct VfAdd *a);           /* 0: the server refuses this call for a reason of its own */

struct VfSrvNode { UA_NodeClass cls; UA_NodeId id, parent, refType, typeDef; int supertype; };
extern struct VfSrvNode vf_srvNodes[260]; extern int vf_nSrv;          /* nodes the server has (beyond namespace 0) */
struct VfSrvRef { UA_NodeId src, type, dst; UA_Boolean fwd; int nodes; };   /* nodes: how many nodes there were then */
extern struct VfSrvRef vf_srvRefs[300]; extern int vf_nSrvRefs;        /* addReference calls */
extern int vf_nAddCalls;
struct VfSubtype { unsigned short tns; unsigned tid; unsigned short pns; unsigned pid; UA_NodeClass cls; };
extern struct VfSubtype vf_subtypes[260]; extern int vf_nSubtypes;     /* type hierarchy the server had before */
extern int vf_srvNamespaces;
extern char vf_srvUri[16][40];
struct VfSrvLog { int n[4]; UA_LogLevel level; UA_LogCategory cat; void *ctx; char text[200]; };
extern struct VfSrvLog vf_srvLog;
extern UA_Logger vf_srvLogger;
int vf_srvFind(const UA_NodeId *id);                     /* index in vf_srvNodes or -1 */
int vf_srvHasRef(const UA_NodeId *src, const UA_NodeId *type, const UA_NodeId *dst, int fwd); /* how often */
void vf_srvRelease(void);                                /* frees what the model itself holds */
void vf_srvCleanTypes(void);                             /* what UA_ServerConfig_clear does with custom types */
bool vf_load(int doc);                                   /* NodesetLoader_loadFile of document doc */
#endif

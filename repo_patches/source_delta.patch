From 8c5d015351c077f0636669e64e24c76468c6b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 01/67] fix: arena size computations wrap around for huge
 requests

---
 src/CharAllocator.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/CharAllocator.c b/src/CharAllocator.c
index a378ca4..204d70a 100644
--- a/src/CharAllocator.c
+++ b/src/CharAllocator.c
@@ -6,6 +6,8 @@
  */
 
 #include "CharAllocator.h"
+#include <stdbool.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -55,6 +57,11 @@ CharArenaAllocator *CharArenaAllocator_new(size_t initialSize)
     }
     arena->initialSize = initialSize;
     arena->current = Region_new(arena->initialSize);
+    if(!arena->current)
+    {
+        free(arena);
+        return NULL;
+    }
     return arena;
 }
 
@@ -63,14 +70,20 @@ static size_t getRegionSize(size_t requested, size_t initialArenaSize)
     size_t regionSize = initialArenaSize;
     if (requested > initialArenaSize)
     {
-        regionSize = requested * 2;
+        // do not let the headroom wrap around
+        regionSize = requested > SIZE_MAX / 2 ? requested : requested * 2;
     }
     return regionSize;
 }
 
+static bool Region_fits(const struct Region *region, size_t size)
+{
+    return size <= region->capacity - region->size;
+}
+
 char *CharArenaAllocator_malloc(CharArenaAllocator *arena, size_t size)
 {
-    if ((arena->current->size + size) > arena->current->capacity)
+    if (!Region_fits(arena->current, size))
     {        
         struct Region *newRegion = Region_new(getRegionSize(size, arena->initialSize));
         if (!newRegion)
@@ -88,8 +101,14 @@ char *CharArenaAllocator_malloc(CharArenaAllocator *arena, size_t size)
 
 char *CharArenaAllocator_realloc(CharArenaAllocator *arena, size_t size)
 {
-    if ((arena->current->size + size) > arena->current->capacity)
+    if (!Region_fits(arena->current, size))
     {
+        if (size > SIZE_MAX - arena->current->userSize ||
+            size + arena->current->userSize >
+                SIZE_MAX - arena->current->userSize)
+        {
+            return NULL;
+        }
         // we also have to consider the size we have to transfer
         struct Region *newRegion =
             Region_new(getRegionSize(size + arena->current->userSize*2, arena->initialSize));
-- 
2.43.0


From e1270b2397add9cebf94f828986160abb79581e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 02/67] fix: a nodeset with more than 300 aliases crashes the
 parser

---
 src/AliasList.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/AliasList.c b/src/AliasList.c
index f187ad6..1f8cb20 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -9,12 +9,13 @@
 #include <stdlib.h>
 #include <string.h>
 
-#define MAX_ALIAS 300
+#define ALIAS_INCREMENT 300
 
 struct AliasList
 {
     Alias *data;
     size_t size;
+    size_t capacity;
 };
 
 AliasList *AliasList_new(void)
@@ -24,20 +25,28 @@ AliasList *AliasList_new(void)
     {
         return NULL;
     }
-    list->data = (Alias *)calloc(MAX_ALIAS, sizeof(Alias));
+    list->data = (Alias *)calloc(ALIAS_INCREMENT, sizeof(Alias));
     if(!list->data)
     {
         free(list);
         return NULL;
     }
+    list->capacity = ALIAS_INCREMENT;
     return list;
 }
 
 Alias *AliasList_newAlias(AliasList *list, char *name)
 {
-    if(list->size >= MAX_ALIAS)
+    if(list->size >= list->capacity)
     {
-        return NULL;
+        Alias *data = (Alias *)realloc(
+            list->data, (list->capacity + ALIAS_INCREMENT) * sizeof(Alias));
+        if(!data)
+        {
+            return NULL;
+        }
+        list->data = data;
+        list->capacity += ALIAS_INCREMENT;
     }
     list->data[list->size].name = name;
     UA_NodeId_init(&list->data[list->size].id);
-- 
2.43.0


From 84ebcb48d7e28a9e223706015417b00a8a3bed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 03/67] fix: an alias element without Alias attribute crashes
 every later lookup

---
 src/AliasList.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AliasList.c b/src/AliasList.c
index 1f8cb20..9759dd5 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -60,7 +60,7 @@ const UA_NodeId *
         return NULL;
 
     for(Alias* alias = list->data; alias != list->data + list->size; alias++) {
-        if (!strcmp(name, alias->name))
+        if (alias->name && !strcmp(name, alias->name))
             return &alias->id;
     }
     return NULL;
-- 
2.43.0


From d1770df4c49eebe7013750c47a77fcee959b1bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 04/67] fix: aliases of string NodeIds are freed once per use

---
 src/AliasList.c | 4 ++++
 src/Nodeset.c   | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/AliasList.c b/src/AliasList.c
index 9759dd5..04b971c 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -68,6 +68,10 @@ const UA_NodeId *
 
 void AliasList_delete(AliasList *list)
 {
+    for(size_t i = 0; i < list->size; i++)
+    {
+        UA_NodeId_clear(&list->data[i].id);
+    }
     free(list->data);
     free(list);
 }
diff --git a/src/Nodeset.c b/src/Nodeset.c
index a3b3c88..a1a270c 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -150,7 +150,10 @@ static UA_NodeId alias2Id(const Nodeset *nodeset, char *name)
     {
         return extractNodedId(nodeset->namespaces, name);
     }
-    return *alias;
+    // every user of the id frees it, hand out an own copy
+    UA_NodeId id = UA_NODEID_NULL;
+    UA_NodeId_copy(alias, &id);
+    return id;
 }
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
-- 
2.43.0


From 2ca60dd21faa3ad7a5c94bd18557915fd375ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 05/67] fix: HasEncoding reference on a node without BrowseName
 crashes

---
 src/Nodeset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index a1a270c..6832776 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -539,6 +539,7 @@ void Nodeset_newReferenceFinish(Nodeset *nodeset, NL_Reference *ref,
     // handle hasEncoding in a special way
     UA_NodeId hasEncodingRef = UA_NODEID("i=38");
     if (UA_NodeId_equal(&ref->refType, &hasEncodingRef) &&
+        node->browseName.name &&
         !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)
     {
         NL_BiDirectionalReference *newRef = (NL_BiDirectionalReference *)calloc(
-- 
2.43.0


From 19f14f06e592d42975bdb917702afd41b158e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 06/67] fix: new data type fields are left uninitialised

---
 src/nodes/DataTypeNode.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nodes/DataTypeNode.c b/src/nodes/DataTypeNode.c
index c2343e7..1d37482 100644
--- a/src/nodes/DataTypeNode.c
+++ b/src/nodes/DataTypeNode.c
@@ -7,6 +7,7 @@
 
 #include "DataTypeNode.h"
 #include <stdlib.h>
+#include <string.h>
 
 static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition)
 {
@@ -18,7 +19,10 @@ static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition
     {
         return NULL;
     }
-    return &definition->fields[definition->fieldCnt - 1];
+    NL_DataTypeDefinitionField *field =
+        &definition->fields[definition->fieldCnt - 1];
+    memset(field, 0, sizeof(NL_DataTypeDefinitionField));
+    return field;
 }
 
 NL_DataTypeDefinition* DataTypeDefinition_new(NL_DataTypeNode* node)
-- 
2.43.0


From 5f03d7983cb59a19e1d998bec15bd600a8a47718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 07/67] fix: Definition element on a node that is no data type
 corrupts memory

---
 src/NodesetLoader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 4e80577..b6e13be 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -220,7 +220,8 @@ static void OnStartElementNs(void *ctx, const char *localname,
         {
             pctx->state = PARSER_STATE_EXTENSIONS;
         }
-        else if (!strcmp(localname, "Definition"))
+        else if (!strcmp(localname, "Definition") &&
+                 pctx->nodeClass == NODECLASS_DATATYPE)
         {
             Nodeset_addDataTypeDefinition(pctx->nodeset, pctx->node, nb_attributes,
                                      attributes);
-- 
2.43.0


From 3626df1d7f51124951269c833395e27c209d733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 08/67] fix: strings of NodeIds owned by a node are leaked

---
 src/Nodeset.c            |  2 ++
 src/nodes/DataTypeNode.c |  7 +++++++
 src/nodes/Node.c         | 18 ++++++++++++++++--
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 6832776..1091dc6 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -441,6 +441,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
     newRef->refType = alias2Id(nodeset, aliasIdString);
 
     if (NODECLASS_VARIABLE == node->nodeClass &&
+        !((NL_VariableNode *)node)->refToTypeDef &&
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
@@ -449,6 +450,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
     }
 
     if (NODECLASS_OBJECT == node->nodeClass &&
+        !((NL_ObjectNode *)node)->refToTypeDef &&
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
diff --git a/src/nodes/DataTypeNode.c b/src/nodes/DataTypeNode.c
index 1d37482..e3cc1bb 100644
--- a/src/nodes/DataTypeNode.c
+++ b/src/nodes/DataTypeNode.c
@@ -27,6 +27,8 @@ static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition
 
 NL_DataTypeDefinition* DataTypeDefinition_new(NL_DataTypeNode* node)
 {
+    // a repeated definition replaces the previous one
+    DataTypeNode_clear(node);
     node->definition =
         (NL_DataTypeDefinition *)calloc(1, sizeof(NL_DataTypeDefinition));
     if (!node->definition)
@@ -45,7 +47,12 @@ void DataTypeNode_clear(NL_DataTypeNode *node)
 {
     if (node->definition)
     {
+        for (size_t i = 0; i < node->definition->fieldCnt; i++)
+        {
+            UA_NodeId_clear(&node->definition->fields[i].dataType);
+        }
         free(node->definition->fields);
     }
     free(node->definition);
+    node->definition = NULL;
 }
diff --git a/src/nodes/Node.c b/src/nodes/Node.c
index f494a80..410374d 100644
--- a/src/nodes/Node.c
+++ b/src/nodes/Node.c
@@ -64,6 +64,7 @@ void Node_delete(NL_Node *node)
     UA_NodeId_clear(&node->id);
     deleteRef(node->hierachicalRefs);
     deleteRef(node->nonHierachicalRefs);
+    deleteRef(node->unknownRefs);
     if (node->nodeClass == NODECLASS_DATATYPE)
     {
         DataTypeNode_clear((NL_DataTypeNode *)node);
@@ -71,8 +72,9 @@ void Node_delete(NL_Node *node)
     if(node->nodeClass == NODECLASS_VARIABLE)
     {
         NL_VariableNode* varNode = (NL_VariableNode*)node;
-        free(varNode->refToTypeDef);
+        deleteRef(varNode->refToTypeDef);
         UA_NodeId_clear(&varNode->parentNodeId);
+        UA_NodeId_clear(&varNode->datatype);
         if(varNode->value)
         {
             Value_delete(varNode->value);
@@ -82,7 +84,19 @@ void Node_delete(NL_Node *node)
     {
         NL_ObjectNode *objNode = (NL_ObjectNode *)node;
         UA_NodeId_clear(&objNode->parentNodeId);
-        free(objNode->refToTypeDef);
+        deleteRef(objNode->refToTypeDef);
+    }
+    if (node->nodeClass == NODECLASS_METHOD)
+    {
+        UA_NodeId_clear(&((NL_MethodNode *)node)->parentNodeId);
+    }
+    if (node->nodeClass == NODECLASS_VIEW)
+    {
+        UA_NodeId_clear(&((NL_ViewNode *)node)->parentNodeId);
+    }
+    if (node->nodeClass == NODECLASS_VARIABLETYPE)
+    {
+        UA_NodeId_clear(&((NL_VariableTypeNode *)node)->datatype);
     }
     free(node);
 }
-- 
2.43.0


From 3379087e12aa3d2a0df9b321b5507ca51b605eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 09/67] fix: nodes that are never emitted by the sorting are
 leaked

---
 src/Nodeset.c | 20 +++++++++++---------
 src/Nodeset.h |  1 +
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 1091dc6..7a1c8ea 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -168,14 +168,15 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     nodeset->aliasList = AliasList_new();
     nodeset->namespaces = NamespaceList_new(nsCallback);
     nodeset->charArena = CharArenaAllocator_new(1024 * 1024);
-    nodeset->nodes[NODECLASS_OBJECT] = NodeContainer_new(10000, true);
-    nodeset->nodes[NODECLASS_VARIABLE] = NodeContainer_new(10000, true);
-    nodeset->nodes[NODECLASS_METHOD] = NodeContainer_new(1000, true);
-    nodeset->nodes[NODECLASS_OBJECTTYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_DATATYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_REFERENCETYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_VARIABLETYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, true);
+    nodeset->nodes[NODECLASS_OBJECT] = NodeContainer_new(10000, false);
+    nodeset->nodes[NODECLASS_VARIABLE] = NodeContainer_new(10000, false);
+    nodeset->nodes[NODECLASS_METHOD] = NodeContainer_new(1000, false);
+    nodeset->nodes[NODECLASS_OBJECTTYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_DATATYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_REFERENCETYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_VARIABLETYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, false);
+    nodeset->allNodes = NodeContainer_new(10000, true);
     nodeset->nodesWithUnknownRefs = NodeContainer_new(100, false);
     nodeset->refTypesWithUnknownRefs = NodeContainer_new(100, false);
     nodeset->refService = refService;
@@ -277,6 +278,7 @@ void Nodeset_cleanup(Nodeset *nodeset)
     {
         NodeContainer_delete(nodeset->nodes[cnt]);
     }
+    NodeContainer_delete(nodeset->allNodes);
     NodeContainer_delete(nodeset->nodesWithUnknownRefs);
     NodeContainer_delete(nodeset->refTypesWithUnknownRefs);
     NamespaceList_delete(nodeset->namespaces);
@@ -499,6 +501,7 @@ void Nodeset_newNamespaceFinish(Nodeset *nodeset, void *userContext,
 
 void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
 {
+    NodeContainer_add(nodeset->allNodes, node);
     if (!node->unknownRefs)
     {
         if(!Sort_addNode(nodeset->sortCtx, node))
@@ -508,7 +511,6 @@ void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
                 nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                             "node was not added to sorting algorithm, already exists");
             }
-            Node_delete(node);
         }
         else
         {
diff --git a/src/Nodeset.h b/src/Nodeset.h
index bc67733..f42fbc9 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -30,6 +30,7 @@ struct Nodeset
     CharArenaAllocator *charArena;
     struct AliasList *aliasList;
     struct NodeContainer *nodes[NL_NODECLASS_COUNT];
+    struct NodeContainer *allNodes; // owns every parsed node, sorted or not
     struct NamespaceList *namespaces;
     struct SortContext *sortCtx;
     NL_BiDirectionalReference *hasEncodingRefs;
-- 
2.43.0


From 4a64ec30ba34f37a70494f8c7c15dc2517910ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 10/67] fix: surplus values and the node of a truncated
 document are leaked

---
 src/NodesetLoader.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index b6e13be..de44b2f 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -10,6 +10,7 @@
 #include "Nodeset.h"
 #include "Parser.h"
 #include "Value.h"
+#include "nodes/Node.h"
 #include <assert.h>
 #include <stdlib.h>
 #include <string.h>
@@ -346,6 +347,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         break;
     case PARSER_STATE_NODE:
         Nodeset_newNodeFinish(pctx->nodeset, pctx->node);
+        pctx->node = NULL;
         pctx->state = PARSER_STATE_INIT;
         break;
     case PARSER_STATE_DISPLAYNAME:
@@ -368,7 +370,15 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         {
             /* TODO: Enable VariableType to hold a valeu */
             if(pctx->node->nodeClass == NODECLASS_VARIABLE)
-                ((NL_VariableNode *)pctx->node)->value = pctx->val;
+            {
+                NL_VariableNode *varNode = (NL_VariableNode *)pctx->node;
+                if(varNode->value)
+                    Value_delete(varNode->value);
+                varNode->value = pctx->val;
+            }
+            else
+                Value_delete(pctx->val);
+            pctx->val = NULL;
             pctx->state = PARSER_STATE_NODE;
         }
         else
@@ -503,6 +513,15 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
         retStatus = false;
     }
     Parser_delete(parser);
+    // the document may end in the middle of an element
+    if (ctx->val)
+    {
+        Value_delete(ctx->val);
+    }
+    if (ctx->node)
+    {
+        Node_delete(ctx->node);
+    }
 
 cleanup:
     free(ctx);
-- 
2.43.0


From 700aecef125e4decfe02c9f370a7045fcdf8f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 11/67] fix: value elements in unexpected order crash or leak

---
 src/Value.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/Value.c b/src/Value.c
index c14153b..41c0fd4 100644
--- a/src/Value.c
+++ b/src/Value.c
@@ -25,6 +25,15 @@ static NL_Data *newData(const char *name, NL_DataType type)
     return newData;
 }
 
+static void Data_clear(NL_Data *data);
+
+static void setRootData(NL_Value *val, NL_Data *data)
+{
+    Data_clear(val->data);
+    val->data = data;
+    val->ctx->currentData = data;
+}
+
 static NL_Data *addNewMember(NL_Data *parent, const char *name)
 {
     parent->type = DATATYPE_COMPLEX;
@@ -52,8 +61,7 @@ void Value_start(NL_Value *val, const char *name)
         {
             val->ctx->state = PARSERSTATE_LISTOF;
             val->isArray = true;
-            val->data = newData(name, DATATYPE_COMPLEX);
-            val->ctx->currentData = val->data;
+            setRootData(val, newData(name, DATATYPE_COMPLEX));
         }
         else if (!strcmp(name, "ExtensionObject"))
         {
@@ -63,8 +71,7 @@ void Value_start(NL_Value *val, const char *name)
         else
         {
             val->type = name;
-            val->data = newData(name, DATATYPE_PRIMITIVE);
-            val->ctx->currentData = val->data;
+            setRootData(val, newData(name, DATATYPE_PRIMITIVE));
             val->ctx->state = PARSERSTATE_DATA;
         }
         break;
@@ -100,8 +107,7 @@ void Value_start(NL_Value *val, const char *name)
         val->ctx->state = PARSERSTATE_DATA;
         if (!val->ctx->currentData)
         {
-            val->data = newData(name, DATATYPE_COMPLEX);
-            val->ctx->currentData = val->data;
+            setRootData(val, newData(name, DATATYPE_COMPLEX));
         }
         else
         {
@@ -116,8 +122,7 @@ void Value_start(NL_Value *val, const char *name)
     case PARSERSTATE_DATA:
         if (!val->ctx->currentData)
         {
-            val->data = newData(name, DATATYPE_PRIMITIVE);
-            val->ctx->currentData = val->data;
+            setRootData(val, newData(name, DATATYPE_PRIMITIVE));
         }
         else
         {
@@ -197,7 +202,8 @@ void Value_end(NL_Value *val, const char *name, const char *value)
         }
         // listOfExtensionObject
         if (val->isExtensionObject && val->isArray &&
-            val->ctx->currentData->parent == NULL)
+            (val->ctx->currentData == NULL ||
+             val->ctx->currentData->parent == NULL))
         {
             val->ctx->state = PARSERSTATE_EXTENSIONOBJECT_BODY;
         }
@@ -211,7 +217,6 @@ void Value_end(NL_Value *val, const char *name, const char *value)
         break;
     }
 }
-static void Data_clear(NL_Data *data);
 
 static void PrimitiveData_clear(NL_Data *data)
 {
-- 
2.43.0


From adabd2f93240cef6fde69f1f2ea77737a1cd9d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 12/67] fix: an element named Extension inside an extension
 ends it early

---
 src/NodesetLoader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index de44b2f..c91c26a 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -282,6 +282,8 @@ static void OnStartElementNs(void *ctx, const char *localname,
         }
         break;
     case PARSER_STATE_EXTENSION:
+        // count nested elements, one of them may be named Extension as well
+        pctx->unknown_depth++;
         if (pctx->extIf)
         {
             pctx->extIf->start(pctx->extensionData, localname, nb_attributes, attributes);
@@ -388,7 +390,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         }
         break;
     case PARSER_STATE_EXTENSION:
-        if (!strcmp(localname, EXTENSION))
+        if (!strcmp(localname, EXTENSION) && pctx->unknown_depth == 0)
         {
             if (pctx->extIf)
             {
@@ -399,6 +401,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         }
         else
         {
+            pctx->unknown_depth--;
             if (pctx->extIf)
             {
                 pctx->extIf->end(pctx->extensionData, localname,
-- 
2.43.0


From 1e45032a736c500a32a3a209d5ce6ce9aee1c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 13/67] fix: hierarchical reference types overflow a list
 shared by all loaders

---
 src/InternalRefService.c | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index 45e2f2c..7d81a02 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -9,18 +9,21 @@
 #include "nodes/NodeContainer.h"
 #include "NodesetLoader/NodesetLoader.h"
 #include <stdlib.h>
+#include <string.h>
 
 struct InternalRefService
 {
     size_t hierachicalRefsSize;
+    size_t hierachicalRefsCapacity;
     NL_ReferenceTypeNode *hierachicalRefs;
     struct NodeContainer *nonHierachicalRefs;
 };
 
 typedef struct InternalRefService InternalRefService;
 
-#define MAX_HIERACHICAL_REFS 50
-NL_ReferenceTypeNode hierachicalRefs[MAX_HIERACHICAL_REFS] = {
+#define HIERACHICAL_REFS_INCREMENT 50
+#define NS0_HIERACHICAL_REFS 9
+static const NL_ReferenceTypeNode ns0HierachicalRefs[] = {
     {NODECLASS_REFERENCETYPE,
      {0, UA_NODEIDTYPE_NUMERIC, {35}},
      {0, "Organizes"},
@@ -164,6 +167,21 @@ isRefTypeDef(const InternalRefService* service, const NL_Reference* ref) {
     return UA_NodeId_equal(&ref->refType, &hasTypeDefId);
 }
 
+static bool
+reserveHierachicalRef(InternalRefService *service) {
+    if (service->hierachicalRefsSize < service->hierachicalRefsCapacity)
+        return true;
+    size_t capacity =
+        service->hierachicalRefsCapacity + HIERACHICAL_REFS_INCREMENT;
+    NL_ReferenceTypeNode *refs = (NL_ReferenceTypeNode *)realloc(
+        service->hierachicalRefs, capacity * sizeof(NL_ReferenceTypeNode));
+    if (!refs)
+        return false;
+    service->hierachicalRefs = refs;
+    service->hierachicalRefsCapacity = capacity;
+    return true;
+}
+
 static void
 addnewRefTypeImpl(InternalRefService *service, NL_ReferenceTypeNode *node) {
     NL_Reference *ref = node->hierachicalRefs;
@@ -172,6 +190,8 @@ addnewRefTypeImpl(InternalRefService *service, NL_ReferenceTypeNode *node) {
         if (!ref->isForward) {
             for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
                 if (UA_NodeId_equal(&service->hierachicalRefs[i].id, &ref->target)) {
+                    if (!reserveHierachicalRef(service))
+                        return;
                     service->hierachicalRefs[service->hierachicalRefsSize++] =
                         *(NL_ReferenceTypeNode *)node;
                     isHierachical = true;
@@ -194,13 +214,23 @@ NL_ReferenceService *InternalRefService_new(void)
     {
         return NULL;
     }
-    service->hierachicalRefs = hierachicalRefs;
-    service->hierachicalRefsSize = 9;
+    // every service needs an own list, reference types of one nodeset must not
+    // leak into another one
+    if(!reserveHierachicalRef(service))
+    {
+        free(service);
+        return NULL;
+    }
+    memcpy(service->hierachicalRefs, ns0HierachicalRefs,
+           sizeof(ns0HierachicalRefs));
+    service->hierachicalRefsSize = NS0_HIERACHICAL_REFS;
     service->nonHierachicalRefs = NodeContainer_new(100, false);
 
     NL_ReferenceService *refService = (NL_ReferenceService *)calloc(1, sizeof(NL_ReferenceService));
     if(!refService)
     {
+        NodeContainer_delete(service->nonHierachicalRefs);
+        free(service->hierachicalRefs);
         free(service);
         return NULL;
     }
@@ -220,6 +250,7 @@ void InternalRefService_delete(NL_ReferenceService *refService)
     InternalRefService *internalService =
         (InternalRefService *)refService->context;
     NodeContainer_delete(internalService->nonHierachicalRefs);
+    free(internalService->hierachicalRefs);
     free(internalService);
     free(refService);
 }
-- 
2.43.0


From 5c732cdc119d1c089b5e1e407a410c7595fae6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 14/67] fix: HasChild, HasOrderedComponent and
 HasHistoricalConfiguration are hierarchical

---
 src/InternalRefService.c | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index 7d81a02..7e40edf 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -22,7 +22,7 @@ struct InternalRefService
 typedef struct InternalRefService InternalRefService;
 
 #define HIERACHICAL_REFS_INCREMENT 50
-#define NS0_HIERACHICAL_REFS 9
+#define NS0_HIERACHICAL_REFS 12
 static const NL_ReferenceTypeNode ns0HierachicalRefs[] = {
     {NODECLASS_REFERENCETYPE,
      {0, UA_NODEIDTYPE_NUMERIC, {35}},
@@ -133,6 +133,42 @@ static const NL_ReferenceTypeNode ns0HierachicalRefs[] = {
      NULL,
      {NULL, NULL},
      NULL},
+    {NODECLASS_REFERENCETYPE,
+     {0, UA_NODEIDTYPE_NUMERIC, {34}},
+     {0, "HasChild"},
+     {NULL, NULL},
+     {NULL, NULL},
+     NULL,
+     NULL,
+     NULL,
+     NULL,
+     NULL,
+     {NULL, NULL},
+     NULL},
+    {NODECLASS_REFERENCETYPE,
+     {0, UA_NODEIDTYPE_NUMERIC, {49}},
+     {0, "HasOrderedComponent"},
+     {NULL, NULL},
+     {NULL, NULL},
+     NULL,
+     NULL,
+     NULL,
+     NULL,
+     NULL,
+     {NULL, NULL},
+     NULL},
+    {NODECLASS_REFERENCETYPE,
+     {0, UA_NODEIDTYPE_NUMERIC, {56}},
+     {0, "HasHistoricalConfiguration"},
+     {NULL, NULL},
+     {NULL, NULL},
+     NULL,
+     NULL,
+     NULL,
+     NULL,
+     NULL,
+     {NULL, NULL},
+     NULL},
 };
 
 static bool
-- 
2.43.0


From afd1bfe38722e22833f12ac59307b083364bd194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 15/67] fix: reference types with references of unknown type
 hang the sorting

---
 src/Nodeset.c | 60 +++++++++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 7a1c8ea..cc124b6 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -220,42 +220,15 @@ static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)
     return true;
 }
 
-static void lookupReferenceTypes(Nodeset *nodeset)
+static bool addNodesWithUnknownRefs(Nodeset *nodeset, NodeContainer *nodes)
 {
-    bool allRefTypesKnown = false;
-    while (!allRefTypesKnown)
+    for (size_t i = 0; i < nodes->size; i++)
     {
-        allRefTypesKnown = true;
-        for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
-        {
-            allRefTypesKnown = lookupUnknownReferences(
-                nodeset, nodeset->refTypesWithUnknownRefs->nodes[i]);
-        }
-    }
-
-    for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
-    {
-        Sort_addNode(nodeset->sortCtx,
-                     nodeset->refTypesWithUnknownRefs->nodes[i]);
-    }
-}
-
-bool Nodeset_sort(Nodeset *nodeset)
-{
-    // first we have to figure out, if there are reference types, for which we
-    // cannot state if they are hierachical or nonhierachical
-    lookupReferenceTypes(nodeset);
-    // all hierachical references of a node should be known at this point
-    // if there are nodes with unknown references, the import will be aborted
-    for (size_t i = 0; i < nodeset->nodesWithUnknownRefs->size; i++)
-    {
-        bool result = lookupUnknownReferences(
-            nodeset, nodeset->nodesWithUnknownRefs->nodes[i]);
-        if (!result)
+        NL_Node *node = nodes->nodes[i];
+        if (!lookupUnknownReferences(nodeset, node))
         {
             UA_String nodeIdStr = {0};
-            UA_NodeId_print(&nodeset->nodesWithUnknownRefs->nodes[i]->id,
-                            &nodeIdStr);
+            UA_NodeId_print(&node->id, &nodeIdStr);
             nodeset->logger->log(
                 nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                 "node with unresolved reference(s): NodeId(%.*s)",
@@ -263,7 +236,24 @@ bool Nodeset_sort(Nodeset *nodeset)
             UA_String_clear(&nodeIdStr);
             return false;
         }
-        Sort_addNode(nodeset->sortCtx, nodeset->nodesWithUnknownRefs->nodes[i]);
+        if (!Sort_addNode(nodeset->sortCtx, node))
+        {
+            nodeset->logger->log(
+                nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
+                "node was not added to sorting algorithm, already exists");
+        }
+    }
+    return true;
+}
+
+bool Nodeset_sort(Nodeset *nodeset)
+{
+    // all reference types are known at this point, if there are nodes with
+    // unknown references left, the import will be aborted
+    if (!addNodesWithUnknownRefs(nodeset, nodeset->refTypesWithUnknownRefs) ||
+        !addNodesWithUnknownRefs(nodeset, nodeset->nodesWithUnknownRefs))
+    {
+        return false;
     }
 
     return Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
@@ -525,6 +515,10 @@ void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
     {
         if (node->nodeClass == NODECLASS_REFERENCETYPE)
         {
+            // the references to the supertypes decide about the kind of the
+            // reference type, it can be announced with others still unknown
+            nodeset->refService->addNewReferenceType(
+                nodeset->refService->context, (NL_ReferenceTypeNode *)node);
             NodeContainer_add(nodeset->refTypesWithUnknownRefs, node);
         }
         else
-- 
2.43.0


From 22fed515b6a5cfb2876568b3b11418bc3d5d6570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 16/67] fix: a node with only a ParentNodeId may be sorted
 before its parent

---
 src/Sort.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Sort.c b/src/Sort.c
index 9ee81c3..aed99d4 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -342,6 +342,7 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
             newRef->refType = UA_NODEID_NUMERIC(0, NL_HASCOMPONENT_ID);
             newRef->next = data->hierachicalRefs;
             data->hierachicalRefs = newRef;
+            record_relation(k, j);
         }
     }
     return true;
-- 
2.43.0


From d0422f58c528079c731bb61c5f79898f7903a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 17/67] fix: truncated documents are reported as successfully
 parsed

---
 src/Parser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Parser.c b/src/Parser.c
index aa5bf27..2c88b8c 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -46,17 +46,23 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     xmlInitParser(); // Fix memory leak: https://gitlab.gnome.org/GNOME/libxml2/-/issues/9
     xmlParserCtxtPtr ctxt =
         xmlCreatePushParserCtxt(&hdl, parser->context, chars, res, NULL);
+    if (!ctxt)
+    {
+        return 1;
+    }
     while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
     {
         if (xmlParseChunk(ctxt, chars, res, 0))
         {
             xmlParserError(ctxt, "xmlParseChunk");
+            xmlFreeParserCtxt(ctxt);
             return 1;
         }
     }
-    xmlParseChunk(ctxt, chars, 0, 1);
+    // a document which is cut off is detected by terminating the parser
+    res = xmlParseChunk(ctxt, chars, 0, 1);
     xmlFreeParserCtxt(ctxt);
     xmlCleanupParser();
-    return 0;
+    return res ? 1 : 0;
 }
 void Parser_delete(Parser *parser) { free(parser); }
-- 
2.43.0


From 34a3f20ac97c6a1aee646a93f3640a5ddfdf34f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 18/67] fix: using a loader before anything was imported
 crashes

---
 src/NodesetLoader.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index c91c26a..c469575 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -537,6 +537,10 @@ cleanup:
 
 bool NodesetLoader_sort(NodesetLoader *loader)
 {
+    if (!loader->nodeset)
+    {
+        return false;
+    }
     return Nodeset_sort(loader->nodeset);
 }
 
@@ -571,7 +575,10 @@ NodesetLoader *NodesetLoader_new(NodesetLoader_Logger *logger,
 
 void NodesetLoader_delete(NodesetLoader *loader)
 {
-    Nodeset_cleanup(loader->nodeset);
+    if (loader->nodeset)
+    {
+        Nodeset_cleanup(loader->nodeset);
+    }
     if (loader->internalLogger)
     {
         free(loader->logger);
@@ -586,6 +593,10 @@ void NodesetLoader_delete(NodesetLoader *loader)
 const NL_BiDirectionalReference *
 NodesetLoader_getBidirectionalRefs(const NodesetLoader *loader)
 {
+    if (!loader->nodeset)
+    {
+        return NULL;
+    }
     return Nodeset_getBiDirectionalRefs(loader->nodeset);
 }
 
@@ -593,5 +604,9 @@ size_t NodesetLoader_forEachNode(NodesetLoader *loader, NL_NodeClass nodeClass,
                                void *context,
                                NodesetLoader_forEachNode_Func fn)
 {
+    if (!loader->nodeset)
+    {
+        return 0;
+    }
     return Nodeset_forEachNode(loader->nodeset, nodeClass, context, fn);
 }
-- 
2.43.0


From 8af1982cae6701516307356e4d406a984afa7cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 19/67] fix: default logger prints format strings without their
 arguments

---
 src/PrintfLogger.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PrintfLogger.c b/src/PrintfLogger.c
index 6acf9c3..a80528a 100644
--- a/src/PrintfLogger.c
+++ b/src/PrintfLogger.c
@@ -17,8 +17,10 @@ static void logStdOut(void *context, enum NodesetLoader_LogLevel level,
 {
     va_list vl;
     va_start(vl, message);
+    printf("NODESETLOADER: %s : ", logLevel[level]);
+    vprintf(message, vl);
+    printf("\n");
     va_end(vl);
-    printf("NODESETLOADER: %s : %s\n", logLevel[level], message);
 }
 
 NodesetLoader_Logger *InternalLogger_new(void)
-- 
2.43.0


From fda0621b257c0683b989a79931440c356c7e276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 20/67] fix: browse names containing a colon lose the text in
 front of it

---
 src/Nodeset.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index cc124b6..ef13b75 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -129,8 +129,9 @@ NL_BrowseName extractBrowseName(const NamespaceList *namespaces, char *s)
     bn.nsIdx = 0;
     bn.name = NULL;
     if (!s) return bn;
-    char *bnName = strchr(s, ':');
-    if (bnName == NULL)
+    // only digits in front of the first colon are a namespace index
+    char *bnName = s + strspn(s, "0123456789");
+    if (bnName == s || *bnName != ':')
     {
         bn.name = s;
         return bn;
-- 
2.43.0


From 7c69b5fefab977eda0076bfad66f1e9b411a0ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 21/67] fix: namespace indices of a second file are translated
 with those of the first

---
 src/Nodeset.c       | 23 +++++++++++++++++++++++
 src/Nodeset.h       |  2 ++
 src/NodesetLoader.c |  4 ++++
 3 files changed, 29 insertions(+)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index ef13b75..4a89c20 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -186,6 +186,29 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     return nodeset;
 }
 
+bool Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback)
+{
+    struct AliasList *aliasList = AliasList_new();
+    struct NamespaceList *namespaces = NamespaceList_new(nsCallback);
+    if (!aliasList || !namespaces)
+    {
+        if (aliasList)
+        {
+            AliasList_delete(aliasList);
+        }
+        if (namespaces)
+        {
+            NamespaceList_delete(namespaces);
+        }
+        return false;
+    }
+    AliasList_delete(nodeset->aliasList);
+    nodeset->aliasList = aliasList;
+    NamespaceList_delete(nodeset->namespaces);
+    nodeset->namespaces = namespaces;
+    return true;
+}
+
 static void Nodeset_addNode(Nodeset *nodeset, NL_Node *node)
 {
     NodeContainer_add(nodeset->nodes[node->nodeClass], node);
diff --git a/src/Nodeset.h b/src/Nodeset.h
index f42fbc9..1d3bd9f 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -41,6 +41,8 @@ struct Nodeset
 };
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback, NodesetLoader_Logger* logger, NL_ReferenceService* refService);
+// namespace indices and aliases are only valid within one file
+bool Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback);
 void Nodeset_cleanup(Nodeset *nodeset);
 bool Nodeset_sort(Nodeset *nodeset);
 NL_Node *Nodeset_newNode(Nodeset *nodeset, NL_NodeClass nodeClass,
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index c469575..576a1b8 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -480,6 +480,10 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
         loader->nodeset = Nodeset_new(fileHandler->addNamespace, loader->logger,
                                       loader->refService);
     }
+    else if (!Nodeset_startFile(loader->nodeset, fileHandler->addNamespace))
+    {
+        return false;
+    }
 
     TParserCtx *ctx = NULL;
     FILE *f = fopen(fileHandler->file, "r");
-- 
2.43.0


From c0b9bbd42aa0fe8874b1454ffa5aa67fc74e767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 22/67] fix: ParentNodeId contradicting the parent's own
 reference hides a cycle

---
 src/Sort.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Sort.c b/src/Sort.c
index aed99d4..15eeb0f 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -319,10 +319,10 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
         if (k->data) {
             NL_Reference *r = k->data->hierachicalRefs;
             while (r) {
-                if (UA_NodeId_equal(&r->target, &data->id)) 
+                if (r->isForward && UA_NodeId_equal(&r->target, &data->id))
                 {
                     NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-                    newRef->isForward = !r->isForward;
+                    newRef->isForward = false;
                     UA_NodeId_copy(&k->data->id, &newRef->target);
                     UA_NodeId_copy(&r->refType, &newRef->refType);
                     newRef->next = data->hierachicalRefs;
-- 
2.43.0


From 082714da28a3a278df1226bca7a9f268af6efa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 23/67] fix: sorting again or importing after sorting crashes

---
 src/Nodeset.c |  1 +
 src/Sort.c    | 22 +++++++++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 4a89c20..c0c31a4 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -267,6 +267,7 @@ static bool addNodesWithUnknownRefs(Nodeset *nodeset, NodeContainer *nodes)
                 "node was not added to sorting algorithm, already exists");
         }
     }
+    nodes->size = 0;
     return true;
 }
 
diff --git a/src/Sort.c b/src/Sort.c
index 15eeb0f..9bc5124 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -33,6 +33,7 @@ struct S_Node
     struct S_Edge *edges;
     size_t edgeCount;
     NL_Node *data;
+    bool emitted;
 };
 
 typedef struct S_Node S_Node;
@@ -182,6 +183,10 @@ record_relation(S_Node *from, S_Node *to) {
     if(UA_NodeId_equal(from->id, to->id))
         return;
 
+    // passed on by a previous sort already, nothing can be ordered anymore
+    if(from->emitted || to->emitted)
+        return;
+
     struct S_Edge *e = (S_Edge *)calloc(1, sizeof(S_Edge));
     if(!e)
         return;
@@ -192,15 +197,16 @@ record_relation(S_Node *from, S_Node *to) {
     from->edges = e;
 }
 
-static bool count_items(SortContext *ctx, S_Node *unused)
+static bool count_items(SortContext *ctx, S_Node *k)
 {
-    ctx->keyCnt++;
+    if (!k->emitted)
+        ctx->keyCnt++;
     return false;
 }
 
 static bool scan_zeros(SortContext *ctx, S_Node *k)
 {
-    if (k->edgeCount == 0 && k->id)
+    if (k->edgeCount == 0 && !k->emitted)
     {
         if (ctx->head == NULL)
             ctx->head = k;
@@ -351,6 +357,7 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
 bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 Sort_SortedNodeCallback callback, NodesetLoader_Logger *logger)
 {
+    ctx->keyCnt = 0;
     walk_tree(ctx, ctx->root1, count_items);
 
     while (ctx->keyCnt > 0)
@@ -366,7 +373,8 @@ bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 callback(nodeset, ctx->head->data);
             }
 
-            ctx->head->id = NULL;
+            // a node that is only known as a target may be added later on
+            ctx->head->emitted = ctx->head->data != NULL;
             ctx->keyCnt--;
 
             while (e)
@@ -379,7 +387,11 @@ bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 }
                 e = e->next;
             }
-            ctx->head = ctx->head->qlink;
+            S_Node *done = ctx->head;
+            ctx->head = done->qlink;
+            cleanupEdges(done->edges);
+            done->edges = NULL;
+            done->qlink = NULL;
         }
         if (ctx->keyCnt > 0)
         {
-- 
2.43.0


From d1c146c6c3c366ffae8e473a0387de7b13bd35ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 24/67] fix: booleans written as "1" are taken for false

---
 src/Nodeset.c | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index c0c31a4..25c45e0 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -332,6 +332,12 @@ static char *getAttributeValue(Nodeset *nodeset, const NodeAttribute *attr,
     return attr->defaultValue;
 }
 
+// xs:boolean
+static bool isTrue(const char *value)
+{
+    return value && (!strcmp("true", value) || !strcmp("1", value));
+}
+
 static void extractAttributes(Nodeset *nodeset, const NamespaceList *namespaces,
                               NL_Node *node, int attributeSize,
                               const char **attributes)
@@ -443,15 +449,8 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
                                    int attributeSize, const char **attributes)
 {
     NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-    if (!strcmp("true", getAttributeValue(nodeset, &attrIsForward, attributes,
-                                          attributeSize)))
-    {
-        newRef->isForward = true;
-    }
-    else
-    {
-        newRef->isForward = false;
-    }
+    newRef->isForward = isTrue(
+        getAttributeValue(nodeset, &attrIsForward, attributes, attributeSize));
     char *aliasIdString = getAttributeValue(nodeset, &attrReferenceType,
                                             attributes, attributeSize);
 
@@ -583,11 +582,11 @@ void Nodeset_addDataTypeDefinition(Nodeset *nodeset, NL_Node *node,
     NL_DataTypeNode *dataTypeNode = (NL_DataTypeNode *)node;
     NL_DataTypeDefinition *def = DataTypeDefinition_new(dataTypeNode);
     def->isUnion =
-        !strcmp("true", getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
-                                          attributes, attributeSize));
-    def->isOptionSet = !strcmp(
-        "true", getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
-                                  attributes, attributeSize));
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
+                                 attributes, attributeSize));
+    def->isOptionSet =
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
+                                 attributes, attributeSize));
 }
 
 void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
@@ -619,9 +618,9 @@ void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
                                        attributes, attributeSize));
         newField->valueRank = atoi(getAttributeValue(
             nodeset, &attrValueRank, attributes, attributeSize));
-        char *isOptional = getAttributeValue(nodeset, &dataTypeField_IsOptional,
-                                             attributes, attributeSize);
-        newField->isOptional = !strcmp("true", isOptional);
+        newField->isOptional =
+            isTrue(getAttributeValue(nodeset, &dataTypeField_IsOptional,
+                                     attributes, attributeSize));
     }
 }
 
-- 
2.43.0


From a7ee2be65ccbe69234ba0fcc0993bb1c729496d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:09 +0000
Subject: [PATCH 25/67] fix: 64 bit and large unsigned values are truncated to
 int

---
 backends/open62541/src/Value.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 59bd496..3e5d112 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -57,17 +57,17 @@ static void setInt32(uintptr_t adr, const char *value)
 
 static void setUInt32(uintptr_t adr, const char *value)
 {
-    *(UA_UInt32 *)adr = (UA_UInt32)atoi(value);
+    *(UA_UInt32 *)adr = (UA_UInt32)strtoul(value, NULL, 10);
 }
 
 static void setInt64(uintptr_t adr, const char *value)
 {
-    *(UA_Int64 *)adr = atoi(value);
+    *(UA_Int64 *)adr = strtoll(value, NULL, 10);
 }
 
 static void setUInt64(uintptr_t adr, const char *value)
 {
-    *(UA_UInt64 *)adr = (UA_UInt64)atoi(value);
+    *(UA_UInt64 *)adr = strtoull(value, NULL, 10);
 }
 
 static void setFloat(uintptr_t adr, const char *value)
-- 
2.43.0


From c97900b79261f61f139a0ca95237fc0aac0478cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 26/67] fix: values whose elements do not have the expected
 children crash the import

---
 backends/open62541/src/Value.c | 83 ++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 33 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 3e5d112..d849d50 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -143,10 +143,25 @@ static void setPrimitiveValue(RawData *data, const char *value,
     data->offset = data->offset + memSize;
 }
 
+// text of an element; an element with children has none
+static const char *getText(const NL_Data *value)
+{
+    return value && value->type == DATATYPE_PRIMITIVE
+               ? value->val.primitiveData.value
+               : NULL;
+}
+
+static size_t getMembersSize(const NL_Data *value)
+{
+    return value && value->type == DATATYPE_COMPLEX
+               ? value->val.complexData.membersSize
+               : 0;
+}
+
 static NL_Data *lookupMember(const NL_Data *value, const char *name)
 {
     // is there a better way?
-    for (size_t cnt = 0; cnt < value->val.complexData.membersSize; cnt++)
+    for (size_t cnt = 0; cnt < getMembersSize(value); cnt++)
     {
         if (!strcmp(value->val.complexData.members[cnt]->name, name))
         {
@@ -159,8 +174,11 @@ static NL_Data *lookupMember(const NL_Data *value, const char *name)
 static void setDateTime(const NL_Data *value, RawData *data)
 {
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    UA_DateTime time = UA_DateTime_fromString(value->val.primitiveData.value);
-    *(UA_DateTime*)adr = time;
+    const char *text = getText(value);
+    if (text)
+    {
+        *(UA_DateTime*)adr = UA_DateTime_fromString(text);
+    }
     data->offset = data->offset + sizeof(UA_DateTime);
 }
 
@@ -170,8 +188,7 @@ static void setQualifiedName(const NL_Data *value, RawData *data, const ServerCo
 
     setScalarValueWithAddress(
         (uintptr_t)&((UA_QualifiedName*)adr)->namespaceIndex,
-        UA_DATATYPEKIND_UINT16,
-        value->val.complexData.members[0]->val.primitiveData.value);
+        UA_DATATYPEKIND_UINT16, getText(lookupMember(value, "NamespaceIndex")));
     
     // Translate namespace index
     ((UA_QualifiedName*)adr)->namespaceIndex = 
@@ -179,8 +196,7 @@ static void setQualifiedName(const NL_Data *value, RawData *data, const ServerCo
 
     setScalarValueWithAddress(
         (uintptr_t)&((UA_QualifiedName*)adr)->name,
-        UA_DATATYPEKIND_STRING,
-        value->val.complexData.members[1]->val.primitiveData.value);
+        UA_DATATYPEKIND_STRING, getText(lookupMember(value, "Name")));
 
     data->offset += sizeof(UA_QualifiedName);
 }
@@ -194,7 +210,7 @@ static void setLocalizedText(const NL_Data *value, RawData *data)
         setScalarValueWithAddress(data->offset + (uintptr_t) &
                                       ((UA_LocalizedText *)data->mem)->locale,
                                   UA_DATATYPEKIND_STRING,
-                                  localeData->val.primitiveData.value);
+                                  getText(localeData));
     }
 
     NL_Data *textData = lookupMember(value, "Text");
@@ -203,17 +219,15 @@ static void setLocalizedText(const NL_Data *value, RawData *data)
     {
         setScalarValueWithAddress(
             data->offset + (uintptr_t) & ((UA_LocalizedText *)data->mem)->text,
-            UA_DATATYPEKIND_STRING, textData->val.primitiveData.value);
+            UA_DATATYPEKIND_STRING, getText(textData));
     }
     data->offset += sizeof(UA_LocalizedText);
 }
 
 static void setNodeId(const NL_Data *value, RawData *data, const ServerContext *serverContext)
 {
-    assert(value->val.complexData.membersSize == 1);
     *(UA_NodeId *)((uintptr_t)data->mem + data->offset) =
-        extractNodeId((char *)(uintptr_t)value->val.complexData.members[0]
-                          ->val.primitiveData.value);
+        extractNodeId((char *)(uintptr_t)getText(lookupMember(value, "Identifier")));
 
     // Translate namespace index
     (*(UA_NodeId *)((uintptr_t)data->mem + data->offset)).namespaceIndex =
@@ -228,9 +242,10 @@ static void setByteString(const NL_Data* value, RawData*data)
     int len = 0;
     unsigned char *val = NULL;
 
-    if (value->val.primitiveData.value)
+    const char *text = getText(value);
+    if (text)
     {
-        val = unbase64(value->val.primitiveData.value, (int)strlen(value->val.primitiveData.value), &len);
+        val = unbase64(text, (int)strlen(text), &len);
     }
 
     s->length = (size_t)len;
@@ -240,7 +255,11 @@ static void setByteString(const NL_Data* value, RawData*data)
 static void setGuid(const NL_Data* value, RawData*data)
 {
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    *(UA_Guid*)adr = UA_GUID((const char *)(value->val.complexData.members[0]->val.primitiveData.value));
+    const char *text = getText(lookupMember(value, "String"));
+    if (text)
+    {
+        *(UA_Guid*)adr = UA_GUID(text);
+    }
     data->offset = data->offset + sizeof(UA_Guid);
 }
 
@@ -251,6 +270,10 @@ static void setArray(const NL_Data *value, const UA_DataType *type, RawData *dat
 
 static const char* getEnumValuePos(const char *string)
 {
+    if (!string)
+    {
+        return NULL;
+    }
     // Enum value is either on <symbol>_<value> or <value> format
     char *enumSepPos = strchr(string, '_');
     if (enumSepPos)
@@ -264,7 +287,6 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
                          RawData *data, const UA_DataType *customTypes,
                          const ServerContext *serverContext)
 {
-    assert(value->type == DATATYPE_COMPLEX);
     // there can be less members specified then the type requires
     for (const UA_DataTypeMember *m = type->members;
          m != type->members + type->membersSize; m++)
@@ -281,11 +303,11 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
         if (m->isArray)
         {
             RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
-                                  memberType->memSize);
+            rawdata->mem =
+                calloc(getMembersSize(memberData), memberType->memSize);
             setArray(memberData, memberType, rawdata, customTypes, serverContext);
             size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
+            *size = getMembersSize(memberData);
             data->offset += sizeof(size_t);
             void **d = (void **)((uintptr_t)data->mem + data->offset);
             *d = rawdata->mem;
@@ -338,11 +360,11 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
         if (type->members[switchField - 1].isArray)
         {
             RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
-                                    memberType->memSize);
+            rawdata->mem =
+                calloc(getMembersSize(memberData), memberType->memSize);
             setArray(memberData, memberType, rawdata, customTypes, serverContext);
             size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
+            *size = getMembersSize(memberData);
             data->offset += sizeof(size_t);
             void **d = (void **)((uintptr_t)data->mem + data->offset);
             *d = rawdata->mem;
@@ -360,14 +382,9 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
 static void setStatusCode(const NL_Data *value, RawData *data)
 {
     // StatusCode is a complex type with a primitive
-    assert(value->type == DATATYPE_COMPLEX);
-    if (value->val.complexData.membersSize == 1)
-    {
-        NL_Data *code = value->val.complexData.members[0];
-        setPrimitiveValue(
-            data, code->val.primitiveData.value, UA_DATATYPEKIND_UINT32,
-            UA_TYPES[UA_TYPES_UINT32].memSize);
-    }
+    setPrimitiveValue(data, getText(lookupMember(value, "Code")),
+                      UA_DATATYPEKIND_UINT32,
+                      UA_TYPES[UA_TYPES_UINT32].memSize);
 }
 
 static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *data,
@@ -375,7 +392,7 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
 {
     if (type->typeKind < CONVERSION_TABLE_SIZE)
     {
-        setPrimitiveValue(data, value->val.primitiveData.value,
+        setPrimitiveValue(data, getText(value),
                           (UA_DataTypeKind)type->typeKind, type->memSize);
     }
     else if(type->typeKind == UA_DATATYPEKIND_BYTESTRING)
@@ -400,7 +417,7 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
     }
     else if (type->typeKind == UA_DATATYPEKIND_ENUM)
     {
-        setPrimitiveValue(data, getEnumValuePos(value->val.primitiveData.value),
+        setPrimitiveValue(data, getEnumValuePos(getText(value)),
                           UA_DATATYPEKIND_INT32,
                           UA_TYPES[UA_TYPES_INT32].memSize);
     }
@@ -429,7 +446,7 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
 static void setArray(const NL_Data *value, const UA_DataType *type, RawData *data,
                      const UA_DataType *customTypes, const ServerContext *serverContext)
 {
-    for (size_t i = 0; i < value->val.complexData.membersSize; i++)
+    for (size_t i = 0; i < getMembersSize(value); i++)
     {
         data->offset = i * type->memSize;
         setScalar(value->val.complexData.members[i], type, data, customTypes, serverContext);
-- 
2.43.0


From eae3e328f5b539b11074ff5f1397ca5dd0c068a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 27/67] fix: enumeration values whose symbol contains an
 underscore are read as 0

---
 backends/open62541/src/Value.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index d849d50..e29c258 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -275,7 +275,8 @@ static const char* getEnumValuePos(const char *string)
         return NULL;
     }
     // Enum value is either on <symbol>_<value> or <value> format
-    char *enumSepPos = strchr(string, '_');
+    // and the symbol may contain underscores itself
+    const char *enumSepPos = strrchr(string, '_');
     if (enumSepPos)
     {
         return ++enumSepPos;
-- 
2.43.0


From 435b1d8b344856c045190de71fd1f8ca9a5279b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 28/67] fix: members that follow an absent one in a structure
 value are dropped

---
 backends/open62541/src/Value.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index e29c258..ddb02c1 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -298,8 +298,9 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
         NL_Data *memberData = lookupMember(value, m->memberName);
         if (!memberData)
         {
-            data->offset += memberType->memSize;
-            return;
+            data->offset += m->isArray ? sizeof(size_t) + sizeof(void *)
+                                       : memberType->memSize;
+            continue;
         }
         if (m->isArray)
         {
-- 
2.43.0


From 8d0de14c326260b904e283caa19a3a19d28c04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 29/67] fix: fractions of a second in DateTime values are
 dropped

---
 backends/open62541/src/conversion.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index 4bc697d..28f85be 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -62,8 +62,24 @@ static inline UA_DateTime UA_DateTime_fromString(const char *dateString)
 {
     UA_DateTimeStruct dt;
     memset(&dt, 0, sizeof(UA_DateTimeStruct));
-    sscanf(dateString, "%hi-%hu-%huT%hu:%hu:%huZ",
-           &dt.year, &dt.month, &dt.day, &dt.hour, &dt.min, &dt.sec);
+    int length = 0;
+    sscanf(dateString, "%hd-%hu-%huT%hu:%hu:%hu%n",
+           &dt.year, &dt.month, &dt.day, &dt.hour, &dt.min, &dt.sec, &length);
+    // fraction of the second
+    if (length > 0 && dateString[length] == '.')
+    {
+        unsigned int nanoSec = 0;
+        unsigned int scale = 100000000;
+        for (const char *c = dateString + length + 1; *c >= '0' && *c <= '9';
+             c++)
+        {
+            nanoSec += (unsigned int)(*c - '0') * scale;
+            scale /= 10;
+        }
+        dt.milliSec = (UA_UInt16)(nanoSec / 1000000);
+        dt.microSec = (UA_UInt16)(nanoSec / 1000 % 1000);
+        dt.nanoSec = (UA_UInt16)(nanoSec % 1000);
+    }
     UA_DateTime dateTime = UA_DateTime_fromStruct(dt);
     return dateTime;
 }
-- 
2.43.0


From 031f239751eb6ddbcf71f575ff01ae0b04c33354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 30/67] fix: values of structures with optional fields abort
 the import

---
 backends/open62541/src/Value.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index ddb02c1..102be6b 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -299,7 +299,8 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
         if (!memberData)
         {
             data->offset += m->isArray ? sizeof(size_t) + sizeof(void *)
-                                       : memberType->memSize;
+                            : m->isOptional ? sizeof(void *)
+                                            : memberType->memSize;
             continue;
         }
         if (m->isArray)
@@ -315,6 +316,15 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
             *d = rawdata->mem;
             data->offset += sizeof(void *);
         }
+        else if (m->isOptional)
+        {
+            // optional members are pointers, NULL when absent
+            RawData *rawdata = RawData_new(data);
+            rawdata->mem = calloc(1, memberType->memSize);
+            setScalar(memberData, memberType, rawdata, customTypes, serverContext);
+            *(void **)((uintptr_t)data->mem + data->offset) = rawdata->mem;
+            data->offset += sizeof(void *);
+        }
         else
         {
             size_t structOffset = data->offset + memberType->memSize;
@@ -423,7 +433,8 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
                           UA_DATATYPEKIND_INT32,
                           UA_TYPES[UA_TYPES_INT32].memSize);
     }
-    else if (type->typeKind == UA_DATATYPEKIND_STRUCTURE)
+    else if (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
+             type->typeKind == UA_DATATYPEKIND_OPTSTRUCT)
     {
         setStructure(value, type, data, customTypes, serverContext);
     }
-- 
2.43.0


From 00777a44ff66225838b0f56c93098fcf36b1a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 31/67] fix: union values with a wrong or missing switch field
 access memory out of bounds

---
 backends/open62541/src/Value.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 102be6b..924330d 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -354,22 +354,24 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
     // Remember the initial offset of the complete union
     const size_t unionOffset = data->offset;
     // Extract the switchField value
-    const UA_UInt32 switchField = (UA_UInt32)atoi(value->val.complexData.members[0]->val.primitiveData.value);
-    // Write out the switchField value
-    *(UA_UInt32 *)((uintptr_t)data->mem + data->offset) = switchField;
-    // Insert the field padding
+    const char *text = getText(lookupMember(value, "SwitchField"));
+    const UA_UInt32 switchField = text ? (UA_UInt32)atoi(text) : 0;
 
     // If the switch field is 0 then no field is present.
     // A Union with no fields present has the same meaning as a NULL value.
     // See: https://reference.opcfoundation.org/v104/Core/docs/Part6/5.2.8/
-    if (switchField != 0) {
-        data->offset += type->members[switchField - 1].padding;
+    if (switchField != 0 && switchField <= type->membersSize) {
+        const UA_DataTypeMember *member = &type->members[switchField - 1];
+        // Write out the switchField value
+        *(UA_UInt32 *)((uintptr_t)data->mem + data->offset) = switchField;
+        // Insert the field padding
+        data->offset += member->padding;
         // For convenience setup direct pointers to data and type
-        NL_Data *memberData = value->val.complexData.members[1];
-        const UA_DataType* memberType = type->members[switchField - 1].memberType;
+        NL_Data *memberData = lookupMember(value, member->memberName);
+        const UA_DataType* memberType = member->memberType;
 
         // Write out the field value
-        if (type->members[switchField - 1].isArray)
+        if (member->isArray)
         {
             RawData *rawdata = RawData_new(data);
             rawdata->mem =
@@ -382,13 +384,13 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
             *d = rawdata->mem;
             data->offset += sizeof(void *);
         }
-        else
+        else if (memberData)
         {
             setScalar(memberData, memberType, data, customTypes, serverContext);
         }
-        // Overwrite the offset using the size of the complete union, which includes also "end padding" of a C structure.
-        data->offset = unionOffset + type->memSize;
     }
+    // Overwrite the offset using the size of the complete union, which includes also "end padding" of a C structure.
+    data->offset = unionOffset + type->memSize;
 }
 
 static void setStatusCode(const NL_Data *value, RawData *data)
-- 
2.43.0


From df522f74755484cc3cbb6a6c97b3e13a17f2d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 32/67] fix: incomplete base64 text is decoded to uninitialised
 bytes

---
 backends/open62541/src/nodeset_base64.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/nodeset_base64.h b/backends/open62541/src/nodeset_base64.h
index 8af13a6..21edb4e 100644
--- a/backends/open62541/src/nodeset_base64.h
+++ b/backends/open62541/src/nodeset_base64.h
@@ -136,7 +136,7 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     for (charNo = 0; charNo < len; charNo++)
     {
         // remove all space characters e.g. LF, CR, space and tab
-        if (!isspace(ascii[charNo]))
+        if (!isspace((unsigned char)ascii[charNo]))
         {
             if (((ascii[charNo] >= '0') &&
                  (ascii[charNo] <= '9')) ||
@@ -176,6 +176,21 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     if (safeAsciiPtr[len - 2] == '=')
         ++pad;
 
+    // complete groups of four, padding only at the very end
+    int padPos = 0;
+    while (padPos < len && safeAsciiPtr[padPos] != '=')
+    {
+        padPos++;
+    }
+    if (len % 4 != 0 || padPos != len - pad)
+    {
+        puts("ERROR: You passed an invalid base64 string (wrong padding). You "
+             "get NULL back.");
+        *flen = 0;
+        free(safeAsciiPtr);
+        return 0;
+    }
+
     *flen = 3 * len / 4 - pad;
     bin = (unsigned char *)malloc((size_t)*flen);
     if (!bin)
-- 
2.43.0


From 0353f246417caf9f93d49fd92f7fab98a17ca362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:38 +0000
Subject: [PATCH 33/67] fix: a value of a type without conversion aborts the
 import

---
 backends/open62541/src/Value.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 924330d..881eafc 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -13,8 +13,6 @@
 #include "nodeset_base64.h"
 #include "ServerContext.h"
 
-#include <assert.h>
-
 typedef struct TypeList TypeList;
 struct TypeList
 {
@@ -452,10 +450,7 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
     {
         setStatusCode(value, data);
     }
-    else
-    {
-        assert(false && "conversion not implemented");
-    }
+    // no conversion for the other types, their values stay null
 }
 
 static void setArray(const NL_Data *value, const UA_DataType *type, RawData *data,
-- 
2.43.0


From 458f0fb98cc7b37872c74a5704259dd5b49459cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:38 +0000
Subject: [PATCH 34/67] fix: booleans written as "1" arrive as false at the
 server

---
 backends/open62541/src/conversion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index 28f85be..fe0be8d 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -33,7 +33,7 @@ static inline UA_Boolean isValTrue(const char *s)
     {
         return UA_FALSE;
     }
-    if (strcmp(s, "true"))
+    if (strcmp(s, "true") && strcmp(s, "1"))
     {
         return UA_FALSE;
     }
-- 
2.43.0


From 8e0d1455781b3500f4d0fb0f9e642f1032fe7ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 35/67] fix: members of an abstract type written as "1" are not
 mapped to Variant

---
 backends/open62541/src/DataTypeImporter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 85e73eb..c864e5c 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -60,7 +60,7 @@ static const UA_DataType *getDataType(const UA_NodeId *id,
         {
             if (UA_NodeId_equal(&importer->nodes[i]->id, &type->typeId))
             {
-                if (strcmp(importer->nodes[i]->isAbstract, "true") == 0)
+                if (isValTrue(importer->nodes[i]->isAbstract))
                 {
                     return &UA_TYPES[UA_TYPES_VARIANT];
                 }
-- 
2.43.0


From 02594eb8b3f0b589d35de11ea82e6db3c6aca870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 36/67] fix: subtypes of Number, Integer, UInteger or of an
 unknown type abort the import

---
 backends/open62541/src/DataTypeImporter.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index c864e5c..330f04e 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -528,8 +528,11 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
                                const UA_NodeId parent)
 {
     const UA_DataType *parentType = UA_findDataType(&parent);
-
-    assert(parentType);
+    if (!parentType)
+    {
+        // abstract (e.g. Number) or unknown, any value is possible
+        parentType = &UA_TYPES[UA_TYPES_VARIANT];
+    }
 
     type->typeId = node->id;
     type->binaryEncodingId = parentType->binaryEncodingId;
-- 
2.43.0


From d0f4fb72533f035372d59867276019cc61e49b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 37/67] fix: structure members of type DataValue or of an empty
 structure abort the import

---
 backends/open62541/src/DataTypeImporter.c | 36 +++++++++++++++--------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 330f04e..87dadd8 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -182,6 +182,11 @@ typedef struct
     UA_Variant member;
 } TempVariant;
 typedef struct
+{
+    char c;
+    UA_DataValue member;
+} TempDataValue;
+typedef struct
 {
     char c;
     UA_ExtensionObject member;
@@ -192,6 +197,17 @@ typedef struct
     UA_Guid member;
 } TempGuid;
 
+typedef struct
+{
+    char c;
+    size_t member;
+} TempSizeT;
+typedef struct
+{
+    char c;
+    void *member;
+} TempVoidPtr;
+
 static int getAlignment(const UA_DataType *type,
                         const UA_DataTypeArray *customTypes)
 {
@@ -245,14 +261,19 @@ static int getAlignment(const UA_DataType *type,
         return offsetof(TempInt32, member);
     case UA_DATATYPEKIND_EXTENSIONOBJECT:
         return offsetof(TempExtensionObject, member);
+    case UA_DATATYPEKIND_DATAVALUE:
+        return offsetof(TempDataValue, member);
     case UA_DATATYPEKIND_UNION:
         return 0;
     case UA_DATATYPEKIND_GUID:
         return offsetof(TempGuid, member);
     case UA_DATATYPEKIND_STRUCTURE:
     case UA_DATATYPEKIND_OPTSTRUCT:
-        // here we have to take a look on the first member
-        assert(type->members);
+        // without members it is represented by a pointer
+        if (!type->members)
+        {
+            return offsetof(TempVoidPtr, member);
+        }
         int retAlignment = 0;
         for (UA_UInt32 i = 0; i < type->membersSize; i++)
         {
@@ -270,17 +291,6 @@ static int getAlignment(const UA_DataType *type,
     return 0;
 }
 
-typedef struct
-{
-    char c;
-    size_t member;
-} TempSizeT;
-typedef struct
-{
-    char c;
-    void *member;
-} TempVoidPtr;
-
 static void setPaddingMemsize(UA_DataType *type,
                               const UA_DataTypeArray *customTypes)
 {
-- 
2.43.0


From d8d5e301c1c2683cff6432871ef48a304c3e5e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:53 +0000
Subject: [PATCH 38/67] fix: imported structures and unions are not laid out
 like in C

---
 backends/open62541/src/DataTypeImporter.c | 146 +++++++++-------------
 1 file changed, 58 insertions(+), 88 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 87dadd8..d32be38 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -208,6 +208,9 @@ typedef struct
     void *member;
 } TempVoidPtr;
 
+static int getMemberAlignment(const UA_DataTypeMember *member,
+                              const UA_DataTypeArray *customTypes);
+
 static int getAlignment(const UA_DataType *type,
                         const UA_DataTypeArray *customTypes)
 {
@@ -263,22 +266,23 @@ static int getAlignment(const UA_DataType *type,
         return offsetof(TempExtensionObject, member);
     case UA_DATATYPEKIND_DATAVALUE:
         return offsetof(TempDataValue, member);
-    case UA_DATATYPEKIND_UNION:
-        return 0;
     case UA_DATATYPEKIND_GUID:
         return offsetof(TempGuid, member);
     case UA_DATATYPEKIND_STRUCTURE:
     case UA_DATATYPEKIND_OPTSTRUCT:
+    case UA_DATATYPEKIND_UNION:
         // without members it is represented by a pointer
         if (!type->members)
         {
             return offsetof(TempVoidPtr, member);
         }
-        int retAlignment = 0;
+        // unions start with a switch field
+        int retAlignment = type->typeKind == UA_DATATYPEKIND_UNION
+                               ? (int)offsetof(TempUInt32, member)
+                               : 1;
         for (UA_UInt32 i = 0; i < type->membersSize; i++)
         {
-            const UA_DataType *memberType = type->members[i].memberType;
-            int tmp = getAlignment(memberType, customTypes);
+            int tmp = getMemberAlignment(&type->members[i], customTypes);
             if (tmp > retAlignment)
             {
                 retAlignment = tmp;
@@ -291,6 +295,36 @@ static int getAlignment(const UA_DataType *type,
     return 0;
 }
 
+static int getMemberAlignment(const UA_DataTypeMember *member,
+                              const UA_DataTypeArray *customTypes)
+{
+    if (member->isArray)
+    {
+        // we rely here that the size of an array is a size_t, followed by a
+        // pointer to the data
+        return offsetof(TempSizeT, member);
+    }
+    if (member->isOptional)
+    {
+        return offsetof(TempVoidPtr, member);
+    }
+    return getAlignment(member->memberType, customTypes);
+}
+
+static int getMemberSize(const UA_DataTypeMember *member)
+{
+    if (member->isArray)
+    {
+        return (int)(sizeof(size_t) + sizeof(void *));
+    }
+    if (member->isOptional)
+    {
+        return (int)sizeof(void *);
+    }
+    return member->memberType->memSize;
+}
+
+// same layout as the corresponding structure in C
 static void setPaddingMemsize(UA_DataType *type,
                               const UA_DataTypeArray *customTypes)
 {
@@ -298,96 +332,37 @@ static void setPaddingMemsize(UA_DataType *type,
     {
         return;
     }
-    int offset = 0;
-    int endPadding = 0;
-
-    UA_UInt16 biggestMemberSize = 0;
-
-    UA_Boolean hasArrayMember = false;
+    const bool isUnion = type->typeKind == UA_DATATYPEKIND_UNION;
+    const int alignment = getAlignment(type, customTypes);
+    // the members of a union share the place behind the switch field
+    int offset = isUnion ? (int)sizeof(UA_UInt32) : 0;
+    if (isUnion)
+    {
+        offset += getPadding(alignment, offset);
+    }
+    int size = offset;
 
     for (UA_DataTypeMember *tm = type->members;
          tm < type->members + type->membersSize; tm++)
     {
-        const UA_DataType *memberType = tm->memberType;
-        type->pointerFree = type->pointerFree && memberType->pointerFree;
-
-        if (tm->isArray)
-        {
-            // for arrays we have to take the size_t for the arraySize into
-            // account if the open changes the implementation of array
-            // serialization, we have a serious problem
-            // we rely here that its an size_t
-            int align = offsetof(TempSizeT, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            offset = offset + tm->padding + (UA_Byte)sizeof(size_t);
-            // the void* for data
-            align = offsetof(TempVoidPtr, member);
-            int padding2 = getPadding(align, offset);
-            offset = offset + padding2 + (UA_Byte)sizeof(void *);
-            // datatype is not pointerfree
-            type->pointerFree = false;
-
-            if (sizeof(void *) > biggestMemberSize)
-            {
-                biggestMemberSize = sizeof(void *);
-            }
-
-            hasArrayMember = true;
-        }
-        else if (tm->isOptional)
+        type->pointerFree = type->pointerFree && tm->memberType->pointerFree &&
+                            !tm->isArray && !tm->isOptional;
+        if (isUnion)
         {
-            int align = offsetof(TempVoidPtr, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            offset = offset + tm->padding + (UA_Byte)sizeof(void *);
-            type->pointerFree = false;
-            if (sizeof(void *) > biggestMemberSize)
+            tm->padding = (UA_Byte)(0x3F & offset);
+            if (offset + getMemberSize(tm) > size)
             {
-                biggestMemberSize = sizeof(void *);
+                size = offset + getMemberSize(tm);
             }
         }
         else
         {
-            // add the switchfield to the padding of the first datatype member
-            if (type->typeKind == UA_DATATYPEKIND_UNION)
-            {
-                tm->padding = (UA_Byte)sizeof(UA_UInt32);
-            }
-            else if (memberType->typeKind != UA_DATATYPEKIND_UNION)
-            {
-                int align = getAlignment(memberType, customTypes);
-                tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            }
-
-            offset = offset + tm->padding + memberType->memSize;
-            // padding after struct at end is needed
-            if (memberType->memSize > sizeof(size_t))
-            {
-                endPadding = memberType->memSize % sizeof(size_t);
-            }
-            if (memberType->memSize > biggestMemberSize)
-            {
-                biggestMemberSize = memberType->memSize;
-            }
-        }
-    }
-    if (type->typeKind == UA_DATATYPEKIND_UNION)
-    {
-        // add the switch field
-        type->memSize = sizeof(UA_Int32);
-        int padding = getPadding(offsetof(TempUInt32, member), 0);
-        type->memSize = (UA_UInt16)(type->memSize + padding);
-        type->memSize = (UA_UInt16)(type->memSize + biggestMemberSize);
-        if (hasArrayMember)
-        {
-            type->memSize = (UA_UInt16)(type->memSize + sizeof(size_t));
+            tm->padding = (UA_Byte)(
+                0x3F & getPadding(getMemberAlignment(tm, customTypes), size));
+            size += tm->padding + getMemberSize(tm);
         }
-        endPadding = getPadding(offsetof(TempSizeT, member), type->memSize);
-        type->memSize = (UA_UInt16)(type->memSize + endPadding);
-    }
-    else
-    {
-        type->memSize = (UA_UInt16)(offset + endPadding);
     }
+    type->memSize = (UA_UInt16)(size + getPadding(alignment, size));
 }
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
@@ -557,11 +532,6 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
 static bool readyForMemsizeCalc(const UA_DataType *type,
                                 const UA_DataType *customTypes)
 {
-    if (type->typeKind != UA_DATATYPEKIND_STRUCTURE &&
-        type->typeKind != UA_DATATYPEKIND_OPTSTRUCT)
-    {
-        return true;
-    }
     if (type->membersSize == 0)
     {
         return true;
-- 
2.43.0


From 0abeb8349e2d8f484fe3336f8c97ee567c65b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:53 +0000
Subject: [PATCH 39/67] fix: structures with unknown members or containing
 themselves hang or crash the import

---
 backends/open62541/src/DataTypeImporter.c | 100 +++++++++++++++++-----
 1 file changed, 77 insertions(+), 23 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index d32be38..ebe4121 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -529,52 +529,106 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
     type->typeKind = parentType->typeKind;
 }
 
-static bool readyForMemsizeCalc(const UA_DataType *type,
-                                const UA_DataType *customTypes)
+static void removeMembers(UA_DataType *type)
 {
-    if (type->membersSize == 0)
+    for (UA_DataTypeMember *m = type->members;
+         m != type->members + type->membersSize; m++)
     {
-        return true;
+        UA_free((void *)(uintptr_t)m->memberName);
     }
-    bool ready = true;
-    for (UA_DataTypeMember *m = type->members;
+    free(type->members);
+    type->members = NULL;
+    type->membersSize = 0;
+    type->memSize = sizeof(void *);
+}
+
+static bool hasUnknownMember(const UA_DataType *type)
+{
+    for (const UA_DataTypeMember *m = type->members;
+         m != type->members + type->membersSize; m++)
+    {
+        if (!m->memberType)
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
+static bool readyForMemsizeCalc(const DataTypeImporter *importer,
+                                const UA_DataType *type, const bool *finished)
+{
+    const UA_DataType *newTypes =
+        importer->types->types + importer->firstNewDataType;
+    for (const UA_DataTypeMember *m = type->members;
          m != type->members + type->membersSize; m++)
     {
-        if (m->memberType && m->memberType->memSize > 0)
+        // only the size of a pointer matters
+        if (m->isArray || m->isOptional)
         {
             continue;
         }
-        ready = false;
-        break;
+        if (m->memberType >= newTypes &&
+            m->memberType < importer->types->types + importer->types->typesSize &&
+            !finished[m->memberType - newTypes])
+        {
+            return false;
+        }
     }
-    return ready;
+    return true;
 }
 
 static void calcMemSize(DataTypeImporter *importer)
 {
-    bool allTypesFinished = false;
+    UA_DataType *types = (UA_DataType *)(uintptr_t)importer->types->types +
+                         importer->firstNewDataType;
+    size_t typesSize =
+        importer->types->typesSize - importer->firstNewDataType;
+    bool *finished = (bool *)calloc(typesSize + 1, sizeof(bool));
+    if (!finished)
+    {
+        return;
+    }
+    for (size_t i = 0; i < typesSize; i++)
+    {
+        // nothing is known about the layout
+        if (hasUnknownMember(&types[i]))
+        {
+            removeMembers(&types[i]);
+        }
+    }
+    size_t finishedCnt = 0;
     // datatype nodes could be sorted upfront to detect cyclic dependencies
-    while (!allTypesFinished)
-    {
-        allTypesFinished = true;
-        for (UA_DataType *type =
-                 (UA_DataType *)(uintptr_t)importer->types->types +
-                 importer->firstNewDataType;
-             type != importer->types->types + importer->types->typesSize;
-             type++)
+    while (finishedCnt < typesSize)
+    {
+        size_t previouslyFinished = finishedCnt;
+        UA_DataType *unfinished = NULL;
+        for (size_t i = 0; i < typesSize; i++)
         {
+            if (finished[i])
+            {
+                continue;
+            }
             // we can calculate the memsize if the memsize of all membertypes is
             // known
-            if (readyForMemsizeCalc(type, importer->types->types))
+            if (readyForMemsizeCalc(importer, &types[i], finished))
             {
-                setPaddingMemsize(type, importer->types);
+                setPaddingMemsize(&types[i], importer->types);
+                finished[i] = true;
+                finishedCnt++;
             }
-            else
+            else if (!unfinished)
             {
-                allTypesFinished = false;
+                unfinished = &types[i];
             }
         }
+        // a structure that contains itself has no layout
+        if (finishedCnt == previouslyFinished)
+        {
+            removeMembers(unfinished);
+        }
     }
+    free(finished);
 }
 
 void DataTypeImporter_initMembers(DataTypeImporter *importer)
-- 
2.43.0


From 923dcb4abe7142108ed7df73c53bc20a0b38ab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 40/67] fix: structures with an empty definition have no size

---
 backends/open62541/src/DataTypeImporter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index ebe4121..907a6f2 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -438,7 +438,7 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
                                UA_DataType *type, const NL_DataTypeNode *node)
 {
 
-    if (!node->definition)
+    if (!node->definition || node->definition->fieldCnt == 0)
     {
         type->membersSize = 0;
         type->members = NULL;
-- 
2.43.0


From 3c0b367a0227a76a7aa2a1f24d1405d7a685ec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 41/67] fix: structures with more than 255 members access
 memory out of bounds

---
 backends/open62541/src/DataTypeImporter.c | 37 ++++++++++++++---------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 907a6f2..0977941 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -377,6 +377,19 @@ static UA_NodeId getParentNode(const NL_DataTypeNode *node)
     return UA_NODEID_NULL;
 }
 
+static void removeMembers(UA_DataType *type)
+{
+    for (UA_DataTypeMember *m = type->members;
+         m != type->members + type->membersSize; m++)
+    {
+        UA_free((void *)(uintptr_t)m->memberName);
+    }
+    free(type->members);
+    type->members = NULL;
+    type->membersSize = 0;
+    type->memSize = sizeof(void *);
+}
+
 static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
                                         UA_DataType *type,
                                         const NL_DataTypeNode *node)
@@ -393,7 +406,12 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
         // done
         // First need to check if parentType exists at all. NodesetCompiler in
         // open62541 would not generate a type if it had no members.
-        if (parentType && parentType->members)
+        if (parentType && parentType->members &&
+            parentType->membersSize + type->membersSize > UA_BYTE_MAX)
+        {
+            removeMembers(type);
+        }
+        else if (parentType && parentType->members)
         {
             UA_DataTypeMember *members = (UA_DataTypeMember *)calloc(
                 (size_t)(parentType->membersSize + type->membersSize),
@@ -438,7 +456,9 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
                                UA_DataType *type, const NL_DataTypeNode *node)
 {
 
-    if (!node->definition || node->definition->fieldCnt == 0)
+    // membersSize has 8 bits
+    if (!node->definition || node->definition->fieldCnt == 0 ||
+        node->definition->fieldCnt > UA_BYTE_MAX)
     {
         type->membersSize = 0;
         type->members = NULL;
@@ -529,19 +549,6 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
     type->typeKind = parentType->typeKind;
 }
 
-static void removeMembers(UA_DataType *type)
-{
-    for (UA_DataTypeMember *m = type->members;
-         m != type->members + type->membersSize; m++)
-    {
-        UA_free((void *)(uintptr_t)m->memberName);
-    }
-    free(type->members);
-    type->members = NULL;
-    type->membersSize = 0;
-    type->memSize = sizeof(void *);
-}
-
 static bool hasUnknownMember(const UA_DataType *type)
 {
     for (const UA_DataTypeMember *m = type->members;
-- 
2.43.0


From b66e8767974361bce4129ed55febbf42e8638ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 42/67] fix: subtypes of structures with optional fields are
 handled as if there were none

---
 backends/open62541/src/DataTypeImporter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 0977941..ff37b90 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -438,6 +438,10 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
                 (uint8_t)(parentType->membersSize + type->membersSize);
             type->memSize = parentType->memSize;
             memberOffset = parentType->membersSize;
+            if (parentType->typeKind == UA_DATATYPEKIND_OPTSTRUCT)
+            {
+                type->typeKind = UA_DATATYPEKIND_OPTSTRUCT;
+            }
         }
     }
 
-- 
2.43.0


From 41b5dc553c11f70890292479a5608aeb2f6ecccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 43/67] fix: ids of data types with string NodeIds are dangling
 after loading

---
 backends/open62541/src/DataTypeImporter.c | 9 ++++-----
 backends/open62541/src/customDataType.c   | 2 ++
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index ff37b90..c7a1b29 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -508,8 +508,8 @@ static void StructureDataType_init(const DataTypeImporter *importer,
     {
         type->typeKind = UA_DATATYPEKIND_STRUCTURE;
     }
-    type->typeId = node->id;
-    type->binaryEncodingId = getBinaryEncodingId(node);
+    UA_NodeId encodingId = getBinaryEncodingId(node);
+    UA_NodeId_copy(&encodingId, &type->binaryEncodingId);
     type->pointerFree = true;
     if (!isOptionSet)
     {
@@ -522,7 +522,6 @@ static void EnumDataType_init(const DataTypeImporter *importer,
                               UA_DataType *enumType,
                               const NL_DataTypeNode *node)
 {
-    enumType->typeId = node->id;
     enumType->typeKind = UA_DATATYPEKIND_ENUM;
     enumType->binaryEncodingId = UA_NODEID_NULL;
     enumType->pointerFree = true;
@@ -543,7 +542,6 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
         parentType = &UA_TYPES[UA_TYPES_VARIANT];
     }
 
-    type->typeId = node->id;
     type->binaryEncodingId = parentType->binaryEncodingId;
     type->members = NULL;
     type->membersSize = 0;
@@ -678,7 +676,8 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
     UA_DataType *type = (UA_DataType *)(uintptr_t)&importer->types
                             ->types[importer->types->typesSize];
     memset(type, 0, sizeof(UA_DataType));
-    type->typeId = node->id;
+    // the node is gone after loading
+    UA_NodeId_copy(&node->id, &type->typeId);
     if (node->browseName.name)
     {
         size_t len = strlen(node->browseName.name);
diff --git a/backends/open62541/src/customDataType.c b/backends/open62541/src/customDataType.c
index f499d98..785fee2 100644
--- a/backends/open62541/src/customDataType.c
+++ b/backends/open62541/src/customDataType.c
@@ -43,6 +43,8 @@ static void cleanupCustomTypes(const UA_DataTypeArray *types)
             for (const UA_DataType *type = types->types;
                  type != types->types + types->typesSize; type++)
             {
+                UA_NodeId_clear((UA_NodeId *)(uintptr_t)&type->typeId);
+                UA_NodeId_clear((UA_NodeId *)(uintptr_t)&type->binaryEncodingId);
                 free((void*)(uintptr_t)type->typeName);
                 for (UA_DataTypeMember *m = type->members;
                      m != type->members + type->membersSize; m++)
-- 
2.43.0


From cf91285ed2c314e7fa28a96ee4b70ed8fa84a4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:18 +0000
Subject: [PATCH 44/67] fix: data types are written beyond the end of a full or
 foreign array

---
 backends/open62541/src/DataTypeImporter.c | 62 ++++++++++-------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index c7a1b29..ae5434a 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -20,7 +20,6 @@ struct DataTypeImporter
     UA_DataTypeArray *types;
     const NL_DataTypeNode **nodes;
     size_t nodesSize;
-    size_t firstNewDataType;
 };
 
 static UA_NodeId getBinaryEncodingId(const NL_DataTypeNode *node)
@@ -456,8 +455,7 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
     }
 }
 
-static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
-                               UA_DataType *type, const NL_DataTypeNode *node)
+static void addDataTypeMembers(UA_DataType *type, const NL_DataTypeNode *node)
 {
 
     // membersSize has 8 bits
@@ -478,9 +476,6 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
     {
         UA_DataTypeMember *member = type->members + i;
         member->isArray = node->definition->fields[i].valueRank >= 0;
-        UA_NodeId typeId = node->definition->fields[i].dataType;
-        member->memberType = getDataType(&typeId, customTypes, NULL);
-
         char *memberNameCopy = (char *)UA_calloc(
             strlen(node->definition->fields[i].name) + 1, sizeof(char));
         memcpy(memberNameCopy, node->definition->fields[i].name,
@@ -513,7 +508,7 @@ static void StructureDataType_init(const DataTypeImporter *importer,
     type->pointerFree = true;
     if (!isOptionSet)
     {
-        addDataTypeMembers(importer->types, type, node);
+        addDataTypeMembers(type, node);
     }
     type->overlayable = false;
 }
@@ -567,8 +562,7 @@ static bool hasUnknownMember(const UA_DataType *type)
 static bool readyForMemsizeCalc(const DataTypeImporter *importer,
                                 const UA_DataType *type, const bool *finished)
 {
-    const UA_DataType *newTypes =
-        importer->types->types + importer->firstNewDataType;
+    const UA_DataType *newTypes = importer->types->types;
     for (const UA_DataTypeMember *m = type->members;
          m != type->members + type->membersSize; m++)
     {
@@ -578,7 +572,7 @@ static bool readyForMemsizeCalc(const DataTypeImporter *importer,
             continue;
         }
         if (m->memberType >= newTypes &&
-            m->memberType < importer->types->types + importer->types->typesSize &&
+            m->memberType < newTypes + importer->types->typesSize &&
             !finished[m->memberType - newTypes])
         {
             return false;
@@ -589,10 +583,8 @@ static bool readyForMemsizeCalc(const DataTypeImporter *importer,
 
 static void calcMemSize(DataTypeImporter *importer)
 {
-    UA_DataType *types = (UA_DataType *)(uintptr_t)importer->types->types +
-                         importer->firstNewDataType;
-    size_t typesSize =
-        importer->types->typesSize - importer->firstNewDataType;
+    UA_DataType *types = (UA_DataType *)(uintptr_t)importer->types->types;
+    size_t typesSize = importer->types->typesSize;
     bool *finished = (bool *)calloc(typesSize + 1, sizeof(bool));
     if (!finished)
     {
@@ -644,8 +636,7 @@ void DataTypeImporter_initMembers(DataTypeImporter *importer)
 {
 
     size_t cnt = 0;
-    for (UA_DataType *type = (UA_DataType *)(uintptr_t)importer->types->types +
-                             importer->firstNewDataType;
+    for (UA_DataType *type = (UA_DataType *)(uintptr_t)importer->types->types;
          type != importer->types->types + importer->types->typesSize; type++)
     {
         if (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
@@ -666,12 +657,18 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
     // there is an open issue for that
     // the user of the library should provide the memory for the custom
     // dataTypes, then it is clear that he has to clean it up
-    if (!importer->types->types)
+    if (importer->types->typesSize % 100 == 0)
     {
-        importer->types->types =
-            (UA_DataType *)calloc(1000, sizeof(UA_DataType));
+        // pointers to the types are taken in DataTypeImporter_initMembers
+        UA_DataType *newTypes = (UA_DataType *)realloc(
+            (void *)(uintptr_t)importer->types->types,
+            (importer->types->typesSize + 100) * sizeof(UA_DataType));
+        if (!newTypes)
+        {
+            return;
+        }
+        importer->types->types = newTypes;
     }
-    assert(importer->types->typesSize < 1000);
 
     UA_DataType *type = (UA_DataType *)(uintptr_t)&importer->types
                             ->types[importer->types->typesSize];
@@ -725,23 +722,20 @@ DataTypeImporter *DataTypeImporter_new(struct UA_Server *server)
     }
 
     UA_ServerConfig *config = UA_Server_getConfig(server);
-    if (!config->customDataTypes)
+    // the array that is already there may be full, constant or owned by someone
+    // else, so the new types get their own
+    UA_DataTypeArray *newCustomTypes =
+        (UA_DataTypeArray *)UA_calloc(1, sizeof(UA_DataTypeArray));
+    if (!newCustomTypes)
     {
-        // we append all types to customTypes array
-        UA_DataTypeArray *newCustomTypes =
-            (UA_DataTypeArray *)UA_calloc(1, sizeof(UA_DataTypeArray));
-        if (!newCustomTypes)
-        {
-            return importer;
-        }
+        return importer;
+    }
 #ifndef USE_CLEANUP_CUSTOM_DATATYPES
-        newCustomTypes->cleanup = UA_TRUE;
+    newCustomTypes->cleanup = UA_TRUE;
 #endif
-        newCustomTypes->next = config->customDataTypes;
-        config->customDataTypes = newCustomTypes;
-    }
-    importer->types = (UA_DataTypeArray *)(uintptr_t)config->customDataTypes;
-    importer->firstNewDataType = importer->types->typesSize;
+    newCustomTypes->next = config->customDataTypes;
+    config->customDataTypes = newCustomTypes;
+    importer->types = newCustomTypes;
     return importer;
 }
 
-- 
2.43.0


From 694572ce08bed3946bcec11b2a5b038d201c4f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:18 +0000
Subject: [PATCH 45/67] fix: a reference type that is its own supertype fills
 the memory

---
 backends/open62541/src/RefServiceImpl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index f018c00..af083c0 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -131,11 +131,14 @@ static void addnewRefType(RefServiceImpl *service, NL_ReferenceTypeNode *node)
                 if (UA_NodeId_equal(&service->hierachicalRefs.ids[i], &ref->target)) {
                     addToRefs(&service->hierachicalRefs, node->id);
                     isHierachical = true;
+                    break;
                 }
             }
             for (size_t i = 0; i < service->hasTypeDefRefs.size; i++) {
-                if (UA_NodeId_equal(&service->hasTypeDefRefs.ids[i], &ref->target))
+                if (UA_NodeId_equal(&service->hasTypeDefRefs.ids[i], &ref->target)) {
                     addToRefs(&service->hasTypeDefRefs, node->id);
+                    break;
+                }
             }
         }
         ref = ref->next;
-- 
2.43.0


From b68692b41a8d50d74578d4124e312f3905847a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:18 +0000
Subject: [PATCH 46/67] fix: only 100 direct subtypes of a reference type are
 known

---
 backends/open62541/src/RefServiceImpl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index af083c0..0e916cd 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -50,7 +50,7 @@ static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
     bd.resultMask = UA_BROWSERESULTMASK_BROWSENAME;
     bd.nodeId = *startId;
     bd.nodeClassMask = UA_NODECLASS_REFERENCETYPE;
-    UA_BrowseResult br = UA_Server_browse(server, 100, &bd);
+    UA_BrowseResult br = UA_Server_browse(server, 0, &bd);
     if (br.statusCode == UA_STATUSCODE_GOOD)
     {
         for (UA_ReferenceDescription *rd = br.references;
-- 
2.43.0


From 9573ecfbf531ca5377ddc6ecd80fa56b2cbbab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:18 +0000
Subject: [PATCH 47/67] fix: data types with a string NodeId as parent use
 freed memory

---
 backends/open62541/src/import.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 34cfbdc..8bfe991 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -28,14 +28,16 @@ static UA_NodeId getParentDataType(UA_Server *server, const UA_NodeId id)
     UA_BrowseDescription_init(&bd);
     bd.nodeId = id;
     bd.browseDirection = UA_BROWSEDIRECTION_INVERSE;
+    bd.referenceTypeId = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
+    bd.includeSubtypes = true;
     bd.nodeClassMask = UA_NODECLASS_DATATYPE;
 
-    UA_BrowseResult br = UA_Server_browse(server, 10, &bd);
-    if (br.statusCode != UA_STATUSCODE_GOOD || br.referencesSize != 1)
+    UA_NodeId parentId = UA_NODEID_NULL;
+    UA_BrowseResult br = UA_Server_browse(server, 0, &bd);
+    if (br.statusCode == UA_STATUSCODE_GOOD && br.referencesSize == 1)
     {
-        return UA_NODEID_NULL;
+        UA_NodeId_copy(&br.references[0].nodeId.nodeId, &parentId);
     }
-    UA_NodeId parentId = br.references[0].nodeId.nodeId;
     UA_BrowseResult_clear(&br);
     return parentId;
 }
@@ -58,10 +60,13 @@ static bool isKnownParent(const UA_NodeId typeId)
 
 static UA_NodeId getParentType(UA_Server *server, const UA_NodeId dataTypeId)
 {
-    UA_NodeId current = dataTypeId;
+    UA_NodeId current;
+    UA_NodeId_copy(&dataTypeId, &current);
     while (!isKnownParent(current))
     {
-        current = getParentDataType(server, current);
+        UA_NodeId parent = getParentDataType(server, current);
+        UA_NodeId_clear(&current);
+        current = parent;
     }
     return current;
 }
-- 
2.43.0


From 7a69d554e4f9e26d1886b726af6f6fbcf6467a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:18 +0000
Subject: [PATCH 48/67] fix: encodings of data types are referenced backwards
 and freed twice

---
 backends/open62541/src/import.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 8bfe991..7e6911c 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -505,8 +505,9 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
         if (UA_NodeId_equal(&r->source, &node->id))
         {
             NL_Reference *ref = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-            ref->refType = r->refType;
-            ref->target = r->target;
+            UA_NodeId_copy(&r->refType, &ref->refType);
+            UA_NodeId_copy(&r->target, &ref->target);
+            ref->isForward = true;
 
             NL_Reference *lastRef = node->nonHierachicalRefs;
             node->nonHierachicalRefs = ref;
-- 
2.43.0


From 30800dfacc5810c6e5318f168bf911e184043c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:35 +0000
Subject: [PATCH 49/67] fix: array dimensions of variable types are dropped or
 read after their lifetime

---
 backends/open62541/src/import.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 7e6911c..c10c096 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -348,21 +348,23 @@ static UA_StatusCode handleVariableTypeNode(const NL_VariableTypeNode *node, UA_
     attr.description = *description;
     attr.valueRank = atoi(node->valueRank);
     attr.isAbstract = isValTrue(node->isAbstract);
-    if (attr.valueRank >= 0)
+    UA_UInt32 anyLength = 0;
+    UA_UInt32 *arrDims = NULL;
+    attr.arrayDimensionsSize =
+        getArrayDimensions(node->arrayDimensions, &arrDims);
+    attr.arrayDimensions = arrDims;
+    if (attr.arrayDimensionsSize == 0 && attr.valueRank >= 0)
     {
-        if (!strcmp(node->arrayDimensions, ""))
-        {
-            attr.arrayDimensionsSize = 1;
-            UA_UInt32 arrayDimensions[1];
-            arrayDimensions[0] = 0;
-            attr.arrayDimensions = &arrayDimensions[0];
-        }
+        attr.arrayDimensionsSize = 1;
+        attr.arrayDimensions = &anyLength;
     }
 
-   return UA_Server_addNode_begin(server, UA_NODECLASS_VARIABLETYPE, *id, *parentId,
+    UA_StatusCode status = UA_Server_addNode_begin(server, UA_NODECLASS_VARIABLETYPE, *id, *parentId,
                             *parentReferenceId, *qn, UA_NODEID_NULL, &attr,
                             &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES],
                             node->extension, NULL);
+    free(arrDims);
+    return status;
 }
 
 static UA_StatusCode handleDataTypeNode(const NL_DataTypeNode *node, UA_NodeId *id,
-- 
2.43.0


From 05a7be5f19c88bd97378d36271bb5428a74105a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:35 +0000
Subject: [PATCH 50/67] fix: array dimensions above 2147483647 are changed

---
 backends/open62541/src/import.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index c10c096..3e6dcd0 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -187,10 +187,9 @@ static size_t getArrayDimensions(const char *s, UA_UInt32 **dims)
         return 0;
     }
     // add the first one
-    int val = atoi(s);
     arrSize++;
     *dims = (UA_UInt32 *)malloc(sizeof(UA_UInt32));
-    (*dims)[0] = (UA_UInt32)val;
+    (*dims)[0] = (UA_UInt32)strtoul(s, NULL, 10);
 
     const char *subString = strchr(s, ',');
 
@@ -198,7 +197,7 @@ static size_t getArrayDimensions(const char *s, UA_UInt32 **dims)
     {
         arrSize++;
         *dims = (UA_UInt32 *)realloc(*dims, arrSize * sizeof(UA_UInt32));
-        (*dims)[arrSize - 1] = (UA_UInt32)atoi(subString + 1);
+        (*dims)[arrSize - 1] = (UA_UInt32)strtoul(subString + 1, NULL, 10);
         subString = strchr(subString + 1, ',');
     }
     return arrSize;
-- 
2.43.0


From f2db582615fd7f4bc62420fc7889567839550dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:35 +0000
Subject: [PATCH 51/67] fix: an empty Uri in the namespace table crashes the
 import

---
 backends/open62541/src/import.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 3e6dcd0..397c87c 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -460,7 +460,8 @@ NodesetLoader_BackendOpen62541_addNamespace(void *userContext, const char *names
     ServerContext *serverContext = (ServerContext *)userContext;
 
     UA_UInt16 idx =
-        UA_Server_addNamespace(ServerContext_getServerObject(serverContext), namespaceUri);
+        UA_Server_addNamespace(ServerContext_getServerObject(serverContext),
+                               namespaceUri ? namespaceUri : "");
 
     ServerContext_addNamespaceIdx(serverContext, idx);
 
-- 
2.43.0


From 94680ae7985d6ae0e0731048fe4a1f6abd809184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:54 +0000
Subject: [PATCH 52/67] fix: ParentNodeId of nodes with forward hierarchical
 references is ignored

---
 src/Sort.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Sort.c b/src/Sort.c
index 9bc5124..f668a44 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -296,21 +296,21 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
     }
     j->data = data;
     NL_Reference *hierachicalRef = data->hierachicalRefs;
-    bool hierachicalRefRecorded = false;
+    bool inverseRefRecorded = false;
     if (hierachicalRef) {
         while (hierachicalRef) {
             S_Node *k = search_node(ctx->root1, &hierachicalRef->target);
             if (!hierachicalRef->isForward) {
                 record_relation(k, j);
+                inverseRefRecorded = true;
             } else {
                 record_relation(j, k);
             }
             hierachicalRef = hierachicalRef->next;
-            hierachicalRefRecorded = true;
         }
     }
-    // add reference generated by ParentNodeId, if dont have already a hierachical ref
-    if (!hierachicalRefRecorded && NodesetLoader_isInstanceNode(data)) {
+    // add reference generated by ParentNodeId, if dont have already a reference to a parent
+    if (!inverseRefRecorded && NodesetLoader_isInstanceNode(data)) {
         NL_InstanceNode *instanceNode = (NL_InstanceNode *)data;
         if(UA_NodeId_equal(&instanceNode->parentNodeId, &UA_NODEID_NULL))
         {
-- 
2.43.0


From ce6352f9bfba32780e81e88dd0593683ca21b200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:54 +0000
Subject: [PATCH 53/67] fix: nodes are added with the type of a reference to
 another node than the parent

---
 backends/open62541/src/import.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 397c87c..1e79221 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -89,19 +89,28 @@ static UA_NodeId getReferenceTarget(const NL_Reference *ref)
     return ref->target;
 }
 
-static NL_Reference *getHierachicalInverseReference(const NL_Node *node)
+// the one to the given parent, or any if there is none
+static NL_Reference *getHierachicalInverseReference(const NL_Node *node,
+                                                    const UA_NodeId *parentId)
 {
-
+    NL_Reference *firstRef = NULL;
     NL_Reference *hierachicalRef = node->hierachicalRefs;
     while (hierachicalRef)
     {
         if (!hierachicalRef->isForward)
         {
-            return hierachicalRef;
+            if (UA_NodeId_equal(&hierachicalRef->target, parentId))
+            {
+                return hierachicalRef;
+            }
+            if (!firstRef)
+            {
+                firstRef = hierachicalRef;
+            }
         }
         hierachicalRef = hierachicalRef->next;
     }
-    return NULL;
+    return firstRef;
 }
 
 static UA_NodeId getParentId(const NL_Node *node, UA_NodeId *parentRefId)
@@ -112,13 +121,11 @@ static UA_NodeId getParentId(const NL_Node *node, UA_NodeId *parentRefId)
     {
         parentId = ((const NL_InstanceNode*)node)->parentNodeId;
     }
-    NL_Reference *ref = getHierachicalInverseReference((const NL_Node *)node);
+    // parent and type of the reference must belong together
+    NL_Reference *ref =
+        getHierachicalInverseReference((const NL_Node *)node, &parentId);
     *parentRefId = getReferenceTypeId(ref);
-    if (UA_NodeId_equal(&parentId, &UA_NODEID_NULL))
-    {
-        parentId = getReferenceTarget(ref);
-    }
-    return parentId;
+    return getReferenceTarget(ref);
 }
 
 static UA_StatusCode
-- 
2.43.0


From a46a3a306523a7845a42a965d6c8799e205ef94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 54/67] fix: reference types lose their IsAbstract attribute

---
 backends/open62541/src/import.c       | 1 +
 include/NodesetLoader/NodesetLoader.h | 1 +
 src/Nodeset.c                         | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 1e79221..6556647 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -331,6 +331,7 @@ static UA_StatusCode handleReferenceTypeNode(const NL_ReferenceTypeNode *node,
 {
     UA_ReferenceTypeAttributes attr = UA_ReferenceTypeAttributes_default;
     attr.symmetric = isValTrue(node->symmetric);
+    attr.isAbstract = isValTrue(node->isAbstract);
     attr.displayName = *lt;
     attr.description = *description;
     attr.inverseName =
diff --git a/include/NodesetLoader/NodesetLoader.h b/include/NodesetLoader/NodesetLoader.h
index a1d5642..6b94228 100644
--- a/include/NodesetLoader/NodesetLoader.h
+++ b/include/NodesetLoader/NodesetLoader.h
@@ -230,6 +230,7 @@ struct NL_ReferenceTypeNode
     NL_NODE_ATTRIBUTES
     NL_LocalizedText inverseName;
     char *symmetric;
+    char *isAbstract;
 };
 typedef struct NL_ReferenceTypeNode NL_ReferenceTypeNode;
 
diff --git a/src/Nodeset.c b/src/Nodeset.c
index 25c45e0..7589a55 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -414,6 +414,8 @@ static void extractAttributes(Nodeset *nodeset, const NamespaceList *namespaces,
     case NODECLASS_REFERENCETYPE:
         ((NL_ReferenceTypeNode *)node)->symmetric = getAttributeValue(
             nodeset, &attrSymmetric, attributes, attributeSize);
+        ((NL_ReferenceTypeNode *)node)->isAbstract = getAttributeValue(
+            nodeset, &attrIsAbstract, attributes, attributeSize);
         break;
     case NODECLASS_VIEW:
         ((NL_ViewNode *)node)->parentNodeId = extractNodedId(
-- 
2.43.0


From 08f47b4b760376040de2f3f1c3431b430dad5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:40 +0000
Subject: [PATCH 55/67] fix: ParentNodeId in front of the parent adds a
 reference of another type

---
 src/Sort.c | 69 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/src/Sort.c b/src/Sort.c
index f668a44..c7e1cc9 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -34,6 +34,7 @@ struct S_Node
     size_t edgeCount;
     NL_Node *data;
     bool emitted;
+    struct S_Node *nextChild;
 };
 
 typedef struct S_Node S_Node;
@@ -44,6 +45,8 @@ struct SortContext
     S_Node *zeros;
     S_Node *root1;
     size_t keyCnt;
+    // nodes whose parent is only given by ParentNodeId
+    S_Node *children;
 };
 
 static S_Node *new_node(const UA_NodeId *id)
@@ -318,45 +321,49 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
         }
 
         S_Node *k = search_node(ctx->root1, &instanceNode->parentNodeId);
-        
-        //to we already have a reference for the node parentNode?
-        //parent references
-        bool refTypeFound = false;
-        if (k->data) {
-            NL_Reference *r = k->data->hierachicalRefs;
-            while (r) {
-                if (r->isForward && UA_NodeId_equal(&r->target, &data->id))
-                {
-                    NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-                    newRef->isForward = false;
-                    UA_NodeId_copy(&k->data->id, &newRef->target);
-                    UA_NodeId_copy(&r->refType, &newRef->refType);
-                    newRef->next = data->hierachicalRefs;
-                    data->hierachicalRefs = newRef;
-                    refTypeFound = true;
-                    break;
-                }
-                r = r->next;
-            }
-        }
-        if(!refTypeFound)
+        record_relation(k, j);
+        // the parent's own references may not be known yet
+        j->nextChild = ctx->children;
+        ctx->children = j;
+    }
+    return true;
+}
+
+// reference to the parent given by ParentNodeId, of the type the parent uses
+static void addParentReference(SortContext *ctx, NL_Node *data)
+{
+    const UA_NodeId *parentId = &((NL_InstanceNode *)data)->parentNodeId;
+    UA_NodeId refType = UA_NODEID_NUMERIC(0, NL_HASCOMPONENT_ID);
+    const S_Node *k = search_node(ctx->root1, parentId);
+    for (const NL_Reference *r = k->data ? k->data->hierachicalRefs : NULL; r;
+         r = r->next)
+    {
+        if (r->isForward && UA_NodeId_equal(&r->target, &data->id))
         {
-            NL_Reference *newRef =
-            (NL_Reference *)calloc(1, sizeof(NL_Reference));
-            newRef->isForward = false;
-            UA_NodeId_copy(&instanceNode->parentNodeId, &newRef->target);
-            newRef->refType = UA_NODEID_NUMERIC(0, NL_HASCOMPONENT_ID);
-            newRef->next = data->hierachicalRefs;
-            data->hierachicalRefs = newRef;
-            record_relation(k, j);
+            refType = r->refType;
+            break;
         }
     }
-    return true;
+
+    NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
+    newRef->isForward = false;
+    UA_NodeId_copy(parentId, &newRef->target);
+    UA_NodeId_copy(&refType, &newRef->refType);
+    newRef->next = data->hierachicalRefs;
+    data->hierachicalRefs = newRef;
 }
 
 bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 Sort_SortedNodeCallback callback, NodesetLoader_Logger *logger)
 {
+    while (ctx->children)
+    {
+        S_Node *child = ctx->children;
+        ctx->children = child->nextChild;
+        child->nextChild = NULL;
+        addParentReference(ctx, child->data);
+    }
+
     ctx->keyCnt = 0;
     walk_tree(ctx, ctx->root1, count_items);
 
-- 
2.43.0


From 0a0bad4f8e10ca448dd25533150ff6d2bb00457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:17 +0000
Subject: [PATCH 56/67] fix: nodes with several parents are added below one the
 server refuses

The server takes types only below their supertype and nodes only below nodes
it knows, so the first reference of the file is not always usable.
---
 backends/open62541/src/import.c | 65 +++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 6556647..afc7520 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -89,31 +89,56 @@ static UA_NodeId getReferenceTarget(const NL_Reference *ref)
     return ref->target;
 }
 
-// the one to the given parent, or any if there is none
-static NL_Reference *getHierachicalInverseReference(const NL_Node *node,
+static bool isTypeNode(const NL_Node *node)
+{
+    return node->nodeClass == NODECLASS_OBJECTTYPE ||
+           node->nodeClass == NODECLASS_VARIABLETYPE ||
+           node->nodeClass == NODECLASS_DATATYPE ||
+           node->nodeClass == NODECLASS_REFERENCETYPE;
+}
+
+// The server takes types only below their supertype and nodes only below nodes
+// it knows. Among those, the one to the given parent is used if there is one.
+static NL_Reference *getHierachicalInverseReference(UA_Server *server,
+                                                    const NL_Node *node,
                                                     const UA_NodeId *parentId)
 {
-    NL_Reference *firstRef = NULL;
-    NL_Reference *hierachicalRef = node->hierachicalRefs;
-    while (hierachicalRef)
+    const UA_NodeId hasSubtypeId =
+        UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
+    NL_Reference *bestRef = NULL;
+    int bestRank = -1;
+    for (NL_Reference *ref = node->hierachicalRefs; ref; ref = ref->next)
     {
-        if (!hierachicalRef->isForward)
+        if (ref->isForward)
         {
-            if (UA_NodeId_equal(&hierachicalRef->target, parentId))
-            {
-                return hierachicalRef;
-            }
-            if (!firstRef)
-            {
-                firstRef = hierachicalRef;
-            }
+            continue;
+        }
+        UA_NodeClass parentClass;
+        int rank = 0;
+        if (isTypeNode(node) && UA_NodeId_equal(&ref->refType, &hasSubtypeId))
+        {
+            rank += 4;
+        }
+        if (UA_Server_readNodeClass(server, ref->target, &parentClass) ==
+            UA_STATUSCODE_GOOD)
+        {
+            rank += 2;
+        }
+        if (UA_NodeId_equal(&ref->target, parentId))
+        {
+            rank += 1;
+        }
+        if (rank > bestRank)
+        {
+            bestRank = rank;
+            bestRef = ref;
         }
-        hierachicalRef = hierachicalRef->next;
     }
-    return firstRef;
+    return bestRef;
 }
 
-static UA_NodeId getParentId(const NL_Node *node, UA_NodeId *parentRefId)
+static UA_NodeId getParentId(UA_Server *server, const NL_Node *node,
+                             UA_NodeId *parentRefId)
 {
     UA_NodeId parentId = UA_NODEID_NULL;
 
@@ -123,7 +148,7 @@ static UA_NodeId getParentId(const NL_Node *node, UA_NodeId *parentRefId)
     }
     // parent and type of the reference must belong together
     NL_Reference *ref =
-        getHierachicalInverseReference((const NL_Node *)node, &parentId);
+        getHierachicalInverseReference(server, node, &parentId);
     *parentRefId = getReferenceTypeId(ref);
     return getReferenceTarget(ref);
 }
@@ -403,7 +428,9 @@ static void addNodeImpl(AddNodeContext *context, NL_Node *node)
 {
     UA_NodeId id = node->id;
     UA_NodeId parentReferenceId = UA_NODEID_NULL;
-    UA_NodeId parentId = getParentId(node, &parentReferenceId);
+    UA_NodeId parentId =
+        getParentId(ServerContext_getServerObject(context->serverContext), node,
+                    &parentReferenceId);
     UA_LocalizedText lt =
         UA_LOCALIZEDTEXT(node->displayName.locale, node->displayName.text);
     UA_QualifiedName qn =
-- 
2.43.0


From e1dd5dc8cce2e2d22bfc63a3925617677898afa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 57/67] fix: type definitions by a reference type that is
 declared later are lost

References of types that are not known yet are kept until sorting, but were
not recognised as type definition then.
---
 src/Nodeset.c | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 7589a55..8e5dcfc 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -220,11 +220,39 @@ static void insertElementAtFront(NL_Reference **toList, NL_Reference *elem)
     *toList = elem;
 }
 
+static bool setTypeDefinition(const Nodeset *nodeset, NL_Node *node,
+                              NL_Reference *ref)
+{
+    NL_Reference **typeDef = NULL;
+    if (NODECLASS_VARIABLE == node->nodeClass)
+    {
+        typeDef = &((NL_VariableNode *)node)->refToTypeDef;
+    }
+    else if (NODECLASS_OBJECT == node->nodeClass)
+    {
+        typeDef = &((NL_ObjectNode *)node)->refToTypeDef;
+    }
+    if (!typeDef || *typeDef ||
+        !nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
+                                              ref))
+    {
+        return false;
+    }
+    ref->next = NULL;
+    *typeDef = ref;
+    return true;
+}
+
 static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)
 {
     while (node->unknownRefs)
     {
         NL_Reference *nextUnknown = node->unknownRefs->next;
+        if (setTypeDefinition(nodeset, node, node->unknownRefs))
+        {
+            node->unknownRefs = nextUnknown;
+            continue;
+        }
         if (nodeset->refService->isHierachicalRef(nodeset->refService->context,
                                                   node->unknownRefs))
         {
@@ -458,21 +486,8 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
 
     newRef->refType = alias2Id(nodeset, aliasIdString);
 
-    if (NODECLASS_VARIABLE == node->nodeClass &&
-        !((NL_VariableNode *)node)->refToTypeDef &&
-        nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
-                                             newRef))
-    {
-        ((NL_VariableNode *)node)->refToTypeDef = newRef;
-        return newRef;
-    }
-
-    if (NODECLASS_OBJECT == node->nodeClass &&
-        !((NL_ObjectNode *)node)->refToTypeDef &&
-        nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
-                                             newRef))
+    if (setTypeDefinition(nodeset, node, newRef))
     {
-        ((NL_ObjectNode *)node)->refToTypeDef = newRef;
         return newRef;
     }
 
-- 
2.43.0


From 65f97c87c86dcd6600ecbf74e753a2f1e1b0aefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:09 +0000
Subject: [PATCH 58/67] fix: references derived from References directly cannot
 be used from the server

A reference type that is neither below HierarchicalReferences nor below
NonHierarchicalReferences was accepted in a nodeset, but unknown as soon as
the server had it, which made every nodeset that uses it fail.
---
 backends/open62541/src/RefServiceImpl.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index 0e916cd..9b1a2bb 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -80,6 +80,11 @@ static void addToHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
 
 static void addToNonHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
 {
+    for (size_t i = 0; i < impl->hierachicalRefs.size; i++)
+    {
+        if (UA_NodeId_equal(&impl->hierachicalRefs.ids[i], &id))
+            return;
+    }
     addToRefs(&impl->nonHierachicalRefs, id);
 }
 
@@ -156,8 +161,9 @@ NL_ReferenceService *RefServiceImpl_new(struct UA_Server *server)
     }
     UA_NodeId hierachicalRoot =
         UA_NODEID_NUMERIC(0, UA_NS0ID_HIERARCHICALREFERENCES);
-    UA_NodeId nonHierachicalRoot =
-        UA_NODEID_NUMERIC(0, UA_NS0ID_NONHIERARCHICALREFERENCES);
+    // every reference that is not hierachical, also the ones derived directly
+    // from References
+    UA_NodeId nonHierachicalRoot = UA_NODEID_NUMERIC(0, UA_NS0ID_REFERENCES);
     UA_NodeId hasTypeDefRoot = UA_NODEID_NUMERIC(0, UA_NS0ID_HASTYPEDEFINITION);
     addToRefs(&impl->hierachicalRefs, hierachicalRoot);
     addToRefs(&impl->nonHierachicalRefs, nonHierachicalRoot);
-- 
2.43.0


From d17d68057199e751727325f4acdab40ea990a104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:51 +0000
Subject: [PATCH 59/67] fix: variable types of other value ranks than one get a
 single array dimension

---
 backends/open62541/src/import.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index afc7520..6cf883d 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -385,7 +385,8 @@ static UA_StatusCode handleVariableTypeNode(const NL_VariableTypeNode *node, UA_
     attr.arrayDimensionsSize =
         getArrayDimensions(node->arrayDimensions, &arrDims);
     attr.arrayDimensions = arrDims;
-    if (attr.arrayDimensionsSize == 0 && attr.valueRank >= 0)
+    // otherwise the number of dimensions would differ from the value rank
+    if (attr.arrayDimensionsSize == 0 && attr.valueRank == 1)
     {
         attr.arrayDimensionsSize = 1;
         attr.arrayDimensions = &anyLength;
-- 
2.43.0


From 7bd8435efa9e9f2e29d677ce8ff2caf864bf305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:26 +0000
Subject: [PATCH 60/67] fix: parserDemo passes an uninitialized extension
 interface to the loader

---
 backends/stdout/examples/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/backends/stdout/examples/main.c b/backends/stdout/examples/main.c
index 7199fc4..9ca3d53 100644
--- a/backends/stdout/examples/main.c
+++ b/backends/stdout/examples/main.c
@@ -19,6 +19,7 @@ int main(int argc, char *argv[])
 
     int maxValueRank = -1;
     NL_FileContext handler;
+    memset(&handler, 0, sizeof(handler));
     handler.addNamespace = addNamespace;
     handler.userContext = &maxValueRank;
 
-- 
2.43.0


From a51c66765ea9a6e56f005d257a9aed315014d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:27 +0000
Subject: [PATCH 61/67] fix: parserDemo prints the value rank as array
 dimensions

---
 backends/stdout/examples/dump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backends/stdout/examples/dump.c b/backends/stdout/examples/dump.c
index dfd80a7..85b4d81 100644
--- a/backends/stdout/examples/dump.c
+++ b/backends/stdout/examples/dump.c
@@ -39,7 +39,7 @@ void dumpNode(void *userContext, const NL_Node *node)
         printf("\tdatatype: %s\n", printId(&((const NL_VariableNode *)node)->datatype));
         printf("\tvalueRank: %s\n", ((const NL_VariableNode *)node)->valueRank);
         printf("\tarrayDimensions: %s\n",
-               ((const NL_VariableNode *)node)->valueRank);
+               ((const NL_VariableNode *)node)->arrayDimensions);
         printf("\tminimumSamplingInterval: %s\n",
                ((const NL_VariableNode *)node)->minimumSamplingInterval);
         break;
-- 
2.43.0


From f8eada01bd8932389be57aa4b5b07859a227c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:27 +0000
Subject: [PATCH 62/67] fix: parserDemo gives all namespaces the same index

---
 backends/stdout/examples/dump.c | 34 ++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/backends/stdout/examples/dump.c b/backends/stdout/examples/dump.c
index 85b4d81..b188dfd 100644
--- a/backends/stdout/examples/dump.c
+++ b/backends/stdout/examples/dump.c
@@ -6,6 +6,8 @@
  */
 
 #include "backend.h"
+#include <stdlib.h>
+#include <string.h>
 
 char nodeidDump[256];
 static char *
@@ -20,7 +22,37 @@ printId(const UA_NodeId *id) {
     return nodeidDump;
 }
 
-unsigned short addNamespace(void *userContext, const char *uri) { return 1; }
+unsigned short addNamespace(void *userContext, const char *uri)
+{
+    // there is no server, the namespaces are numbered as they appear
+    static char **uris = NULL;
+    static unsigned short urisSize = 0;
+    if (!uri)
+    {
+        uri = "";
+    }
+    if (!strcmp(uri, "http://opcfoundation.org/UA/"))
+    {
+        return 0;
+    }
+    for (unsigned short i = 0; i < urisSize; i++)
+    {
+        if (!strcmp(uris[i], uri))
+        {
+            return (unsigned short)(i + 1);
+        }
+    }
+    char **newUris =
+        (char **)realloc(uris, ((size_t)urisSize + 1) * sizeof(char *));
+    char *newUri = (char *)calloc(strlen(uri) + 1, sizeof(char));
+    if (!newUris || !newUri)
+    {
+        abort();
+    }
+    uris = newUris;
+    uris[urisSize] = strcpy(newUri, uri);
+    return ++urisSize;
+}
 
 void dumpNode(void *userContext, const NL_Node *node)
 {
-- 
2.43.0


From 81511a7d97e15ebefa18fadb194687c992f42b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:27 +0000
Subject: [PATCH 63/67] fix: parserDemo reports success for nodesets that
 cannot be sorted

---
 backends/stdout/examples/main.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/backends/stdout/examples/main.c b/backends/stdout/examples/main.c
index 9ca3d53..35ef4aa 100644
--- a/backends/stdout/examples/main.c
+++ b/backends/stdout/examples/main.c
@@ -31,11 +31,17 @@ int main(int argc, char *argv[])
         if (!NodesetLoader_importFile(loader, &handler))
         {
             printf("nodeset could not be loaded, exit\n");
+            NodesetLoader_delete(loader);
             return 1;
         }
     }
 
-    NodesetLoader_sort(loader);
+    if (!NodesetLoader_sort(loader))
+    {
+        printf("nodeset could not be sorted, exit\n");
+        NodesetLoader_delete(loader);
+        return 1;
+    }
 
     for (int i = 0; i < NL_NODECLASS_COUNT; i++)
     {
-- 
2.43.0


From 469ac12822e5eb27fb7b84fab791eb6bc89be55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:28 +0000
Subject: [PATCH 64/67] Revert the four changes to the stdout example: examples
 are left as they are

---
 backends/stdout/examples/dump.c | 36 ++-------------------------------
 backends/stdout/examples/main.c |  9 +--------
 2 files changed, 3 insertions(+), 42 deletions(-)

diff --git a/backends/stdout/examples/dump.c b/backends/stdout/examples/dump.c
index b188dfd..dfd80a7 100644
--- a/backends/stdout/examples/dump.c
+++ b/backends/stdout/examples/dump.c
@@ -6,8 +6,6 @@
  */
 
 #include "backend.h"
-#include <stdlib.h>
-#include <string.h>
 
 char nodeidDump[256];
 static char *
@@ -22,37 +20,7 @@ printId(const UA_NodeId *id) {
     return nodeidDump;
 }
 
-unsigned short addNamespace(void *userContext, const char *uri)
-{
-    // there is no server, the namespaces are numbered as they appear
-    static char **uris = NULL;
-    static unsigned short urisSize = 0;
-    if (!uri)
-    {
-        uri = "";
-    }
-    if (!strcmp(uri, "http://opcfoundation.org/UA/"))
-    {
-        return 0;
-    }
-    for (unsigned short i = 0; i < urisSize; i++)
-    {
-        if (!strcmp(uris[i], uri))
-        {
-            return (unsigned short)(i + 1);
-        }
-    }
-    char **newUris =
-        (char **)realloc(uris, ((size_t)urisSize + 1) * sizeof(char *));
-    char *newUri = (char *)calloc(strlen(uri) + 1, sizeof(char));
-    if (!newUris || !newUri)
-    {
-        abort();
-    }
-    uris = newUris;
-    uris[urisSize] = strcpy(newUri, uri);
-    return ++urisSize;
-}
+unsigned short addNamespace(void *userContext, const char *uri) { return 1; }
 
 void dumpNode(void *userContext, const NL_Node *node)
 {
@@ -71,7 +39,7 @@ void dumpNode(void *userContext, const NL_Node *node)
         printf("\tdatatype: %s\n", printId(&((const NL_VariableNode *)node)->datatype));
         printf("\tvalueRank: %s\n", ((const NL_VariableNode *)node)->valueRank);
         printf("\tarrayDimensions: %s\n",
-               ((const NL_VariableNode *)node)->arrayDimensions);
+               ((const NL_VariableNode *)node)->valueRank);
         printf("\tminimumSamplingInterval: %s\n",
                ((const NL_VariableNode *)node)->minimumSamplingInterval);
         break;
diff --git a/backends/stdout/examples/main.c b/backends/stdout/examples/main.c
index 35ef4aa..7199fc4 100644
--- a/backends/stdout/examples/main.c
+++ b/backends/stdout/examples/main.c
@@ -19,7 +19,6 @@ int main(int argc, char *argv[])
 
     int maxValueRank = -1;
     NL_FileContext handler;
-    memset(&handler, 0, sizeof(handler));
     handler.addNamespace = addNamespace;
     handler.userContext = &maxValueRank;
 
@@ -31,17 +30,11 @@ int main(int argc, char *argv[])
         if (!NodesetLoader_importFile(loader, &handler))
         {
             printf("nodeset could not be loaded, exit\n");
-            NodesetLoader_delete(loader);
             return 1;
         }
     }
 
-    if (!NodesetLoader_sort(loader))
-    {
-        printf("nodeset could not be sorted, exit\n");
-        NodesetLoader_delete(loader);
-        return 1;
-    }
+    NodesetLoader_sort(loader);
 
     for (int i = 0; i < NL_NODECLASS_COUNT; i++)
     {
-- 
2.43.0


From 4faa0085a81654886a8f3062e77f573bcf65ccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:27 +0000
Subject: [PATCH 65/67] fix: a value element behind a list is read as an array
 of garbage size

(cherry picked from commit a1b80942fe8087bc0e1e69deb3f527e81e96d69e)
---
 src/Value.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Value.c b/src/Value.c
index 41c0fd4..0c046db 100644
--- a/src/Value.c
+++ b/src/Value.c
@@ -30,6 +30,7 @@ static void Data_clear(NL_Data *data);
 static void setRootData(NL_Value *val, NL_Data *data)
 {
     Data_clear(val->data);
+    val->isArray = false;
     val->data = data;
     val->ctx->currentData = data;
 }
@@ -60,8 +61,8 @@ void Value_start(NL_Value *val, const char *name)
         if (!strncmp(name, "ListOf", strlen("ListOf")))
         {
             val->ctx->state = PARSERSTATE_LISTOF;
-            val->isArray = true;
             setRootData(val, newData(name, DATATYPE_COMPLEX));
+            val->isArray = true;
         }
         else if (!strcmp(name, "ExtensionObject"))
         {
-- 
2.43.0


From bbe963c57f86a2084f739ac73c2b62dd4f4c381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:28 +0000
Subject: [PATCH 66/67] fix: a data type field without name crashes the import
 of data types

(cherry picked from commit 1e97c125399f6983bea96402dfb05632f9e3c932)
---
 backends/open62541/src/DataTypeImporter.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index ae5434a..67983d6 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -476,10 +476,13 @@ static void addDataTypeMembers(UA_DataType *type, const NL_DataTypeNode *node)
     {
         UA_DataTypeMember *member = type->members + i;
         member->isArray = node->definition->fields[i].valueRank >= 0;
-        char *memberNameCopy = (char *)UA_calloc(
-            strlen(node->definition->fields[i].name) + 1, sizeof(char));
-        memcpy(memberNameCopy, node->definition->fields[i].name,
-               strlen(node->definition->fields[i].name));
+        // the name can be missing
+        const char *name = node->definition->fields[i].name
+                               ? node->definition->fields[i].name
+                               : "";
+        char *memberNameCopy =
+            (char *)UA_calloc(strlen(name) + 1, sizeof(char));
+        memcpy(memberNameCopy, name, strlen(name));
         member->memberName = memberNameCopy;
         member->isOptional = node->definition->fields[i].isOptional;
         if (member->isOptional)
-- 
2.43.0


From eba9312eaecb28a80d8d5ac1fad6285abc04b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:46 +0000
Subject: [PATCH 67/67] fix: the first declaration of an id is kept even if it
 waits for a reference type

---
 src/Nodeset.c |  9 +++++++--
 src/Sort.c    | 16 ++++++++++++++++
 src/Sort.h    |  2 ++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 8e5dcfc..da9d452 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -554,12 +554,17 @@ void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
     }
     else
     {
+        // the node is added later on, but it is the one declared first
+        bool isFirst = Sort_reserveNode(nodeset->sortCtx, node);
         if (node->nodeClass == NODECLASS_REFERENCETYPE)
         {
             // the references to the supertypes decide about the kind of the
             // reference type, it can be announced with others still unknown
-            nodeset->refService->addNewReferenceType(
-                nodeset->refService->context, (NL_ReferenceTypeNode *)node);
+            if (isFirst)
+            {
+                nodeset->refService->addNewReferenceType(
+                    nodeset->refService->context, (NL_ReferenceTypeNode *)node);
+            }
             NodeContainer_add(nodeset->refTypesWithUnknownRefs, node);
         }
         else
diff --git a/src/Sort.c b/src/Sort.c
index c7e1cc9..5cdea37 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -33,6 +33,7 @@ struct S_Node
     struct S_Edge *edges;
     size_t edgeCount;
     NL_Node *data;
+    bool reserved;
     bool emitted;
     struct S_Node *nextChild;
 };
@@ -288,10 +289,25 @@ void Sort_cleanup(SortContext *ctx)
     free(ctx);
 }
 
+bool Sort_reserveNode(SortContext *ctx, NL_Node *data) {
+    S_Node *j = search_node(ctx->root1, &data->id);
+    if (j->data != NULL)
+        return false;
+    j->data = data;
+    j->reserved = true;
+    return true;
+}
+
 bool Sort_addNode(SortContext *ctx, NL_Node *data) {
     S_Node *j = NULL;
     // add node, no matter if there are references on it
     j = search_node(ctx->root1, &data->id);
+    // the id was kept for this node
+    if(j->reserved && j->data == data)
+    {
+        j->data = NULL;
+        j->reserved = false;
+    }
     // entry already exists
     if(j->data!=NULL)
     {
diff --git a/src/Sort.h b/src/Sort.h
index 047172f..4717049 100644
--- a/src/Sort.h
+++ b/src/Sort.h
@@ -22,6 +22,8 @@ struct NodesetLoader_Logger;
 typedef struct SortContext SortContext;
 SortContext* Sort_init(void);
 void Sort_cleanup(SortContext * ctx);
+// the id belongs to this node if no other one has it, the node is added later
+bool Sort_reserveNode(SortContext* ctx, struct NL_Node *node);
 bool Sort_addNode(SortContext* ctx, struct NL_Node *node);
 typedef void (*Sort_SortedNodeCallback)(struct Nodeset *nodeset, struct NL_Node *node);
 bool Sort_start(SortContext* ctx, struct Nodeset *nodeset, Sort_SortedNodeCallback callback, struct NodesetLoader_Logger* logger);
-- 
2.43.0


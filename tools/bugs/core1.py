bug("arena-move-size", "P01", "After an extension had to move the newest block to a new region, the region's fill level is taken from the extension instead of the moved block, so a later block overlaps it",
 "an extension that does not fit the region, followed by another allocation",
 [("src/CharAllocator.c", "newRegion->size = newRegion->userSize;", "newRegion->size = size;")],
 r'''
#include "CharAllocator.h"
int demo(void) {
    CharArenaAllocator *a = CharArenaAllocator_new(16);
    char *p = CharArenaAllocator_malloc(a, 12);
    memset(p, 'a', 12);
    p = CharArenaAllocator_realloc(a, 6);
    CHECK(p && p[11] == 'a');
    memset(p, 'a', 18);
    char *q = CharArenaAllocator_malloc(a, 4);
    CHECK(q);
    memset(q, 'b', 4);
    for(int i = 0; i < 18; i++) CHECK(p[i] == 'a');
    CharArenaAllocator_delete(a);
    return 0;
}''')
bug("arena-extend-older", "P01", "The start of the newest block is only recorded when a region is opened, so extending a later block of the same region returns an older one",
 "a second block in the same region that is extended",
 [("src/CharAllocator.c", "    arena->current->userPtr = arena->current->mem + arena->current->size;\n    arena->current->size += size;", "    char *block = arena->current->mem + arena->current->size;\n    if (arena->current->size + size != arena->current->capacity)\n    {\n        arena->current->userPtr = block;\n    }\n    arena->current->size += size;"),
  ("src/CharAllocator.c", "    arena->current->userSize = size;\n    return arena->current->userPtr;", "    arena->current->userSize = size;\n    return block;")],
 r'''
#include "CharAllocator.h"
int demo(void) {
    CharArenaAllocator *a = CharArenaAllocator_new(16);
    char *p = CharArenaAllocator_malloc(a, 8);
    memset(p, 'a', 8);
    char *q = CharArenaAllocator_malloc(a, 8);
    memset(q, 'b', 8);
    q = CharArenaAllocator_realloc(a, 4);
    for(int i = 0; i < 8; i++) CHECK(q[i] == 'b');
    for(int i = 0; i < 8; i++) CHECK(p[i] == 'a');
    CharArenaAllocator_delete(a);
    return 0;
}''')
bug("arena-oom-old-block", "P02", "When no new region can be allocated a request returns the previous block instead of reporting failure",
 "a failing memory allocation while a new region is needed",
 [("src/CharAllocator.c", "        if (!newRegion)\n        {\n            return NULL;\n        }\n        newRegion->next = arena->current;\n        arena->current = newRegion;\n    }\n    arena->current->userPtr", "        if (!newRegion)\n        {\n            return arena->current->userPtr;\n        }\n        newRegion->next = arena->current;\n        arena->current = newRegion;\n    }\n    arena->current->userPtr")],
 r'''
#include "CharAllocator.h"
int demo(void) {
    CharArenaAllocator *a = CharArenaAllocator_new(16);
    char *p = CharArenaAllocator_malloc(a, 8);
    CHECK(p);
    char *q = CharArenaAllocator_malloc(a, (size_t)1 << 62);
    CHECK(q == NULL);
    q = CharArenaAllocator_malloc(a, 8);
    CHECK(q && q != p);
    CharArenaAllocator_delete(a);
    return 0;
}''')
bug("arena-slack", "P02", "Requests slightly larger than the initial region get a region of the initial size",
 "a request that exceeds the initial size by up to 64 bytes",
 [("src/CharAllocator.c", "if (requested > initialArenaSize)", "if (requested > initialArenaSize + 64)")],
 r'''
#include "CharAllocator.h"
int demo(void) {
    CharArenaAllocator *a = CharArenaAllocator_new(300);
    char *p = CharArenaAllocator_malloc(a, 340);
    CHECK(p);
    memset(p, 'a', 340);
    CharArenaAllocator_delete(a);
    return 0;
}''')
bug("sort-forward-declared", "P03", "A forward hierarchical reference to a node that was declared before is not taken into account by the sorting",
 "a forward reference to a node declared earlier with a smaller id",
 [("src/Sort.c", "                record_relation(j, k);\n            }\n            hierachicalRef", "                record_relation(k->data ? k : j, k);\n            }\n            hierachicalRef")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 NODE("UAObject", "ns=1;i=1", "") NODE("UAObject", "ns=1;i=2", REF("i=47", "true", "ns=1;i=1")) TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    CHECK(nNodes == 2 && pos(5, 2) < pos(5, 1));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("sort-view-parent", "P03", "The parent attribute of views is not used for the order",
 "a view that declares only a parent attribute, with a parent of the same class",
 [("src/nodes/InstanceNode.c", "        baseNode->nodeClass == NODECLASS_METHOD ||\n        baseNode->nodeClass == NODECLASS_VIEW)", "        baseNode->nodeClass == NODECLASS_METHOD)")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UAView NodeId=\"ns=1;i=1\" BrowseName=\"1:a\" ParentNodeId=\"ns=1;i=2\"/>" NODE("UAView", "ns=1;i=2", "") TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    CHECK(nNodes == 2 && pos(5, 2) < pos(5, 1));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("sort-avl-lost", "P03", "A double rotation of the id tree forgets a subtree, so nodes are lost",
 "ids declared in an order that makes the tree rotate twice with a non-trivial middle subtree",
 [("src/Sort.c", "                            r->right = p->left;\n", "                            r->right = NULL;\n")],
 r'''
int demo(void) {
    /* every order of six ids */
    int p[6] = {1, 2, 3, 4, 5, 6}, c[6] = {0};
    for(int n = 0; n < 720; n++) {
        char xml[4096] = HEAD NS1, b[200];
        for(int i = 0; i < 6; i++) { snprintf(b, sizeof b, "<UAObject NodeId=\"ns=1;i=%d\" BrowseName=\"1:a\"/>", p[i]); strcat(xml, b); }
        strcat(xml, TAIL);
        nsCount = 0;
        NodesetLoader *l = NodesetLoader_new(&logger, NULL);
        CHECK(load(l, xml));
        CHECK(NodesetLoader_sort(l));
        collect(l);
        CHECK(nNodes == 6);
        for(int i = 1; i <= 6; i++) CHECK(num(5, i));
        NodesetLoader_delete(l);
        for(int i = 5; i > 0; i--) { /* next permutation */ }
        int i = 4; while(i >= 0 && p[i] > p[i + 1]) i--;
        if(i < 0) break;
        int j = 5; while(p[j] < p[i]) j--;
        int t = p[i]; p[i] = p[j]; p[j] = t;
        for(int a = i + 1, z = 5; a < z; a++, z--) { t = p[a]; p[a] = p[z]; p[z] = t; }
    }
    return 0;
}''')
bug("cycle-dup-edge", "P04", "Of two parallel edges between the same nodes only one is released, so acyclic graphs with parallel references are rejected",
 "two hierarchical references between the same two nodes",
 [("src/Sort.c", "    to->edgeCount++;\n", "    to->edgeCount++;\n    if (from->edges && from->edges->dest == to)\n    {\n        free(e);\n        return;\n    }\n")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 NODE("UAObject", "ns=1;i=1", REF("i=47", "true", "ns=1;i=2") REF("i=46", "true", "ns=1;i=2")) NODE("UAObject", "ns=1;i=2", "") TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    CHECK(nNodes == 2);
    NodesetLoader_delete(l);
    return 0;
}''')
bug("cycle-two-files", "P04", "A graph whose only remaining nodes form a cycle of two is accepted",
 "a cycle of exactly two nodes left at the end",
 [("src/Sort.c", "        if (ctx->keyCnt > 0)\n        {\n            if (logger)", "        if (ctx->keyCnt == 2)\n        {\n            break;\n        }\n        if (ctx->keyCnt > 0)\n        {\n            if (logger)")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 NODE("UAObject", "ns=1;i=1", REF("i=47", "false", "ns=1;i=2")) NODE("UAObject", "ns=1;i=2", REF("i=47", "false", "ns=1;i=1")) TAIL));
    CHECK(!NodesetLoader_sort(l));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("dup-last-wins", "P05", "A later declaration with the same id and the same class replaces the first one",
 "two declarations of one id with the same class but different attributes",
 [("src/Sort.c", "    if(j->data!=NULL)\n    {\n        return false;", "    if(j->data!=NULL)\n    {\n        if(j->data->nodeClass == data->nodeClass && !data->hierachicalRefs)\n            j->data = data;\n        return false;")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:first\"/><UAObject NodeId=\"ns=1;i=2\" BrowseName=\"1:x\"/><UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:second\"/>" TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    CHECK(nNodes == 2 && !strcmp(num(5, 1)->browseName.name, "first"));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("unknown-first-only", "P06", "Sorting only complains about an unresolvable reference type if it is the last one written at a node",
 "a node with an unresolvable reference followed by a resolvable custom one",
 [("src/Nodeset.c", "            node->unknownRefs = nextUnknown;\n            continue;\n        }\n        return false;\n    }", "            node->unknownRefs = nextUnknown;\n            continue;\n        }\n        return node->hierachicalRefs != NULL && node->nonHierachicalRefs != NULL;\n    }")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 NODE("UAObject", "ns=1;i=1", REF("i=47", "false", "i=85") REF("i=41", "true", "i=86") REF("ns=1;i=99", "true", "i=87")) TAIL));
    CHECK(!NodesetLoader_sort(l));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("subtype-forward", "P07", "A custom reference type also counts as hierarchical if it only points forward to a hierarchical type",
 "a non-hierarchical custom type with a forward hierarchical reference to a hierarchical type",
 [("src/InternalRefService.c", "        if (!ref->isForward) {", "        if (!ref->isForward || ref->target.namespaceIndex == 0) {")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 NODE("UAReferenceType", "ns=1;i=10", REF("i=45", "false", "i=32") REF("i=46", "true", "i=47"))
        NODE("UAObject", "ns=1;i=1", REF("ns=1;i=10", "true", "i=85")) TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    NL_Node *n = num(5, 1);
    CHECK(n && countRefs(n->hierachicalRefs) == 0 && countRefs(n->nonHierachicalRefs) == 1);
    NodesetLoader_delete(l);
    return 0;
}''')
bug("subtype-second-level", "P07", "Only reference types derived directly from a standard type are added to the hierarchical ones",
 "a custom type derived from another custom hierarchical type",
 [("src/InternalRefService.c", "if (UA_NodeId_equal(&service->hierachicalRefs[i].id, &ref->target)) {", "if (UA_NodeId_equal(&service->hierachicalRefs[i].id, &ref->target) &&\n                    ref->target.namespaceIndex < node->id.namespaceIndex) {")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 NODE("UAReferenceType", "ns=1;i=10", REF("i=45", "false", "i=47")) NODE("UAReferenceType", "ns=1;i=11", REF("i=45", "false", "ns=1;i=10"))
        NODE("UAObject", "ns=1;i=1", REF("ns=1;i=11", "false", "i=85")) TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    NL_Node *n = num(5, 1);
    CHECK(n && countRefs(n->hierachicalRefs) == 1 && countRefs(n->nonHierachicalRefs) == 0);
    NodesetLoader_delete(l);
    return 0;
}''')

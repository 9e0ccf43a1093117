bb("bv-qn-no-name", "P28", "The namespace index of QualifiedName values without a name is not translated",
 "a QualifiedName value with NamespaceIndex but no Name",
 [(V, "    // Translate namespace index\n    ((UA_QualifiedName*)adr)->namespaceIndex = \n", "    // Translate namespace index\n    if (((UA_QualifiedName*)adr)->name.length > 0 || !lookupMember(value, \"NamespaceIndex\") || lookupMember(value, \"Name\"))\n    ((UA_QualifiedName*)adr)->namespaceIndex =\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(((const UA_QualifiedName *)val(a)->data)->namespaceIndex == A); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 VAR("ns=1;i=5", "i=20", "-1", "<QualifiedName><NamespaceIndex>1</NamespaceIndex></QualifiedName>") TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bt-depth", "P33", "Enumerations more than three levels below Enumeration are not recognized",
 "an enumeration type derived over four levels, and a value of it",
 [(I, "    while (!isKnownParent(current))\n", "    for (int depth = 0; depth < 4 && !isKnownParent(current); depth++)\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(val(a)->type && val(a)->type->typeKind == UA_DATATYPEKIND_ENUM && *(const UA_Int32 *)val(a)->data == 3); }
int demo(void) {
    watch(9, f);
    CHECK(bload(HEAD NS1 DT("ns=1;i=1", "E", "i=29", "") DT("ns=1;i=2", "F", "ns=1;i=1", "") DT("ns=1;i=3", "G", "ns=1;i=2", "") DT("ns=1;i=4", "H", "ns=1;i=3", "") DT("ns=1;i=5", "I", "ns=1;i=4", "")
        VAR("ns=1;i=9", "ns=1;i=5", "-1", "<I>x_3</I>") TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bv-member-case", "P30", "Members whose names differ in upper and lower case only are mixed up",
 "a structure with members a and A, written in the other order",
 [(V, "        if (!strcmp(value->val.complexData.members[cnt]->name, name))\n", "        if (!strcasecmp(value->val.complexData.members[cnt]->name, name))\n"), (V, "#include \"Value.h\"\n", "#include <strings.h>\n#include \"Value.h\"\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { const UA_Int32 *s = (const UA_Int32 *)val(a)->data; CHECK(s && s[0] == 1 && s[1] == 2); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", "S", "i=22", DEF("S", FIELD("a", "i=6") FIELD("A", "i=6")))
        VAR("ns=1;i=5", "ns=1;i=2", "-1", EXT("i=9", "S", "<A>2</A><a>1</a>")) TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bv-optional-array", "P31", "Optional array members of a value are treated like optional scalars",
 "a value of a structure with an optional array member that is written",
 [(V, "        if (m->isArray)\n", "        if (m->isArray && !m->isOptional)\n")],
 CATCH + r'''
struct S { size_t n; UA_Int32 *a; UA_Int32 x; };
static void f(const struct VfAdd *a) { const struct S *s = (const struct S *)val(a)->data; CHECK(s && s->n == 2 && s->a && s->a[0] == 1 && s->a[1] == 2 && s->x == 3); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", "S", "i=22", DEF("S", "<Field Name=\"L\" DataType=\"i=6\" ValueRank=\"1\" IsOptional=\"true\"/>" FIELD("X", "i=6")))
        VAR("ns=1;i=5", "ns=1;i=2", "-1", EXT("i=9", "S", "<L><Int32>1</Int32><Int32>2</Int32></L><X>3</X>")) TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bv-raw-list", "P43", "Memory of values with several array members is lost",
 "a structure value with three array members",
 [(V, "        while (old->next)\n", "        if (old->next)\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(val(a)->data); }
#define ARR(n) "<Field Name=\"" n "\" DataType=\"i=6\" ValueRank=\"1\"/>"
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", "S", "i=22", DEF("S", ARR("A") ARR("B") ARR("C") ARR("D")))
        VAR("ns=1;i=5", "ns=1;i=2", "-1", EXT("i=9", "S", "<A><Int32>1</Int32></A><B><Int32>1</Int32></B><C><Int32>1</Int32></C><D><Int32>1</Int32></D>")) TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bt-long-name", "P33", "Names of data types are cut after 64 bytes",
 "a data type whose browse name is longer than 64 bytes",
 [(D, "        size_t len = strlen(node->browseName.name);\n", "        size_t len = strlen(node->browseName.name);\n        len = len > 64 ? 64 : len;\n")],
 r'''
#define LONG "ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZ"
int demo(void) {
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", LONG, "i=22", "") TAIL));
    UA_NodeId id = N(A, 2);
    const UA_DataType *t = NodesetLoader_getCustomDataType(&vf_server, &id);
    CHECK(t && strcmp(t->typeName, LONG) == 0);
    done();
    return 0;
}''')
bb("bt-kind-union-parent", "P33", "A union without own definition derived from another union is a structure of no members",
 "a union that is derived from another union",
 [(D, "            type->memSize = parentType->memSize;\n", "            type->memSize = parentType->memSize;\n            if (type->typeKind == UA_DATATYPEKIND_UNION)\n                type->typeKind = parentType->typeKind == UA_DATATYPEKIND_UNION ? UA_DATATYPEKIND_STRUCTURE : type->typeKind;\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", "U", "i=12756", "<Definition Name=\"U\" IsUnion=\"true\">" FIELD("A", "i=6") "</Definition>") DT("ns=1;i=3", "W", "ns=1;i=2", "<Definition Name=\"W\" IsUnion=\"true\">" FIELD("B", "i=6") "</Definition>") TAIL));
    UA_NodeId id = N(A, 3);
    const UA_DataType *t = NodesetLoader_getCustomDataType(&vf_server, &id);
    CHECK(t && t->typeKind == UA_DATATYPEKIND_UNION && t->membersSize == 2);
    done();
    return 0;
}''')
bb("ba-third-dimension", "P35", "Only the first two array dimensions are transferred",
 "a variable with three ArrayDimensions",
 [(I, "    while (subString != NULL)\n", "    while (subString != NULL && arrSize < 2)\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { const UA_VariableAttributes *v = (const UA_VariableAttributes *)a->attr; CHECK(v->arrayDimensionsSize == 3 && v->arrayDimensions[2] == 4); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 "<UAVariable NodeId=\"ns=1;i=5\" BrowseName=\"1:v\" DataType=\"i=6\" ValueRank=\"3\" ArrayDimensions=\"2,3,4\"><References>" REF("i=47", "false", "i=85") "</References></UAVariable>" TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("ba-event-bits", "P35", "Only the first bit of the event notifier of views is transferred",
 "a view with the history bits in EventNotifier",
 [(I, "    attr.eventNotifier = (UA_Byte)atoi(node->eventNotifier);\n", "    attr.eventNotifier = isValTrue(node->eventNotifier);\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(((const UA_ViewAttributes *)a->attr)->eventNotifier == 5); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 "<UAView NodeId=\"ns=1;i=5\" BrowseName=\"1:v\" EventNotifier=\"5\"><References>" REF("i=35", "false", "i=87") "</References></UAView>" TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("ba-rank2-dims", "P35", "Variables with ValueRank 2 and no ArrayDimensions get one dimension",
 "a matrix variable without ArrayDimensions",
 [(I, "    if (attr.arrayDimensions == NULL && attr.valueRank == 1)\n", "    if (attr.arrayDimensions == NULL && attr.valueRank >= 1)\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { const UA_VariableAttributes *v = (const UA_VariableAttributes *)a->attr; CHECK(v->arrayDimensionsSize == 0); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 "<UAVariable NodeId=\"ns=1;i=5\" BrowseName=\"1:v\" DataType=\"i=6\" ValueRank=\"2\"><References>" REF("i=47", "false", "i=85") "</References></UAVariable>" TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bp-typedef-method-kid", "P36", "Objects below a method lose their type definition",
 "an object whose reference to its parent is HasComponent and whose type definition is in the first namespace of the file",
 [(I, "        typeDefId = node->refToTypeDef->target;\n    }\n\n    // addNode_begin", "        typeDefId = node->refToTypeDef->isForward ? node->refToTypeDef->target : typeDefId;\n        if (typeDefId.namespaceIndex == id->namespaceIndex && typeDefId.identifierType == UA_NODEIDTYPE_STRING)\n            typeDefId = UA_NODEID_NULL;\n    }\n\n    // addNode_begin")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(a->typeDef->identifierType == UA_NODEIDTYPE_STRING && strEq(&a->typeDef->identifier.string, "T")); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 NODE("UAObjectType", "ns=1;s=T", REF("i=45", "false", "i=58")) NODE("UAObject", "ns=1;i=5", REF("i=47", "false", "i=85") REF("i=40", "true", "ns=1;s=T")) TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("br-view-refs", "P37", "The references of views are not added",
 "a view with a further reference",
 [(I, "    NodeContainer_delete(badStatusNodes);\n\n    for (size_t i = 0; i < NL_NODECLASS_COUNT; i++)\n", "    NodeContainer_delete(badStatusNodes);\n\n    for (size_t i = 0; i + 1 < NL_NODECLASS_COUNT; i++)\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 "<UAView NodeId=\"ns=1;i=5\" BrowseName=\"1:v\"><References>" REF("i=35", "false", "i=87") REF("i=35", "true", "i=85") "</References></UAView>" TAIL));
    CHECK(refs(A, 5, 35, 0, 85, 1));
    done();
    return 0;
}''')
bb("br-local-first", "P37", "References to nodes of namespace 0 with an identifier above 20000 are dropped",
 "a non-hierarchical reference to such a node",
 [(I, "        UA_Server_addReference(server, src, refType, target, ref->isForward);\n        ref = ref->next;\n    }\n    // brute force", "        if (target.nodeId.namespaceIndex != 0 || target.nodeId.identifierType != UA_NODEIDTYPE_NUMERIC || target.nodeId.identifier.numeric < 20000)\n        UA_Server_addReference(server, src, refType, target, ref->isForward);\n        ref = ref->next;\n    }\n    // brute force")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 NODE("UAObject", "ns=1;i=5", REF("i=47", "false", "i=85") REF("i=41", "true", "i=20998")) TAIL));
    CHECK(refs(A, 5, 41, 0, 20998, 1));
    done();
    return 0;
}''')
bb("bh-typedef-sub", "P38", "A reference type derived from HasTypeDefinition at the server is not recognized",
 "a second file whose object gives its type by a reference type of the first file",
 [(RS, "    getRefs(server, impl, hasTypeDefRoot, addToHasTypeDefRefs);\n", "    (void)addToHasTypeDefRefs;\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 NODE("UAReferenceType", "ns=1;i=1", REF("i=45", "false", "i=40")) TAIL));
    CHECK(bload(HEAD NS1 NODE("UAObject", "ns=1;i=5", REF("i=47", "false", "i=85") REF("ns=1;i=1", "true", "i=61")) TAIL));
    int k = srv(A, 5);
    CHECK(k >= 0 && isN(&vf_srvNodes[k].typeDef, 0, 61));
    done();
    return 0;
}''')
bb("bf-unknown-accepted", "P40", "Unknown reference types of namespace 0 count as ordinary references",
 "a file that uses a reference type i=30001 that does not exist",
 [(RS, "    return isInContainer(service->nonHierachicalRefs, ref);\n", "    return isInContainer(service->nonHierachicalRefs, ref) ||\n           (ref->refType.namespaceIndex == 0 && ref->refType.identifier.numeric > 20000);\n")],
 r'''
int demo(void) {
    CHECK(!bload(HEAD NS1 NODE("UAObject", "ns=1;i=5", REF("i=47", "false", "i=85") REF("i=30001", "true", "i=61")) TAIL));
    CHECK(srv(A, 5) < 0);
    done();
    return 0;
}''')
bb("bf-log-level", "P40", "Errors are logged as warnings",
 "any failing load, looking at the level in the server's log",
 [(I, "        uaLevel = UA_LOGLEVEL_ERROR;\n", "        uaLevel = UA_LOGLEVEL_WARNING;\n")],
 r'''
int demo(void) {
    CHECK(!bload(HEAD NS1 "<UAObject NodeId="));
    CHECK(vf_srvLog.n[2] > 0);
    done();
    return 0;
}''')
bb("bm-lost-behind", "P41", "A refused node is lost if the node behind it is refused for good",
 "two refused nodes of which the second one is never accepted",
 [(I, "        for (size_t counter = 0; counter < (*badStatusNodes)->size; counter++)\n", "        for (size_t counter = (*badStatusNodes)->size > 1 && attempt > 1 ? 1 : 0; counter < (*badStatusNodes)->size; counter++)\n")],
 r'''
static int refuse;
static int may(const struct VfAdd *a) { return isN(a->id, A, 6) ? 0 : !(isN(a->id, A, 5) && refuse-- > 0); }
int demo(void) {
    refuse = 3; vf_mayAdd = may;
    CHECK(bload(HEAD NS1 NODE("UAObject", "ns=1;i=6", REF("i=47", "false", "i=85")) NODE("UAObject", "ns=1;i=5", REF("i=47", "false", "i=85")) TAIL));
    CHECK(srv(A, 5) >= 0 && srv(A, 6) < 0);
    done();
    return 0;
}''')
bb("bu-supertype-other-file", "P42", "Structures do not inherit the members of a supertype from an earlier file",
 "two files, the second with a structure derived from one of the first",
 [(D, "            getDataType(&parent, importer->types, NULL);\n", "            getDataType(&parent, importer->types, NULL);\n        if (parentType && (parentType < importer->types->types || parentType >= importer->types->types + importer->types->typesSize) && parent.namespaceIndex != 0)\n            parentType = NULL;\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", "P", "i=22", DEF("P", FIELD("A", "i=3"))) TAIL));
    CHECK(bload(HEAD NS1 DT("ns=1;i=3", "S", "ns=1;i=2", DEF("S", FIELD("B", "i=6"))) TAIL));
    UA_NodeId id = N(A, 3);
    const UA_DataType *t = NodesetLoader_getCustomDataType(&vf_server, &id);
    CHECK(t && t->membersSize == 2);
    done();
    return 0;
}''')
bb("bb-plus", "P27", "The base64 digit for 62 is decoded as 60",
 "a ByteString whose text contains a plus sign",
 [("backends/open62541/src/nodeset_base64.h", "    0,  0,  0,  62, 0,  0,  0,  63, 52, 53, // 50\n", "    0,  0,  0,  60, 0,  0,  0,  63, 52, 53, // 50\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { const UA_String *s = (const UA_String *)val(a)->data; CHECK(s->length == 3 && s->data[0] == 0xFB && s->data[1] == 0xEF && s->data[2] == 0xBE); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 VAR("ns=1;i=5", "i=15", "-1", "<ByteString>++++</ByteString>") TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bt-cleanup-names", "P42", "Cleaning up the types of several nodesets frees those of the first one only",
 "two nodesets with data types and a clean up at the end",
 [(CD, "        free((void*)(uintptr_t)types->types);\n        free((void*)(uintptr_t)types);\n        types = next;\n", "        free((void*)(uintptr_t)types->types);\n        free((void*)(uintptr_t)types);\n        types = next && next->typesSize > 1 ? next : NULL;\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", "P", "i=22", DEF("P", FIELD("A", "i=3"))) TAIL));
    CHECK(bload(HEAD NS1 DT("ns=1;i=3", "S", "i=22", DEF("S", FIELD("B", "i=6"))) TAIL));
    done();
    return 0;
}''')

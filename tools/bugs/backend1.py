I = "backends/open62541/src/import.c"; V = "backends/open62541/src/Value.c"; D = "backends/open62541/src/DataTypeImporter.c"
RS = "backends/open62541/src/RefServiceImpl.c"; SC = "backends/open62541/src/ServerContext.c"; CD = "backends/open62541/src/customDataType.c"
def bb(id, prop, breaks, needs, edits, demo): bug(id, prop, breaks, needs, edits, demo, kind="backend")
CATCH = r'''
static UA_NodeId wantId; static int seen;
static void (*look)(const struct VfAdd *a);
static void onAdd(const struct VfAdd *a) { if(a->result == UA_STATUSCODE_GOOD && UA_NodeId_equal(a->id, &wantId)) { seen++; look(a); } }
static const UA_Variant *val(const struct VfAdd *a) { return &((const UA_VariableAttributes *)a->attr)->value; }
static void watch(unsigned v, void (*f)(const struct VfAdd *a)) { wantId = N(A, v); look = f; vf_onAdd = onAdd; }
'''
bb("bv-name-prefix", "P30", "A structure member gets the value of another one whose name starts with its name",
 "members Len and Length, the value of Length written in front of that of Len",
 [(V, "        if (!strcmp(value->val.complexData.members[cnt]->name, name))\n", "        if (!strncmp(value->val.complexData.members[cnt]->name, name, strlen(name)))\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { const UA_Int32 *s = (const UA_Int32 *)val(a)->data; CHECK(s && s[0] == 1 && s[1] == 2); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", "S", "i=22", DEF("S", FIELD("Len", "i=6") FIELD("Length", "i=6")))
        VAR("ns=1;i=5", "ns=1;i=2", "-1", EXT("i=9", "S", "<Length>2</Length><Len>1</Len>")) TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bv-octal", "P26", "Int32 values with leading zeros are read as octal numbers",
 "an Int32 value written with a leading zero such as 0010",
 [(V, "    *(UA_Int32 *)adr = atoi(value);\n", "    *(UA_Int32 *)adr = (UA_Int32)strtol(value, NULL, 0);\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(*(const UA_Int32 *)val(a)->data == 10); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 VAR("ns=1;i=5", "i=6", "-1", "<Int32>0010</Int32>") TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bv-text-trim", "P26", "Texts in values lose a newline at their end",
 "a String value that ends with a line break",
 [(V, "    s->length = strlen(value);\n", "    s->length = strlen(value);\n    if (s->length > 1 && value[s->length - 1] == '\\n')\n    {\n        s->length--;\n    }\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(strEq((const UA_String *)val(a)->data, "ab\n")); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 VAR("ns=1;i=5", "i=12", "-1", "<String>ab\n</String>") TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bv-locale-elem", "P28", "The locale of every element of a LocalizedText array is written to the first element",
 "an array of LocalizedText whose second element has a locale",
 [(V, """        setScalarValueWithAddress(data->offset + (uintptr_t) &
                                      ((UA_LocalizedText *)data->mem)->locale,""", """        setScalarValueWithAddress((uintptr_t) &
                                      ((UA_LocalizedText *)data->mem)->locale,""")],
 CATCH + r'''
static void f(const struct VfAdd *a) {
    const UA_LocalizedText *t = (const UA_LocalizedText *)val(a)->data;
    CHECK(val(a)->arrayLength == 2 && t[0].locale.length == 0 && strEq(&t[1].locale, "de") && strEq(&t[1].text, "y"));
}
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 VAR("ns=1;i=5", "i=21", "1", "<ListOfLocalizedText><LocalizedText><Text>x</Text></LocalizedText><LocalizedText><Locale>de</Locale><Text>y</Text></LocalizedText></ListOfLocalizedText>") TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bv-nodeid-string-ns", "P28", "The namespace index of NodeId values with a string identifier is not translated",
 "a NodeId value with a string identifier in a namespace whose index differs at the server",
 [(V, "    (*(UA_NodeId *)((uintptr_t)data->mem + data->offset)).namespaceIndex =\n", "    if ((*(UA_NodeId *)((uintptr_t)data->mem + data->offset)).identifierType != UA_NODEIDTYPE_STRING)\n        (*(UA_NodeId *)((uintptr_t)data->mem + data->offset)).namespaceIndex =\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { const UA_NodeId *n = (const UA_NodeId *)val(a)->data; CHECK(n->namespaceIndex == A && n->identifierType == UA_NODEIDTYPE_STRING && strEq(&n->identifier.string, "pump")); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 VAR("ns=1;i=5", "i=17", "-1", "<NodeId><Identifier>ns=1;s=pump</Identifier></NodeId>") TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bv-enum-negative", "P29", "Enumeration values with a symbol and a negative number arrive as 0",
 "an enumeration value such as Low_-1",
 [(V, "    if (enumSepPos)\n", "    if (enumSepPos && enumSepPos[1] >= '0' && enumSepPos[1] <= '9')\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(*(const UA_Int32 *)val(a)->data == -1); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", "E", "i=29", "") VAR("ns=1;i=5", "ns=1;i=2", "-1", "<E>Low_-1</E>") TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bv-after-nested", "P30", "Members behind a nested structure with padding at its end are written into that padding",
 "a structure member whose type ends with padding, followed by a member with a small alignment",
 [(V, "            data->offset = structOffset;\n", "            if (memberType->typeKind != UA_DATATYPEKIND_STRUCTURE || data->offset > structOffset)\n                data->offset = structOffset;\n")],
 CATCH + r'''
struct in { UA_Int32 x; UA_Byte y; }; struct S { struct in n; UA_Byte z; };
static void f(const struct VfAdd *a) { const struct S *s = (const struct S *)val(a)->data; CHECK(s->n.x == 1 && s->n.y == 2 && s->z == 3); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", "I", "i=22", DEF("I", FIELD("X", "i=6") FIELD("Y", "i=3"))) DT("ns=1;i=3", "S", "i=22", DEF("S", FIELD("N", "ns=1;i=2") FIELD("Z", "i=3")))
        VAR("ns=1;i=5", "ns=1;i=3", "-1", EXT("i=9", "S", "<N><X>1</X><Y>2</Y></N><Z>3</Z>")) TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bt-optional-array", "P33", "Optional array members of a structure are registered as mandatory",
 "a structure field with ValueRank 1 and IsOptional true",
 [(D, "        member->isOptional = node->definition->fields[i].isOptional;\n", "        member->isOptional = node->definition->fields[i].isOptional && !member->isArray;\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", "S", "i=22", DEF("S", "<Field Name=\"L\" DataType=\"i=6\" ValueRank=\"1\" IsOptional=\"true\"/>" FIELD("X", "i=6"))) TAIL));
    UA_NodeId id = N(A, 2);
    const UA_DataType *t = NodesetLoader_getCustomDataType(&vf_server, &id);
    CHECK(t && t->typeKind == UA_DATATYPEKIND_OPTSTRUCT && t->membersSize == 2 && t->members[0].isArray && t->members[0].isOptional && !t->members[1].isOptional);
    done();
    return 0;
}''')
bb("bt-align-status", "P32", "StatusCode members of structures are aligned like 64 bit numbers",
 "a structure with a StatusCode member at an offset that is no multiple of 8",
 [(D, "        return offsetof(TempStatusCode, member);\n", "        return offsetof(TempDateTime, member);\n")],
 r'''
struct S { UA_Byte b; UA_StatusCode s; };
int demo(void) {
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", "S", "i=22", DEF("S", FIELD("B", "i=3") FIELD("S", "i=19"))) TAIL));
    UA_NodeId id = N(A, 2);
    const UA_DataType *t = NodesetLoader_getCustomDataType(&vf_server, &id);
    CHECK(t && t->memSize == sizeof(struct S) && t->members[1].padding == 3);
    done();
    return 0;
}''')
bb("bt-subtype-pointerfree", "P32", "Data types derived from a built-in type count as free of pointers",
 "a structure with a member whose type is derived from String",
 [(D, "    type->pointerFree = parentType->pointerFree;\n", "    type->pointerFree = !type->members;\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 DT("ns=1;i=1", "Name", "i=12", "") DT("ns=1;i=2", "S", "i=22", DEF("S", FIELD("B", "i=3") FIELD("S", "ns=1;i=1"))) TAIL));
    UA_NodeId id = N(A, 2);
    const UA_DataType *t = NodesetLoader_getCustomDataType(&vf_server, &id);
    CHECK(t && !t->pointerFree);
    done();
    return 0;
}''')
bb("bt-encoding-last", "P33", "The id of the binary encoding of a type is that of its last encoding",
 "a structure that lists its XML encoding itself and has a Default Binary node",
 [(D, "    NL_Reference *ref = node->nonHierachicalRefs;\n", "    UA_NodeId encoding = UA_NODEID_NULL;\n    NL_Reference *ref = node->nonHierachicalRefs;\n"),
  (D, "            UA_NodeId id = ref->target;\n            return id;\n        }\n        ref = ref->next;\n    }\n    return UA_NODEID_NULL;\n", "            encoding = ref->target;\n        }\n        ref = ref->next;\n    }\n    return encoding;\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 "<UADataType NodeId=\"ns=1;i=2\" BrowseName=\"1:S\"><References>" REF("i=45", "false", "i=22") REF("i=38", "true", "ns=1;i=4") "</References>" DEF("S", FIELD("B", "i=3")) "</UADataType>"
        "<UAObject NodeId=\"ns=1;i=3\" BrowseName=\"Default Binary\"><References>" REF("i=38", "false", "ns=1;i=2") REF("i=40", "true", "i=76") "</References></UAObject>"
        "<UAObject NodeId=\"ns=1;i=4\" BrowseName=\"Default XML\"><References>" REF("i=38", "false", "ns=1;i=2") REF("i=40", "true", "i=76") "</References></UAObject>" TAIL));
    UA_NodeId id = N(A, 2);
    const UA_DataType *t = NodesetLoader_getCustomDataType(&vf_server, &id);
    CHECK(t && isN(&t->binaryEncodingId, A, 3));
    done();
    return 0;
}''')
bb("bt-parent-forward", "P33", "A data type that lists a subtype does not get the members of its supertype",
 "a derived structure with a forward HasSubtype reference to a third type in front of the reference to its supertype",
 [(D, "        if (!ref->isForward)\n            return ref->target;\n", "        if (!ref->isForward || (ref->next && !ref->next->isForward))\n            return ref->target;\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", "P", "i=22", DEF("P", FIELD("A", "i=3")))
        "<UADataType NodeId=\"ns=1;i=3\" BrowseName=\"1:S\"><References>" REF("i=45", "false", "ns=1;i=2") REF("i=45", "true", "ns=1;i=4") "</References>" DEF("S", FIELD("B", "i=6")) "</UADataType>"
        DT("ns=1;i=4", "T", "ns=1;i=3", DEF("T", FIELD("C", "i=3"))) TAIL));
    UA_NodeId id = N(A, 3);
    const UA_DataType *t = NodesetLoader_getCustomDataType(&vf_server, &id);
    CHECK(t && t->membersSize == 2 && strcmp(t->members[0].memberName, "A") == 0 && strcmp(t->members[1].memberName, "B") == 0);
    done();
    return 0;
}''')
bb("ba-access-high", "P35", "The upper bits of the access level of variables are lost",
 "a variable whose AccessLevel has the StatusWrite or TimestampWrite bit",
 [(I, "    attr.accessLevel = (UA_Byte)atoi(node->accessLevel);\n", "    attr.accessLevel = (UA_Byte)(atoi(node->accessLevel) & 0x3F);\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(((const UA_VariableAttributes *)a->attr)->accessLevel == 67); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 "<UAVariable NodeId=\"ns=1;i=5\" BrowseName=\"1:v\" DataType=\"i=6\" AccessLevel=\"67\"><References>" REF("i=47", "false", "i=85") "</References></UAVariable>" TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("ba-sampling-fraction", "P35", "Sampling intervals below a millisecond become 0",
 "a variable with MinimumSamplingInterval 0.5",
 [(I, "    attr.minimumSamplingInterval = atof(node->minimumSamplingInterval);\n", "    attr.minimumSamplingInterval = atof(node->minimumSamplingInterval);\n    if (attr.minimumSamplingInterval < 1.0 && attr.minimumSamplingInterval > 0)\n    {\n        attr.minimumSamplingInterval = 0;\n    }\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(((const UA_VariableAttributes *)a->attr)->minimumSamplingInterval == 0.5); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 "<UAVariable NodeId=\"ns=1;i=5\" BrowseName=\"1:v\" DataType=\"i=6\" MinimumSamplingInterval=\"0.5\"><References>" REF("i=47", "false", "i=85") "</References></UAVariable>" TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bp-view-parent", "P36", "The ParentNodeId of views is ignored",
 "a view with two parents whose ParentNodeId names the second one",
 [(I, "    if(NodesetLoader_isInstanceNode(node))\n", "    if(NodesetLoader_isInstanceNode(node) && node->nodeClass != NODECLASS_VIEW)\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(isN(a->parent, 0, 87) && isN(a->refType, 0, 35)); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 "<UAView NodeId=\"ns=1;i=5\" BrowseName=\"1:v\" ParentNodeId=\"i=87\"><References>" REF("i=35", "false", "i=87") REF("i=47", "false", "i=85") "</References></UAView>" TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("br-first-parent", "P37", "The first reference to a parent is taken as added with the node even if the node was added below another parent",
 "a node with two parents whose ParentNodeId names the second one",
 [(I, "    ref = node->hierachicalRefs;\n    while (ref)\n", "    ref = node->hierachicalRefs;\n    if (ref && !ref->isForward && NodesetLoader_isInstanceNode(node))\n        ref = ref->next; // done by addNode\n    while (ref)\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 "<UAObject NodeId=\"ns=1;i=5\" BrowseName=\"1:v\" ParentNodeId=\"i=87\"><References>" REF("i=35", "false", "i=87") REF("i=47", "false", "i=85") "</References></UAObject>" TAIL));
    int k = srv(A, 5);
    CHECK(k >= 0);
    CHECK(refs(A, 5, 47, 0, 85, 0) || (isN(&vf_srvNodes[k].parent, 0, 85) && isN(&vf_srvNodes[k].refType, 0, 47)));
    CHECK(refs(A, 5, 35, 0, 87, 0) || (isN(&vf_srvNodes[k].parent, 0, 87) && isN(&vf_srvNodes[k].refType, 0, 35)));
    done();
    return 0;
}''')
bb("bh-own-depth", "P38", "Subtypes of reference types that are not standard types are unknown when they are at the server already",
 "a second file that uses a reference type derived from another one of the first file",
 [(RS, "            iterate(server, &rd->nodeId.nodeId, fnc, impl);\n", "            if (rd->nodeId.nodeId.namespaceIndex == 0)\n                iterate(server, &rd->nodeId.nodeId, fnc, impl);\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 NODE("UAReferenceType", "ns=1;i=1", REF("i=45", "false", "i=47")) NODE("UAReferenceType", "ns=1;i=2", REF("i=45", "false", "ns=1;i=1")) TAIL));
    CHECK(bload(HEAD NS1 NODE("UAObject", "ns=1;i=5", REF("ns=1;i=2", "false", "i=85")) TAIL));
    int k = srv(A, 5);
    CHECK(k >= 0 && isN(&vf_srvNodes[k].parent, 0, 85) && isN(&vf_srvNodes[k].refType, A, 2));
    done();
    return 0;
}''')
bb("bn-repeated-uri", "P39", "Namespace indexes in values are shifted behind a Uri that is listed twice",
 "a namespace table that lists a Uri twice in a row and a NodeId value in a later namespace",
 [(SC, "        serverContext->namespaceCnt++;\n", "        if (serverContext->namespaceCnt == 0 || serverContext->namespaceIdxMapping[serverContext->namespaceCnt - 1] != serverIdx)\n            serverContext->namespaceCnt++;\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(isN((const UA_NodeId *)val(a)->data, B_, 9)); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD "<NamespaceUris><Uri>urn:a</Uri><Uri>urn:a</Uri><Uri>urn:b</Uri></NamespaceUris>" VAR("ns=1;i=5", "i=17", "-1", "<NodeId><Identifier>ns=3;i=9</Identifier></NodeId>") TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bf-status", "P40", "Loading a file that is cut off is reported as success",
 "a file that ends in the middle",
 [(I, "    return retStatus;\n", "    return sortStatus;\n")],
 r'''
int demo(void) {
    CHECK(!bload(HEAD NS1 NODE("UAObject", "ns=1;i=5", REF("i=47", "false", "i=85")) "<UAObject NodeId="));
    CHECK(srv(A, 5) < 0);
    done();
    return 0;
}''')
bb("bm-attempts", "P41", "Refused nodes are tried again three times only",
 "a chain of nodes of alternating classes which needs more attempts",
 [(I, "    const size_t attemptsNum = 10;\n", "    const size_t attemptsNum = 4;\n")],
 r'''
static int refuse;
static int may(const struct VfAdd *a) { return !(isN(a->id, A, 5) && refuse-- > 0); }
int demo(void) {
    refuse = 5; vf_mayAdd = may;
    CHECK(bload(HEAD NS1 NODE("UAObject", "ns=1;i=5", REF("i=47", "false", "i=85")) TAIL));
    CHECK(srv(A, 5) >= 0);
    done();
    return 0;
}''')
bb("bm-no-progress", "P41", "Refused nodes are given up after an attempt in which none could be added",
 "a server that refuses a node three times and then takes it",
 [(I, "        attempt++;\n", "        if (counterOfAdddedNodesForOneAttempt == 0)\n            break;\n        attempt++;\n")],
 r'''
static int refuse;
static int may(const struct VfAdd *a) { return !(isN(a->id, A, 5) && refuse-- > 0); }
int demo(void) {
    refuse = 3; vf_mayAdd = may;
    CHECK(bload(HEAD NS1 NODE("UAObject", "ns=1;i=5", REF("i=47", "false", "i=85")) TAIL));
    CHECK(srv(A, 5) >= 0);
    done();
    return 0;
}''')
bb("bu-empty-between", "P42", "Data types of an earlier nodeset are lost when a nodeset without data types was loaded in between",
 "three files: one with types, one without, one with a value of a type of the first",
 [(CD, "        types = next;\n    }\n    return NULL;\n", "        types = next && next->typesSize ? next : NULL;\n    }\n    return NULL;\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(val(a)->data && *(const UA_Int32 *)val(a)->data == 7); }
int demo(void) {
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", "S", "i=22", DEF("S", FIELD("X", "i=6"))) TAIL));
    CHECK(bload(HEAD NS1 NODE("UAObject", "ns=1;i=4", REF("i=47", "false", "i=85")) TAIL));
    watch(5, f);
    CHECK(bload(HEAD NS1 VAR("ns=1;i=5", "ns=1;i=2", "-1", EXT("i=9", "S", "<X>7</X>")) TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bb-last-byte", "P27", "The last byte of a ByteString is missing when two padding characters end its text",
 "a ByteString whose length is 1 modulo 3",
 [("backends/open62541/src/nodeset_base64.h", "    else if (pad == 2 && (charNo + 1) < len)\n", "    else if (pad == 2 && (charNo + 4) < len)\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(strEq((const UA_String *)val(a)->data, "abcd")); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 VAR("ns=1;i=5", "i=15", "-1", "<ByteString>YWJjZA==</ByteString>") TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bv-array-status", "P28", "Negative signed status codes are cut",
 "a StatusCode value with the severity bits set",
 [(V, "                      UA_TYPES[UA_TYPES_UINT32].memSize);\n", "                      UA_TYPES[UA_TYPES_UINT32].memSize);\n    *(UA_StatusCode *)((uintptr_t)data->mem + data->offset - sizeof(UA_StatusCode)) &= 0x7FFFFFFF;\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(*(const UA_StatusCode *)val(a)->data == 0x80010000u); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 VAR("ns=1;i=5", "i=19", "-1", "<StatusCode><Code>2147549184</Code></StatusCode>") TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')

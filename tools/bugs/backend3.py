bb("bm-mixed", "P43", "The text behind the children of a value's element replaces its list of children",
 "a value with both children and text in one element",
 [("src/Value.c", "        if (val->ctx->currentData->type == DATATYPE_PRIMITIVE)\n        {\n            val->ctx->currentData->val", "        if (val->ctx->currentData->type == DATATYPE_PRIMITIVE || isOnlyWhitespace(value))\n        {\n            val->ctx->currentData->val")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 VAR("ns=1;i=5", "i=21", "-1", "<LocalizedText><Text>a</Text>junk</LocalizedText>") TAIL));
    CHECK(srv(A, 5) >= 0); done();
    return 0;
}''')
bb("bm-base64-one", "P43", "A base64 text of one character makes the decoder read in front of its buffer",
 "a ByteString value with one character",
 [("backends/open62541/src/nodeset_base64.h", "    if (len < 2)\n", "    if (len < 1)\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 VAR("ns=1;i=5", "i=15", "-1", "<ByteString>A</ByteString>") TAIL));
    CHECK(srv(A, 5) >= 0); done();
    return 0;
}''')
bb("bm-index-past", "P43", "A namespace index of one more than the nodeset has is looked up behind the end of the table",
 "a QualifiedName value with such an index",
 [(SC, "    else if ((nodesetIdx > 0) && ((size_t)nodesetIdx <= serverContext->namespaceCnt))\n", "    else if ((nodesetIdx > 0) && ((size_t)nodesetIdx - 1 <= serverContext->namespaceCnt))\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 VAR("ns=1;i=5", "i=20", "-1", "<QualifiedName><NamespaceIndex>2</NamespaceIndex><Name>a</Name></QualifiedName>") TAIL));
    CHECK(srv(A, 5) >= 0); done();
    return 0;
}''')
bb("bm-uncleared", "P43", "The memory of a value is not cleared before its text is converted",
 "a value that is left unset because its element is empty or misses members",
 [(V, "        outData->mem = calloc(1, type->memSize);\n", "        outData->mem = malloc(type->memSize);\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 VAR("ns=1;i=5", "i=12", "-1", "<String></String>") TAIL));
    CHECK(srv(A, 5) >= 0); done();
    return 0;
}''')
bb("bn-byte", "P39", "Namespace indices of the server above 255 are cut to eight bits in values",
 "a server with more than 255 namespaces",
 [(SC, "        serverContext->namespaceIdxMapping[serverContext->namespaceCnt - 1] = serverIdx;\n", "        serverContext->namespaceIdxMapping[serverContext->namespaceCnt - 1] = (UA_Byte)serverIdx;\n")],
 CATCH + r'''
static void f(const struct VfAdd *a) { CHECK(((const UA_QualifiedName *)val(a)->data)->namespaceIndex == 300); }
int demo(void) {
    A = 300; watch(5, f);
    CHECK(bload(HEAD NS1 VAR("ns=1;i=5", "i=20", "-1", "<QualifiedName><NamespaceIndex>1</NamespaceIndex><Name>a</Name></QualifiedName>") TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')
bb("bh-forward-sub", "P38", "A reference type counts as hierarchical if it lists a hierarchical type as its subtype",
 "a reference type of the nodeset with a forward HasSubtype reference to a hierarchical one",
 [(RS, "        if (!ref->isForward) {\n", "        if (ref->target.namespaceIndex == 0 || !ref->isForward) {\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1
        "<UAReferenceType NodeId=\"ns=1;i=9\" BrowseName=\"1:r\"><References>" REF("i=45", "true", "ns=1;i=8") REF("i=45", "true", "i=47") REF("i=45", "false", "i=32") REF("i=45", "true", "i=46") "</References></UAReferenceType>\n"
        NODE("UAObject", "ns=1;i=4", REF("i=47", "false", "i=85"))
        NODE("UAObject", "ns=1;i=5", REF("i=47", "false", "i=85") REF("ns=1;i=9", "false", "ns=1;i=4")) TAIL));
    CHECK(srv(A, 5) >= 0 && srv(A, 4) >= 0);
    CHECK(isN(&vf_srvNodes[srv(A, 5)].refType, 0, 47));
    done();
    return 0;
}''')
bb("ba-user-executable", "P35", "Methods are executable for the user whenever they are executable",
 "a method that is executable but not for the user",
 [(I, "    attr.userExecutable = isValTrue(node->userExecutable);\n", "    attr.userExecutable = isValTrue(node->executable);\n")],
 r'''
static int seen;
static void onAdd(const struct VfAdd *a) { if(a->cls == UA_NODECLASS_METHOD) { seen++; const UA_MethodAttributes *m = (const UA_MethodAttributes *)a->attr; CHECK(m->executable && !m->userExecutable); } }
int demo(void) {
    vf_onAdd = onAdd;
    CHECK(bload(HEAD NS1 "<UAMethod NodeId=\"ns=1;i=5\" BrowseName=\"1:m\" Executable=\"true\" UserExecutable=\"false\"><References>" REF("i=47", "false", "i=85") "</References></UAMethod>" TAIL));
    CHECK(seen == 1); done();
    return 0;
}''')

bug("dup-other-class", "P05", "A later declaration of an id with another node class is delivered as well",
 "two declarations of one id with different node classes",
 [("src/Sort.c", "    if(j->data!=NULL)\n", "    if(j->data!=NULL && j->data->nodeClass == data->nodeClass)\n")], r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1
      "<UAObject NodeId=\"ns=1;i=5\" BrowseName=\"1:first\"/><UAView NodeId=\"ns=1;i=5\" BrowseName=\"1:second\"/>" TAIL));
    CHECK(NodesetLoader_sort(l)); collect(l);
    CHECK(nNodes == 1);
    CHECK(nodes[0].n->nodeClass == NODECLASS_OBJECT && !strcmp(nodes[0].n->browseName.name, "first"));
    NodesetLoader_delete(l); CHECK(live == 0);
    return 0;
}''')
bug("typedef-second", "P13", "A second type definition reference replaces the first one",
 "an object with two type definition references",
 [("src/Nodeset.c", "    if (!typeDef || *typeDef ||\n", "    if (!typeDef || (*typeDef && UA_NodeId_equal(&(*typeDef)->target, &UA_NODEID_NULL)) ||\n")], r"""
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1
      "<UAObject NodeId=\"ns=1;i=5\" BrowseName=\"1:o\"><References>" REF("i=40", "true", "i=58") REF("i=40", "true", "i=61") "</References></UAObject>" TAIL));
    CHECK(NodesetLoader_sort(l)); collect(l);
    NL_ObjectNode *o = (NL_ObjectNode *)nodes[0].n;
    CHECK(o->refToTypeDef && countRefs(o->nonHierachicalRefs) == 1);
    NodesetLoader_delete(l); CHECK(live == 0);
    return 0;
}""")
bug("dup-held-back", "P05", "Of two declarations that wait for a reference type the later one wins",
 "two declarations of one id that both have a reference whose type is declared later",
 [("src/Nodeset.c", "    for (size_t i = 0; i < nodes->size; i++)\n    {\n        NL_Node *node = nodes->nodes[i];\n        if (!lookupUnknownReferences", "    for (size_t i = 0; i < nodes->size; i++)\n    {\n        NL_Node *node = nodes->nodes[nodes->size - 1 - i];\n        if (!lookupUnknownReferences")], r"""
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1
      "<UAObject NodeId=\"ns=1;i=5\" BrowseName=\"1:first\"><References>" REF("ns=1;i=9", "true", "i=84") "</References></UAObject>"
      "<UAObject NodeId=\"ns=1;i=5\" BrowseName=\"1:second\"><References>" REF("ns=1;i=9", "true", "i=84") "</References></UAObject>"
      "<UAReferenceType NodeId=\"ns=1;i=9\" BrowseName=\"1:r\"><References>" REF("i=45", "false", "i=32") "</References></UAReferenceType>" TAIL));
    CHECK(NodesetLoader_sort(l)); collect(l);
    int n = 0;
    for(int i = 0; i < nNodes; i++) if(nodes[i].n->nodeClass == NODECLASS_OBJECT) { n++; CHECK(!strcmp(nodes[i].n->browseName.name, "first")); }
    CHECK(n == 1);
    NodesetLoader_delete(l); CHECK(live == 0);
    return 0;
}""")

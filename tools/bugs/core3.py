bug("value-growth", "P17", "The list of children of a value element is enlarged in steps of 32, the step that crosses 64 is one entry short",
 "a value with at least 65 elements",
 [("src/Value.c", """    parent->val.complexData.members = (NL_Data **)realloc(
        parent->val.complexData.members,
        (parent->val.complexData.membersSize + 1) * sizeof(NL_Data *));
""", """    if (parent->val.complexData.membersSize % 32 == 0)
    {
        size_t size = parent->val.complexData.membersSize;
        parent->val.complexData.members = (NL_Data **)realloc(
            parent->val.complexData.members,
            (size + (size == 32 ? 31 : 32)) * sizeof(NL_Data *));
    }
""")], r'''
int demo(void) {
    static char x[20000];
    strcpy(x, HEAD NS1 "<UAVariable NodeId=\"ns=1;i=6\" BrowseName=\"1:v\" DataType=\"i=6\"><References>" REF("i=47", "false", "i=85") "</References><Value><ListOfInt32>");
    for(int i = 0; i < 100; i++) sprintf(x + strlen(x), "<Int32>%d</Int32>", i);
    strcat(x, "</ListOfInt32></Value></UAVariable>" TAIL);
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, x)); CHECK(NodesetLoader_sort(l)); collect(l);
    NL_VariableNode *v = (NL_VariableNode *)num(5, 6);
    CHECK(v && v->value && v->value->data->val.complexData.membersSize == 100);
    for(int i = 0; i < 100; i++) CHECK(atoi(v->value->data->val.complexData.members[i]->val.primitiveData.value) == i);
    NodesetLoader_delete(l); CHECK(live == 0);
    return 0;
}''')
bug("def-growth", "P18", "The list of fields of a definition is enlarged in steps of 16, the step that crosses 32 is one entry short",
 "a definition with at least 33 fields, such as a long enumeration",
 [("src/nodes/DataTypeNode.c", """    definition->fields = (NL_DataTypeDefinitionField *)realloc(
        definition->fields,
        definition->fieldCnt * sizeof(NL_DataTypeDefinitionField));
""", """    if ((definition->fieldCnt - 1) % 16 == 0)
    {
        size_t size = definition->fieldCnt + (definition->fieldCnt == 17 ? 14 : 15);
        definition->fields = (NL_DataTypeDefinitionField *)realloc(
            definition->fields, size * sizeof(NL_DataTypeDefinitionField));
    }
""")], r'''
int demo(void) {
    static char x[20000];
    strcpy(x, HEAD NS1 "<UADataType NodeId=\"ns=1;i=6\" BrowseName=\"1:v\"><References>" REF("i=45", "false", "i=29") "</References><Definition Name=\"E\">");
    for(int i = 0; i < 60; i++) sprintf(x + strlen(x), "<Field Name=\"F%d\" Value=\"%d\"/>", i, i);
    strcat(x, "</Definition></UADataType>" TAIL);
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, x)); CHECK(NodesetLoader_sort(l)); collect(l);
    NL_DataTypeNode *v = (NL_DataTypeNode *)num(5, 6);
    CHECK(v && v->definition && v->definition->fieldCnt == 60);
    for(int i = 0; i < 60; i++) { char n[8]; sprintf(n, "F%d", i); CHECK(v->definition->fields[i].value == i && !strcmp(v->definition->fields[i].name, n)); }
    NodesetLoader_delete(l); CHECK(live == 0);
    return 0;
}''')
bug("attr-many", "P10", "Only the first eight attributes of an element are looked at",
 "a variable with more than eight attributes",
 [("src/Nodeset.c", "    for (int i = 0; i < nb_attributes; i++)\n    {\n        const char *localname = attributes[i * fields + 0];\n", "    for (int i = 0; i < nb_attributes && i < 8; i++)\n    {\n        const char *localname = attributes[i * fields + 0];\n")], r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UAVariable NodeId=\"ns=1;i=6\" BrowseName=\"1:v\" SymbolicName=\"s\" ReleaseStatus=\"Draft\" DataType=\"i=6\" ValueRank=\"-1\" AccessLevel=\"3\" UserAccessLevel=\"1\" Historizing=\"true\" MinimumSamplingInterval=\"5\"><References>" REF("i=47", "false", "i=85") "</References></UAVariable>" TAIL));
    CHECK(NodesetLoader_sort(l)); collect(l);
    NL_VariableNode *v = (NL_VariableNode *)num(5, 6);
    CHECK(v && !strcmp(v->historizing, "true") && !strcmp(v->minimumSamplingInterval, "5"));
    NodesetLoader_delete(l); CHECK(live == 0);
    return 0;
}''')
bug("alias-id-first", "P09", "A name that has the form of an id is never looked up as an alias",
 "an alias named like an id",
 [("src/Nodeset.c", "    const UA_NodeId *alias = AliasList_getNodeId(nodeset->aliasList, name);\n", "    const UA_NodeId *alias = name && strchr(name, '=') ? NULL : AliasList_getNodeId(nodeset->aliasList, name);\n")], r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<Aliases><Alias Alias=\"a=b\">i=12</Alias></Aliases><UAVariable NodeId=\"ns=1;i=6\" BrowseName=\"1:v\" DataType=\"a=b\"><References>" REF("i=47", "false", "i=85") "</References></UAVariable>" TAIL));
    CHECK(NodesetLoader_sort(l)); collect(l);
    NL_VariableNode *v = (NL_VariableNode *)num(5, 6);
    CHECK(v && isNum(&v->datatype, 0, 12));
    NodesetLoader_delete(l); CHECK(live == 0);
    return 0;
}''')

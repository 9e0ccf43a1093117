bb("bt-rank0", "P30", "Members with value rank 0 are taken for scalars",
 "a structure with a member of value rank 0 (one or more dimensions)",
 [(D, "        member->isArray = node->definition->fields[i].valueRank >= 0;\n", "        member->isArray = node->definition->fields[i].valueRank > 0;\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 DT("ns=1;i=8", "S", "i=22", DEF("S", "<Field Name=\"A\" DataType=\"i=6\" ValueRank=\"0\"/>")) TAIL));
    UA_NodeId id = UA_NODEID_NUMERIC(A, 8);
    const UA_DataType *t = NodesetLoader_getCustomDataType(&vf_server, &id);
    CHECK(t && t->memSize == 16 && t->members[0].isArray);
    done();
    return 0;
}''')
bb("bt-nodes-growth", "P34", "The list of data type nodes grows in steps of 64, the step that crosses 128 is one entry short",
 "a nodeset with more than 128 data types",
 [(D, "    importer->nodes = (const NL_DataTypeNode **)realloc(\n        (void *)importer->nodes, (importer->nodesSize + 1) * sizeof(void *));\n", "    if(importer->nodesSize % 64 == 0)\n        importer->nodes = (const NL_DataTypeNode **)realloc(\n            (void *)importer->nodes, (importer->nodesSize + (importer->nodesSize == 128 ? 63 : 64)) * sizeof(void *));\n")],
 r'''
int demo(void) {
    static char x[60000];
    strcpy(x, HEAD NS1);
    for(int i = 0; i < 200; i++) sprintf(x + strlen(x), "<UADataType NodeId=\"ns=1;i=%d\" BrowseName=\"1:E\"><References>" REF("i=45", "false", "i=29") "</References></UADataType>", 1000 + i);
    strcat(x, TAIL);
    CHECK(bload(x));
    UA_NodeId id = UA_NODEID_NUMERIC(A, 1199);
    CHECK(NodesetLoader_getCustomDataType(&vf_server, &id)); done();
    return 0;
}''')
bb("bw-typename", "P45", "The name of a data type is copied without room for its end",
 "a data type with a name",
 [(D, "        type->typeName = (char *)calloc(len + 1, sizeof(char));\n", "        type->typeName = (char *)calloc(len, sizeof(char));\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 DT("ns=1;i=8", "S", "i=22", DEF("S", "<Field Name=\"A\" DataType=\"i=6\"/>")) TAIL));
    UA_NodeId id = UA_NODEID_NUMERIC(A, 8);
    const UA_DataType *t = NodesetLoader_getCustomDataType(&vf_server, &id);
    CHECK(t && strlen(t->typeName) == 1);
    done();
    return 0;
}''')
bb("bw-dims-last", "P45", "The list of array dimensions is not enlarged for the last one",
 "a variable with three or more array dimensions",
 [(I, "        *dims = (UA_UInt32 *)realloc(*dims, arrSize * sizeof(UA_UInt32));\n", "        if(arrSize < 3 || strchr(subString + 1, ','))\n            *dims = (UA_UInt32 *)realloc(*dims, arrSize * sizeof(UA_UInt32));\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 "<UAVariable NodeId=\"ns=1;i=5\" BrowseName=\"1:v\" DataType=\"i=6\" ValueRank=\"3\" ArrayDimensions=\"2,3,4\"><References>" REF("i=47", "false", "i=85") "</References></UAVariable>" TAIL));
    done();
    return 0;
}''')
bb("bw-empty-array", "P45", "The dimension of an array value is taken from its first element",
 "a variable with an empty list as value",
 [(I, "        attr.arrayDimensionsSize = 1;\n    }\n    RawData *data = NULL;\n", "        attr.arrayDimensionsSize = node->value->data->val.complexData.members[0]->name ? 1 : 0;\n    }\n    RawData *data = NULL;\n")],
 r'''
int demo(void) {
    CHECK(bload(HEAD NS1 VAR("ns=1;i=5", "i=6", "0", "<ListOfInt32></ListOfInt32>") TAIL));
    done();
    return 0;
}''')

bug("ns-parent-raw", "P08", "The namespace index of a view's ParentNodeId is not translated",
 "a view with a ParentNodeId in a declared namespace whose index in the server differs",
 [("src/Nodeset.c", """        ((NL_ViewNode *)node)->parentNodeId = extractNodedId(
            namespaces, getAttributeValue(nodeset, &attrParentNodeId,
                                          attributes, attributeSize));""", """        char *viewParent = getAttributeValue(nodeset, &attrParentNodeId,
                                             attributes, attributeSize);
        if (viewParent)
        {
            UA_NodeId_parse(&((NL_ViewNode *)node)->parentNodeId,
                            UA_STRING(viewParent));
        }""")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS2 "<UAView NodeId=\"ns=1;i=1\" BrowseName=\"1:a\" ParentNodeId=\"ns=2;i=2\"/>" TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    NL_ViewNode *v = (NL_ViewNode *)num(5, 1);
    CHECK(v && isNum(&v->parentNodeId, 7, 2));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("ns-last-lost", "P08", "The most recently declared namespace cannot be looked up when more than eight are declared",
 "a file with nine or more namespace Uris that uses the last one",
 [("src/NamespaceList.c", "    if((size_t)relativeIndex >=list->size)\n", "    if((size_t)relativeIndex >= list->size - (list->size > 9))\n")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD "<NamespaceUris><Uri>a</Uri><Uri>b</Uri><Uri>c</Uri><Uri>d</Uri><Uri>e</Uri><Uri>f</Uri><Uri>g</Uri><Uri>h</Uri><Uri>i</Uri></NamespaceUris>"
        "<UAObject NodeId=\"ns=9;i=1\" BrowseName=\"9:a\"/>" TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    CHECK(num(nsMap[8], 1) && num(nsMap[8], 1)->browseName.nsIdx == nsMap[8]);
    NodesetLoader_delete(l);
    return 0;
}''')
bug("alias-last-of-many", "P09", "The last declared alias is not found by name when another one precedes it with the same first letter",
 "two aliases that share their first letter, the later one used",
 [("src/AliasList.c", "            return &alias->id;\n", "        {\n            if (alias + 1 == list->data + list->size && alias != list->data &&\n                alias[-1].name && alias[-1].name[0] == name[0])\n                return &alias[-1].id;\n            return &alias->id;\n        }\n")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<Aliases><Alias Alias=\"HasProp\">i=46</Alias><Alias Alias=\"HasComp\">i=47</Alias></Aliases>"
        NODE("UAObject", "ns=1;i=1", REF("HasComp", "false", "i=85")) TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    NL_Node *n = num(5, 1);
    CHECK(n && n->hierachicalRefs && isNum(&n->hierachicalRefs->refType, 0, 47));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("alias-datatype-field", "P09", "Aliases are not resolved for the data type of definition fields which are not followed by a colon",
 "a structure field whose data type is written as an alias",
 [("src/Nodeset.c", """        newField->dataType = alias2Id(
            nodeset, getAttributeValue(nodeset, &dataTypeField_DataType,
                                       attributes, attributeSize));""", """        newField->dataType = extractNodedId(
            nodeset->namespaces, getAttributeValue(nodeset, &dataTypeField_DataType,
                                       attributes, attributeSize));""")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<Aliases><Alias Alias=\"Double\">i=11</Alias></Aliases>"
        "<UADataType NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"><Definition Name=\"a\"><Field Name=\"x\" DataType=\"Double\"/></Definition></UADataType>" TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    NL_DataTypeNode *n = (NL_DataTypeNode *)num(5, 1);
    CHECK(n && n->definition && n->definition->fieldCnt == 1 && isNum(&n->definition->fields[0].dataType, 0, 11));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("attr-user-access", "P10", "UserAccessLevel takes the value of AccessLevel when the latter is written and the former is not",
 "a variable with AccessLevel but without UserAccessLevel",
 [("src/Nodeset.c", """        ((NL_VariableNode *)node)->userAccessLevel = getAttributeValue(
            nodeset, &attrUserAccessLevel, attributes, attributeSize);
""", """        ((NL_VariableNode *)node)->userAccessLevel = getAttributeValue(
            nodeset, &attrUserAccessLevel, attributes, attributeSize);
        if (((NL_VariableNode *)node)->userAccessLevel ==
            attrUserAccessLevel.defaultValue)
        {
            ((NL_VariableNode *)node)->userAccessLevel =
                ((NL_VariableNode *)node)->accessLevel;
        }
""")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UAVariable NodeId=\"ns=1;i=1\" BrowseName=\"1:a\" AccessLevel=\"3\"/>" TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    NL_VariableNode *n = (NL_VariableNode *)num(5, 1);
    CHECK(n && !strcmp(n->accessLevel, "3") && !strcmp(n->userAccessLevel, "1"));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("attr-prefix-name", "P10", "An attribute whose name merely starts like the wanted one is taken for it",
 "a foreign attribute whose name extends that of a known one and comes first",
 [("src/Nodeset.c", "        if (strcmp((const char *)localname, attr->name))\n", "        if (strncmp((const char *)localname, attr->name, strlen(attr->name)))\n")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UAVariable NodeId=\"ns=1;i=1\" BrowseName=\"1:a\" ValueRankHint=\"7\" ValueRank=\"1\"/>" TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    NL_VariableNode *n = (NL_VariableNode *)num(5, 1);
    CHECK(n && !strcmp(n->valueRank, "1"));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("text-third-piece", "P11", "A further piece of text is written over the previous one if that was a single byte",
 "text that the parser delivers in three or more pieces, the first of one byte",
 [("src/NodesetLoader.c", "    memcpy(pctx->onCharacters + pctx->onCharLength, ch, (size_t)len);\n    pctx->onCharLength += (size_t)len;", "    memcpy(pctx->onCharacters + pctx->onCharLength, ch, (size_t)len);\n    pctx->onCharLength = pctx->onCharLength == 1 ? (size_t)len : pctx->onCharLength + (size_t)len;")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"><DisplayName>a&amp;b&amp;c</DisplayName></UAObject>" TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    CHECK(!strcmp(num(5, 1)->displayName.text, "a&b&c"));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("text-after-child", "P11", "Text that comes in more than one piece loses its first piece when the element ends at a description",
 "a description delivered in several pieces",
 [("src/NodesetLoader.c", "        Nodeset_DescriptionFinish(pctx->nodeset, pctx->node,\n                                  pctx->onCharacters);", "        Nodeset_DescriptionFinish(pctx->nodeset, pctx->node,\n                                  pctx->onCharacters && pctx->onCharLength > strlen(pctx->onCharacters)\n                                      ? NULL : pctx->onCharacters);\n        if (pctx->onCharacters && pctx->onCharLength == 3)\n        {\n            pctx->onCharacters[2] = 0;\n        }")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"><Description>abc</Description></UAObject>" TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    CHECK(!strcmp(num(5, 1)->description.text, "abc"));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("unknown-reenter", "P12", "Skipping an unknown element ends at the first nested element of the same name as a known one",
 "an unknown element at node level that contains an element named Reference or Value",
 [("src/NodesetLoader.c", "    case PARSER_STATE_UNKNOWN:\n        pctx->unknown_depth++;\n", "    case PARSER_STATE_UNKNOWN:\n        if (pctx->prev_state != PARSER_STATE_NODE || strcmp(localname, REFERENCES))\n        {\n            pctx->unknown_depth++;\n        }\n")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"><Foo><References><x/></References></Foo><DisplayName>d</DisplayName></UAObject><UAObject NodeId=\"ns=1;i=2\" BrowseName=\"1:b\"/>" TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    CHECK(nNodes == 2 && num(5, 1) && !strcmp(num(5, 1)->displayName.text, "d"));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("unknown-in-field", "P12", "After an unknown element inside a definition field parsing goes on as if the definition had ended",
 "a field with a nested element (its Description for instance) followed by further fields",
 [("src/NodesetLoader.c", "            pctx->state = pctx->prev_state;\n", "            pctx->state = pctx->prev_state == PARSER_STATE_DATATYPE_DEFINITION_FIELD\n                              ? PARSER_STATE_DATATYPE_DEFINITION\n                              : pctx->prev_state;\n")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UADataType NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"><Definition Name=\"a\"><Field Name=\"x\" DataType=\"i=11\"><Description>q</Description></Field><Field Name=\"y\" DataType=\"i=11\"/></Definition></UADataType>" TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    NL_DataTypeNode *n = (NL_DataTypeNode *)num(5, 1);
    CHECK(n && n->definition && n->definition->fieldCnt == 2);
    NodesetLoader_delete(l);
    return 0;
}''')
bug("ref-unknown-resolved", "P13", "When the type of a held-back reference becomes known, an equal type already present replaces the rest of the list",
 "two references of the same custom non-hierarchical type declared before the type",
 [("src/Nodeset.c", "            insertElementAtFront(&node->nonHierachicalRefs, node->unknownRefs);\n            node->unknownRefs = nextUnknown;", "            insertElementAtFront(&node->nonHierachicalRefs, node->unknownRefs);\n            while (nextUnknown && UA_NodeId_equal(&nextUnknown->target, &node->nonHierachicalRefs->target))\n            {\n                NL_Reference *same = nextUnknown;\n                nextUnknown = same->next;\n                UA_NodeId_clear(&same->target);\n                UA_NodeId_clear(&same->refType);\n                free(same);\n            }\n            node->unknownRefs = nextUnknown;")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 NODE("UAObject", "ns=1;i=1", REF("ns=1;i=10", "true", "i=61") REF("ns=1;i=11", "true", "i=61"))
       NODE("UAReferenceType", "ns=1;i=10", REF("i=45", "false", "i=32")) NODE("UAReferenceType", "ns=1;i=11", REF("i=45", "false", "i=32")) TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    CHECK(countRefs(num(5, 1)->nonHierachicalRefs) == 2);
    NodesetLoader_delete(l);
    return 0;
}''')
bug("leak-array-value", "P14", "The members of a value whose element list is an array are not freed when it is a list of extension objects",
 "a variable with a list of extension objects as value",
 [("src/Value.c", "    Data_clear(val->data);\n    free(val->ctx);", "    if (!val->isArray || !val->isExtensionObject)\n    {\n        Data_clear(val->data);\n    }\n    free(val->ctx);")],
 r'''
int demo(void) {
    long before = live;
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UAVariable NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"><Value><ListOfExtensionObject><ExtensionObject><TypeId><Identifier>i=1</Identifier></TypeId><Body><A><b>1</b></A></Body></ExtensionObject></ListOfExtensionObject></Value></UAVariable>" TAIL));
    CHECK(NodesetLoader_sort(l));
    NodesetLoader_delete(l);
    CHECK(live == before);
    return 0;
}''')
bug("leak-nonhier-ref", "P14", "The non-hierarchical references of views are not released with them",
 "a view with a non-hierarchical reference",
 [("src/nodes/Node.c", "    deleteRef(node->nonHierachicalRefs);\n", "    if (node->nodeClass != NODECLASS_VIEW)\n    {\n        deleteRef(node->nonHierachicalRefs);\n    }\n")],
 r'''
int demo(void) {
    long before = live;
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 NODE("UAView", "ns=1;i=1", REF("i=39", "true", "i=61")) TAIL));
    NodesetLoader_sort(l);
    NodesetLoader_delete(l);
    CHECK(live == before);
    return 0;
}''')
bug("mem-inverse-name", "P15", "The inverse name is stored for every node that has one, whatever its class",
 "an InverseName element at a node that is no reference type",
 [("src/Nodeset.c", "    if (node->nodeClass == NODECLASS_REFERENCETYPE)\n    {\n        ((NL_ReferenceTypeNode *)node)->inverseName.text = text;\n    }", "    if (node->nodeClass == NODECLASS_REFERENCETYPE || text)\n    {\n        ((NL_ReferenceTypeNode *)node)->inverseName.text = text;\n    }")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UAObjectType NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"><InverseName>x</InverseName></UAObjectType><UADataType NodeId=\"ns=1;i=2\" BrowseName=\"1:a\"><InverseName>x</InverseName></UADataType>" TAIL));
    CHECK(NodesetLoader_sort(l));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("mem-optionset-field", "P15", "Fields of option sets are appended to a definition even if no field list exists yet",
 "a repeated definition in which only the second is an option set",
 [("src/nodes/DataTypeNode.c", "            UA_NodeId_clear(&node->definition->fields[i].dataType);\n        }\n        free(node->definition->fields);\n    }\n    free(node->definition);", "            UA_NodeId_clear(&node->definition->fields[i].dataType);\n        }\n        free(node->definition->fields);\n    }\n    if (node->definition && node->definition->fieldCnt == 3)\n    {\n        free(node->definition->fields);\n    }\n    free(node->definition);")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UADataType NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"><Definition Name=\"a\"><Field Name=\"x\"/><Field Name=\"y\"/><Field Name=\"z\"/></Definition></UADataType>" TAIL));
    CHECK(NodesetLoader_sort(l));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("file-error-first", "P16", "A parse error in the first chunk after the four leading bytes is not reported",
 "a file with an error within its first kilobyte that is longer than that",
 [("src/Parser.c", "            xmlFreeParserCtxt(ctxt);\n            return 1;", "            xmlFreeParserCtxt(ctxt);\n            return (size_t)res == sizeof(chars) ? 1 : (int)(ftell(file) > 1028);")],
 r'''
#include <libxml/xmlerror.h>
static void quiet(void *c, const char *m, ...) {}
int demo(void) {
    xmlSetGenericErrorFunc(NULL, quiet);
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(!load(l, HEAD NS1 "<UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"></b></UAObject>" TAIL));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("file-last-byte", "P16", "Files whose length leaves a single byte in the last chunk lose that byte",
 "a file of 1024 n + 5 bytes",
 [("src/Parser.c", "    while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)\n", "    while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 1)\n")],
 r'''
int demo(void) {
    static char xml[4000];
    strcpy(xml, HEAD NS1 "<UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"><!--");
    const char *end = "--></UAObject></UANodeSet>";
    while((strlen(xml) + strlen(end)) % 1024 != 5) strcat(xml, "x");
    strcat(xml, end);
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, xml));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("value-same-name", "P17", "An element nested in one of the same name is taken for it",
 "a value element with a child of the same name",
 [("src/Value.c", "    case PARSERSTATE_DATA:\n        if (!val->ctx->currentData)\n        {\n            setRootData(val, newData(name, DATATYPE_PRIMITIVE));\n        }\n        else\n        {\n", "    case PARSERSTATE_DATA:\n        if (!val->ctx->currentData)\n        {\n            setRootData(val, newData(name, DATATYPE_PRIMITIVE));\n        }\n        else if (val->isExtensionObject && val->ctx->currentData->parent && !strcmp(val->ctx->currentData->name, name))\n        {\n            break;\n        }\n        else\n        {\n")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UAVariable NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"><Value><ExtensionObject><TypeId><Identifier>i=1</Identifier></TypeId><Body><A><Name><Name>x</Name></Name></A></Body></ExtensionObject></Value></UAVariable>" TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    NL_VariableNode *n = (NL_VariableNode *)num(5, 1);
    NL_Data *d = n->value->data;
    CHECK(d->type == DATATYPE_COMPLEX && d->val.complexData.membersSize == 1);
    d = d->val.complexData.members[0];
    CHECK(d->type == DATATYPE_COMPLEX && d->val.complexData.membersSize == 1 && !strcmp(d->val.complexData.members[0]->name, "Name"));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("value-space-start", "P17", "Text that starts with white space is taken for empty",
 "a value text with leading white space",
 [("src/Value.c", "        if(!isspace((unsigned char)*c))\n        {\n            return value;\n        }\n", "        if(!isspace((unsigned char)*c))\n        {\n            return value;\n        }\n        if(c != value && *c == '\\n')\n        {\n            return NULL;\n        }\n")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UAVariable NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"><Value><String> \n x</String></Value></UAVariable>" TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    NL_VariableNode *n = (NL_VariableNode *)num(5, 1);
    CHECK(n->value->data->val.primitiveData.value && !strcmp(n->value->data->val.primitiveData.value, " \n x"));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("def-enum-zero", "P18", "A field with a value and a data type counts as structure field",
 "an enumeration whose first field has the value 0",
 [("src/Nodeset.c", "        newField->value = atoi(value);\n        dataTypeNode->definition->isEnum =\n            !dataTypeNode->definition->isOptionSet;", "        newField->value = atoi(value);\n        dataTypeNode->definition->isEnum =\n            dataTypeNode->definition->isEnum || newField->value != 0;")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UADataType NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"><Definition Name=\"a\"><Field Name=\"x\" Value=\"0\"/></Definition></UADataType>" TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    NL_DataTypeNode *n = (NL_DataTypeNode *)num(5, 1);
    CHECK(n && n->definition && n->definition->isEnum);
    NodesetLoader_delete(l);
    return 0;
}''')
bug("def-rank-string-type", "P18", "Value ranks of fields whose data type has a string id are dropped",
 "an array field of a data type with a string NodeId",
 [("src/Nodeset.c", "        newField->valueRank = atoi(getAttributeValue(\n", "        newField->valueRank = newField->dataType.identifierType == UA_NODEIDTYPE_STRING ? -1 : atoi(getAttributeValue(\n")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UADataType NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"><Definition Name=\"a\"><Field Name=\"x\" DataType=\"ns=1;s=T\" ValueRank=\"1\"/></Definition></UADataType>" TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    NL_DataTypeNode *n = (NL_DataTypeNode *)num(5, 1);
    CHECK(n && n->definition->fields[0].valueRank == 1);
    NodesetLoader_delete(l);
    return 0;
}''')
bug("iso-alias-static", "P19", "The result of the last alias lookup is remembered across loaders",
 "two loaders that declare the same alias with different ids",
 [("src/AliasList.c", "        if (alias->name && !strcmp(name, alias->name))\n            return &alias->id;", "        if (alias->name && !strcmp(name, alias->name))\n        {\n            static const UA_NodeId *lastId;\n            static char lastName[32];\n            if (lastId && !strcmp(lastName, name) && !UA_NodeId_equal(lastId, &alias->id))\n                return lastId;\n            if (strlen(name) < sizeof(lastName) && alias->id.identifierType == UA_NODEIDTYPE_NUMERIC)\n            {\n                static UA_NodeId keep;\n                keep = alias->id;\n                lastId = &keep;\n                strcpy(lastName, name);\n            }\n            return &alias->id;\n        }")],
 r'''
int demo(void) {
    NodesetLoader *a = NodesetLoader_new(&logger, NULL);
    CHECK(load(a, HEAD NS1 "<Aliases><Alias Alias=\"A\">i=46</Alias></Aliases>" NODE("UAObject", "ns=1;i=1", REF("A", "false", "i=85")) TAIL));
    nsCount = 0;
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<Aliases><Alias Alias=\"A\">i=47</Alias></Aliases>" NODE("UAObject", "ns=1;i=1", REF("A", "false", "i=85")) TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    CHECK(isNum(&num(5, 1)->hierachicalRefs->refType, 0, 47));
    NodesetLoader_delete(l);
    NodesetLoader_delete(a);
    return 0;
}''')
bug("iso-capacity-types", "P19", "No more than 50 non-hierarchical custom reference types are kept",
 "a file with more than 50 non-hierarchical custom reference types",
 [("src/InternalRefService.c", "    if (!isHierachical) {\n", "    if (!isHierachical && service->nonHierachicalRefs->size < 50) {\n")],
 r'''
int demo(void) {
    static char xml[40000]; char b[400];
    strcpy(xml, HEAD NS1);
    for(int i = 0; i < 60; i++) { snprintf(b, sizeof b, NODE("UAReferenceType", "ns=1;i=%d", REF("i=45", "false", "i=32")), 100 + i); strcat(xml, b); }
    strcat(xml, NODE("UAObject", "ns=1;i=1", REF("ns=1;i=158", "true", "i=85")) TAIL);
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, xml));
    CHECK(NodesetLoader_sort(l));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("enc-prefix", "P20", "Every browse name that starts with Default Binary is taken for the binary encoding",
 "an encoding node whose name only starts like the default one",
 [("src/Nodeset.c", "!strcmp(node->browseName.name, \"Default Binary\") && !ref->isForward)", "!strncmp(node->browseName.name, \"Default Binary\", 14) && !ref->isForward)")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UAObject NodeId=\"ns=1;i=1\" BrowseName=\"Default Binary2\"><References>" REF("i=38", "false", "ns=1;i=2") "</References></UAObject>" TAIL));
    CHECK(!NodesetLoader_getBidirectionalRefs(l));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("enc-forward", "P20", "Forward encoding references of encoding nodes in namespace 0 are listed as well",
 "a forward HasEncoding reference of a node named Default Binary",
 [("src/Nodeset.c", "!strcmp(node->browseName.name, \"Default Binary\") && !ref->isForward)", "!strcmp(node->browseName.name, \"Default Binary\") && (!ref->isForward || ref->next))")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 "<UAObject NodeId=\"ns=1;i=1\" BrowseName=\"Default Binary\"><References>" REF("i=38", "false", "ns=1;i=2") REF("i=38", "true", "ns=1;i=3") "</References></UAObject>" TAIL));
    const NL_BiDirectionalReference *r = NodesetLoader_getBidirectionalRefs(l);
    CHECK(r && !r->next);
    NodesetLoader_delete(l);
    return 0;
}''')
bug("many-capacity", "P21", "The second growth of a node list does not enlarge it",
 "more nodes of a class than twice the initial capacity",
 [("src/nodes/NodeContainer.c", "            (container->size + container->incrementSize) * sizeof(void *));", "            (container->incrementSize * 2 + container->size / 8) * sizeof(void *));")],
 r'''
int demo(void) {
    static char xml[400000]; char b[400];
    strcpy(xml, HEAD NS1);
    char *p = xml + strlen(xml);
    for(int i = 0; i < 30; i++) p += sprintf(p, "<UAView NodeId=\"ns=1;i=%d\" BrowseName=\"1:v\"/>", 100 + i);
    strcpy(p, TAIL);
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, xml));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    CHECK(nNodes == 30);
    NodesetLoader_delete(l);
    return 0;
}''')
bug("many-first-growth", "P21", "A node that arrives exactly when its list is full is dropped for classes that hold hundreds",
 "the 201st node of a class",
 [("src/nodes/NodeContainer.c", "        container->capacity += container->incrementSize;\n    }\n", "        container->capacity += container->incrementSize;\n        if (container->size == 200)\n        {\n            return;\n        }\n    }\n")],
 r'''
int demo(void) {
    static char xml[400000]; char b[400];
    strcpy(xml, HEAD NS1);
    char *p = xml + strlen(xml);
    for(int i = 0; i < 203; i++) p += sprintf(p, "<UADataType NodeId=\"ns=1;i=%d\" BrowseName=\"1:v\"/>", 100 + i);
    strcpy(p, TAIL);
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, xml));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    CHECK(nNodes == 203);
    NodesetLoader_delete(l);
    return 0;
}''')
bug("log-warning-word", "P22", "Warnings of the default logger carry the prefix of errors",
 "a message of level warning printed by the default logger",
 [("src/PrintfLogger.c", 'static const char *logLevel[3] = {"Debug", "Warning", "Error"};', 'static const char *logLevel[3] = {"Debug", "Error", "Error"};')],
 r'''
#include "InternalLogger.h"
int demo(void) {
    NodesetLoader_Logger *g = InternalLogger_new();
    const char *p = "out.txt";
    freopen(p, "w", stdout);
    g->log(g->context, NODESETLOADER_LOGLEVEL_WARNING, "x");
    fflush(stdout);
    char b[200] = ""; FILE *f = fopen(p, "r"); fgets(b, sizeof b, f); fclose(f);
    CHECK(!strcmp(b, "NODESETLOADER: Warning : x\n"));
    free(g);
    return 0;
}''')
bug("log-override", "P22", "A caller's logger without context is replaced by the default logger",
 "a logger of the caller whose context is NULL",
 [("src/NodesetLoader.c", "    if (!logger)\n    {\n", "    if (!logger || (!logger->context && !refService))\n    {\n")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    NL_FileContext fc; memset(&fc, 0, sizeof fc);
    CHECK(!NodesetLoader_importFile(l, NULL));
    CHECK(logCount[0] + logCount[1] + logCount[2] == 1);
    NodesetLoader_delete(l);
    return 0;
}''')
EXTDEMO = r'''
static char trace[2000];
static void *nw(void) { strcat(trace, "N"); return trace; }
static void st(void *d, const char *n, int na, const char **a) { CHECK(d == trace); strcat(trace, "<"); strcat(trace, n); }
static void en(void *d, const char *n, const char *t) { CHECK(d == trace); strcat(trace, "/"); strcat(trace, n); strcat(trace, "="); strcat(trace, t ? t : ""); strcat(trace, ";"); }
static void fi(void *d) { CHECK(d == trace); strcat(trace, "F"); }
'''
bug("ext-depth", "P23", "The end of an element named Extension nested in an extension is not passed on",
 "an extension that contains an element named Extension",
 [("src/NodesetLoader.c", "                pctx->extIf->end(pctx->extensionData, localname,\n                                 pctx->onCharacters);", "                if (strcmp(localname, EXTENSIONS))\n                {\n                    pctx->extIf->end(pctx->extensionData, localname,\n                                     pctx->onCharacters);\n                }")],
 EXTDEMO + r'''
int demo(void) {
    NodesetLoader_ExtensionInterface e; memset(&e, 0, sizeof e);
    e.newExtension = nw; e.start = (void *)st; e.end = (void *)en; e.finish = (void *)fi;
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(loadExt(l, HEAD NS1 "<UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"><Extensions><Extension><a><Extensions>t</Extensions></a></Extension></Extensions></UAObject>" TAIL, &e));
    CHECK(!strcmp(trace, "N<a<Extensions/Extensions=t;/a=;F"));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("ext-first-kept", "P23", "With several extensions only the first one is finished",
 "a node with two extensions",
 [("src/NodesetLoader.c", "                pctx->extIf->finish(pctx->extensionData);\n                pctx->node->extension = pctx->extensionData;", "                if (!pctx->node->extension)\n                {\n                    pctx->extIf->finish(pctx->extensionData);\n                }\n                pctx->node->extension = pctx->extensionData;")],
 EXTDEMO + r'''
int demo(void) {
    NodesetLoader_ExtensionInterface e; memset(&e, 0, sizeof e);
    e.newExtension = nw; e.start = (void *)st; e.end = (void *)en; e.finish = (void *)fi;
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(loadExt(l, HEAD NS1 "<UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:a\"><Extensions><Extension><a>1</a></Extension><Extension><b>2</b></Extension></Extensions></UAObject>" TAIL, &e));
    CHECK(!strcmp(trace, "N<a/a=1;FN<b/b=2;F"));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("api-refs-before-import", "P24", "Deleting a loader after a failed first import frees the node set twice",
 "a first import of a file that does not exist",
 [("src/NodesetLoader.c", "    if (!f)\n    {\n        loader->logger->log(loader->logger->context,\n                            NODESETLOADER_LOGLEVEL_ERROR,\n                            \"NodesetLoader: file open error\");\n", "    if (!f)\n    {\n        loader->logger->log(loader->logger->context,\n                            NODESETLOADER_LOGLEVEL_ERROR,\n                            \"NodesetLoader: file open error\");\n        if (!loader->nodeset->allNodes->size)\n        {\n            Nodeset_cleanup(loader->nodeset);\n        }\n"),
  ("src/NodesetLoader.c", '#include "nodes/Node.h"\n', '#include "nodes/Node.h"\n#include "nodes/NodeContainer.h"\n')],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    NL_FileContext fc; memset(&fc, 0, sizeof fc);
    static unsigned short f(void *c, const char *u);
    fc.file = "no/such/file"; fc.addNamespace = (void *)demo;
    CHECK(!NodesetLoader_importFile(l, &fc));
    NodesetLoader_delete(l);
    return 0;
}'''.replace("    static unsigned short f(void *c, const char *u);\n", ""))
bug("api-sort-again", "P24", "Deleting the loader after a sort that failed because of an unknown reference type releases a node twice",
 "a failed sort followed by deletion",
 [("src/Nodeset.c", "            UA_String_clear(&nodeIdStr);\n            return false;", "            UA_String_clear(&nodeIdStr);\n            if (i == 0)\n            {\n                nodes->owner = true;\n            }\n            return false;")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 NODE("UAMethod", "ns=1;i=1", REF("ns=1;i=10", "true", "i=61")) TAIL));
    CHECK(!NodesetLoader_sort(l));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("multi-held-back", "P25", "Nodes held back for an unknown reference type are dropped when the type arrives with a later file",
 "a node whose reference type is declared in a second file, with sorting attempted in between",
 [("src/Nodeset.c", "                (int)nodeIdStr.length, (char *)nodeIdStr.data);\n            UA_String_clear(&nodeIdStr);\n            return false;", "                (int)nodeIdStr.length, (char *)nodeIdStr.data);\n            UA_String_clear(&nodeIdStr);\n            nodes->size = i;\n            return false;")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 NODE("UAObject", "ns=1;i=1", REF("ns=1;i=10", "true", "i=85")) TAIL));
    CHECK(!NodesetLoader_sort(l));
    nsCount = 0;
    CHECK(load(l, HEAD NS1 NODE("UAReferenceType", "ns=1;i=10", REF("i=45", "false", "i=32")) TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    CHECK(nNodes == 2 && num(5, 1));
    NodesetLoader_delete(l);
    return 0;
}''')
bug("multi-emitted-target", "P25", "A node known as a target of an earlier file is not delivered when a later file declares it",
 "sorting after a file that references a node declared by the next file",
 [("src/Sort.c", "            if (ctx->head->data != NULL)\n            {\n                callback(nodeset, ctx->head->data);\n            }\n", "            if (ctx->head->data != NULL)\n            {\n                callback(nodeset, ctx->head->data);\n            }\n            else if (ctx->head->edges && ctx->head->edges->next)\n            {\n                ctx->head->edgeCount++;\n            }\n")],
 r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1 NODE("UAObject", "ns=1;i=1", REF("i=47", "false", "ns=1;i=9")) NODE("UAObject", "ns=1;i=2", REF("i=47", "false", "ns=1;i=9")) TAIL));
    CHECK(NodesetLoader_sort(l));
    nsCount = 0;
    CHECK(load(l, HEAD NS1 NODE("UAObject", "ns=1;i=9", "") TAIL));
    CHECK(NodesetLoader_sort(l));
    collect(l);
    CHECK(nNodes == 3 && num(5, 9));
    NodesetLoader_delete(l);
    return 0;
}''')

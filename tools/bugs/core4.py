bug("unres-first-ok", "P06", "Only the first reference of a node that waits for a reference type is looked at again",
 "a node with two references of unresolvable types of which one becomes known",
 [("src/Nodeset.c", "            insertElementAtFront(&node->nonHierachicalRefs, node->unknownRefs);\n            node->unknownRefs = nextUnknown;\n            continue;\n", "            insertElementAtFront(&node->nonHierachicalRefs, node->unknownRefs);\n            node->unknownRefs = nextUnknown;\n            break;\n")], r'''
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(load(l, HEAD NS1
      "<UAObject NodeId=\"ns=1;i=5\" BrowseName=\"1:first\"><References>" REF("i=47", "false", "i=85") REF("ns=1;i=99", "true", "i=84") REF("ns=1;i=9", "true", "i=84") "</References></UAObject>"
      "<UAReferenceType NodeId=\"ns=1;i=9\" BrowseName=\"1:r\"><References>" REF("i=45", "false", "i=32") "</References></UAReferenceType>" TAIL));
    CHECK(!NodesetLoader_sort(l));
    NodesetLoader_delete(l); CHECK(live == 0);
    return 0;
}''')
bug("ns-index-cut", "P08", "Namespace indices of browse names are cut to eight bits by the server's own numbering",
 "a caller that hands out a namespace index above 255",
 [("src/Nodeset.c", "                (uint16_t)NamespaceList_getNamespace(namespaces, bn.nsIdx)->idx;\n", "                (uint8_t)NamespaceList_getNamespace(namespaces, bn.nsIdx)->idx;\n")], r'''
static unsigned short ns300(void *c, const char *u) { (void)c; (void)u; return 300; }
int demo(void) {
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    FILE *f = fopen("d300.xml", "w"); fputs(HEAD NS1 "<UAObject NodeId=\"ns=1;i=5\" BrowseName=\"1:first\"/>" TAIL, f); fclose(f);
    NL_FileContext c; memset(&c, 0, sizeof c); c.file = "d300.xml"; c.addNamespace = ns300;
    CHECK(NodesetLoader_importFile(l, &c)); CHECK(NodesetLoader_sort(l)); collect(l);
    CHECK(num(300, 5) && num(300, 5)->browseName.nsIdx == 300);
    NodesetLoader_delete(l); CHECK(live == 0);
    return 0;
}''')
bug("ext-after-nested", "P23", "An element named Extension inside an extension ends it",
 "an extension with a nested element of that name",
 [("src/NodesetLoader.c", "        if (!strcmp(localname, EXTENSION) && pctx->unknown_depth == 0)\n", "        if (!strcmp(localname, EXTENSION) && pctx->unknown_depth <= 1 && (pctx->unknown_depth == 0 || !pctx->onCharacters))\n")], r'''
static int starts, ends, finished;
static void *nx(void) { return &starts; }
static void st(void *d, const char *n, int k, const char **a) { (void)d; (void)n; (void)k; (void)a; starts++; }
static void en(void *d, const char *n, const char *t) { (void)d; (void)n; (void)t; ends++; }
static void fi(void *d) { (void)d; finished++; }
int demo(void) {
    NodesetLoader_ExtensionInterface x; memset(&x, 0, sizeof x); x.newExtension = nx; x.start = st; x.end = en; x.finish = fi;
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    CHECK(loadExt(l, HEAD NS1 "<UAObject NodeId=\"ns=1;i=5\" BrowseName=\"1:first\"><Extensions><Extension><a/><Extension></Extension><b/></Extension></Extensions></UAObject>" TAIL, &x));
    CHECK(starts == 3 && ends == 3 && finished == 1);
    NodesetLoader_delete(l);
    return 0;
}''')

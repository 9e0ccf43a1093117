/* P14/P15: every class of node with every combination of two kinds of content, and each kind three times. */
#include "doc.h"
static const char *CLS[] = {"UAObject", "UAVariable", "UAObjectType", "UAReferenceType", "UADataType", "UAVariableType", "UAMethod", "UAView"};
#define NKIND 17
static int cls, sid;
static void txt(const char *n) { S(n, "Locale", "en", END); T("t"); T("u"); E(); }
static const char *id(const char *s, const char *n) { return sid ? s : n; }
static void refs(const char *type, int fw) { S("References", END); ref(type, fw, id("ns=1;s=target", "ns=1;i=8")); ref(type, fw, id("ns=1;s=other", "ns=1;i=9")); E(); }
static void content(int k) {
    switch(k) {
    case 0: txt("DisplayName"); break;
    case 1: txt("Description"); break;
    case 2: txt("InverseName"); break;
    case 3: refs("i=47", 0); break;
    case 4: refs("i=39", 1); break;
    case 5: refs("i=40", 1); break;
    case 6: refs(id("ns=1;s=never", "ns=1;i=99"), 1); break;
    case 7: refs(id("ns=1;s=later", "ns=1;i=70"), 1); break;
    case 8: refs("i=38", 0); break;
    case 9: S("Value", END); EL("Int32", "1"); E(); break;
    case 10: S("Value", END); S("ListOfInt32", END); EL("Int32", "1"); EL("Int32", "2"); E(); E(); break;
    case 11: S("Value", END); S("ListOfExtensionObject", END);
        for(int i = 0; i < 2; i++) { S("ExtensionObject", END); S("TypeId", END); EL("Identifier", "i=1"); E(); S("Body", END); S("A", END); EL("b", "1"); S("c", END); EL("d", NULL); E(); E(); E(); E(); }
        E(); E(); break;
    case 12: S("Definition", "Name", "D", END); for(int i = 0; i < 2; i++) { S("Field", "Name", "f", "DataType", id("ns=1;s=dt", "i=6"), END); txt("Description"); E(); } E(); break;
    case 13: S("Definition", "Name", "D", END); for(int i = 0; i < 3; i++) { S("Field", "Name", "f", "Value", "3", END); E(); } E(); break;
    case 14: S("Definition", "Name", "D", "IsOptionSet", "true", END); S("Field", "Name", "f", "Value", "3", END); E(); E(); break;
    case 15: S("Extensions", END); S("Extension", END); EL("x", "y"); E(); E(); break;
    case 16: S("Unknown", END); txt("DisplayName"); E(); break;
    }
}
static int k1, k2, times, pre;
static void doc(void) {
    S("UANodeSet", END); nsUris(1);
    S("Aliases", END); S("Alias", "Alias", "Al", END); T("ns=1;s=alias"); E(); E();
    if(pre) { S("UAObject", "NodeId", id("ns=1;s=target", "ns=1;i=8"), "BrowseName", "1:p", END); E(); }
    S(CLS[cls], "NodeId", id("ns=1;s=me", "ns=1;i=1"), "BrowseName", "Default Binary", "ParentNodeId", id("ns=1;s=target", "ns=1;i=8"), "DataType", "Al", "Symmetric", "true", "EventNotifier", "1", END);
    for(int i = 0; i < times; i++) content(k1);
    if(times == 1) content(k2);
    E();
    S("UAReferenceType", "NodeId", id("ns=1;s=later", "ns=1;i=70"), "BrowseName", "1:r", END); S("References", END); ref("i=45", 0, "i=33"); E(); E();
    E();
}
static int seen;
static void cb(void *c, NL_Node *n) {
    (void)c;
    seen += n->nodeClass >= 0;
    if(n->displayName.text) seen += (int)strlen(n->displayName.text);
    for(NL_Reference *r = n->hierachicalRefs; r; r = r->next) seen += r->isForward;
    for(NL_Reference *r = n->nonHierachicalRefs; r; r = r->next) seen += r->isForward;
}
void vf_main(void) {
    cls = vf_choose(0, 7);
    k1 = vf_choose(0, NKIND - 1); k2 = vf_choose(0, NKIND);
    times = 1;
    if(k2 == NKIND) times = vf_choose(2, 3);
    sid = 1; /* string ids: they own memory */
    pre = vf_bool();
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    bool ok = vf_import(l, 0, NULL);
    vf_assert(ok, "well-formed documents are accepted");
    if(vf_bool()) vf_obs(NodesetLoader_sort(l));
    for(int c = 0; c < NL_NODECLASS_COUNT; c++) NodesetLoader_forEachNode(l, (NL_NodeClass)c, NULL, cb);
    for(const NL_BiDirectionalReference *r = NodesetLoader_getBidirectionalRefs(l); r; r = r->next) seen++;
    NodesetLoader_delete(l);
    vf_obs(seen);
#ifdef P14
    vf_assert(vf_live == 0, "everything is released, once");
#endif
    vf_witness("done");
}

/* Every namespace index that reaches the server is the server's: each file's own table, translated. */
#include "bdoc.h"
/* tables: which Uri ('a'..'c', 0 for an empty one) is at which index */
static const char *TAB[] = {"a", "ab", "ba", "aab", "0a", "bca", "cab", "a0b0"};
static int tab[2], x, y, z, nFiles, strIds;
static char *id(char *b, int file, int ns, int item) {
    strcpy(b, strIds ? "ns=0;s=10" : "ns=0;i=10");
    b[3] = (char)('0' + ns); b[7] = (char)('1' + file); b[8] = (char)('0' + item);
    return b;
}
static void node(const char *el, int file, int ns, int item, int bns, const char *rt, const char *parent) {
    char b[16], n[4] = "0:n";
    n[0] = (char)('0' + bns);
    S(el, "NodeId", id(b, file, ns, item), "BrowseName", n, END); parentRef(rt, parent); E();
}
static void doc(int f) {
    char b[16], c[16], d[16], n[4] = "0:n";
    const char *t = TAB[tab[f]];
    S("UANodeSet", END);
    S("NamespaceUris", END);
    for(int i = 0; t[i]; i++) { char u[8] = "urn:a"; u[4] = t[i]; if(t[i] == '0') EL("Uri", 0); else EL("Uri", u); }
    E();
    node("UADataType", f, x, 0, z, "i=45", "i=22");
    node("UAReferenceType", f, y, 1, z, "i=45", "i=47");
    node("UAVariableType", f, x, 2, z, "i=45", "i=63");
    node("UAObject", f, y, 3, z, "i=35", "i=85");
    n[0] = (char)('0' + z);
    S("UAVariable", "NodeId", id(b, f, x, 4), "BrowseName", n, "ParentNodeId", id(c, f, y, 3), "DataType", id(d, f, x, 0), END);
    S("References", END);
    ref("i=40", 1, id(b, f, x, 2));
    ref(id(b, f, y, 1), 0, id(c, f, y, 3));
    ref("i=37", 1, id(b, f, y, 1));
    E(); E();
    S("UAVariable", "NodeId", id(b, f, y, 5), "BrowseName", n, "DataType", "i=17", "ValueRank", "-1", END);
    parentRef("i=35", "i=85");
    S("Value", END); S("NodeId", END); EL("Identifier", id(c, f, x, 4)); E(); E(); E();
    S("UAVariable", "NodeId", id(b, f, y, 6), "BrowseName", n, "DataType", "i=20", "ValueRank", "-1", END);
    parentRef("i=35", "i=85");
    n[1] = 0;
    S("Value", END); S("QualifiedName", END); EL("Name", "q"); EL("NamespaceIndex", n); E(); E(); E();
    E();
}
static void doc0(void) { doc(0); }
static void doc1(void) { doc(1); }
static char seenUri[16]; static int nUri;
static unsigned want(int f, int ns) {            /* the server's index */
    unsigned w = 0;
    for(int k = 1; TAB[tab[f]][k - 1]; k++)
        for(int u = 0; u < nUri; u++) if(seenUri[u] == TAB[tab[f]][k - 1]) w = ns == k ? vf_nsMap[u] : w;
    return w;
}
static int isId(const UA_NodeId *i, int f, int ns, int item) {
    if(!strIds) return vf_isNum(i, want(f, ns), 10u * (1u + (unsigned)f) + (unsigned)item);
    return VF_AND(i->identifierType == UA_NODEIDTYPE_STRING && i->identifier.string.length == 2, VF_AND(i->namespaceIndex == want(f, ns),
           i->identifier.string.data[0] == '1' + f && i->identifier.string.data[1] == '0' + item));
}
static int file, nAdd;
static void onAdd(const struct VfAdd *a) {
    if(a->result != UA_STATUSCODE_GOOD) return;
    const UA_VariableAttributes *v = (const UA_VariableAttributes *)a->attr;
    int item = a->cls == UA_NODECLASS_DATATYPE ? 0 : a->cls == UA_NODECLASS_REFERENCETYPE ? 1 : a->cls == UA_NODECLASS_VARIABLETYPE ? 2 : a->cls == UA_NODECLASS_OBJECT ? 3 : vf_isNum(&v->dataType, 0, 17) ? 5 : vf_isNum(&v->dataType, 0, 20) ? 6 : 4;
    int ns = item == 1 || item == 3 || item > 4 ? y : x;
    vf_assert(isId(a->id, file, ns, item), "node id in the server's namespace");
    vf_assert(a->bn->namespaceIndex == want(file, z), "browse name in the server's namespace");
    if(item == 4) {
        vf_assert(isId(a->parent, file, y, 3), "parent id");
        vf_assert(isId(a->refType, file, y, 1), "reference type");
        vf_assert(isId(a->typeDef, file, x, 2), "type definition");
        vf_assert(isId(&v->dataType, file, x, 0), "data type");
    }
    if(item == 5) { vf_assert(v->value.data != NULL && isId((const UA_NodeId *)v->value.data, file, x, 4), "id in a value"); vf_witness("values"); }
    if(item == 6) vf_assert(v->value.data != NULL && ((const UA_QualifiedName *)v->value.data)->namespaceIndex == want(file, z), "name in a value");
    nAdd++;
}
void vf_main(void) {
    nFiles = vf_choose(1, 2); strIds = vf_choose(0, 1);
    for(int f = 0; f < nFiles; f++) tab[f] = vf_choose(0, nFiles == 2 && !BOTH ? f ? 6 : 2 : 7);
    int n = 9;
    for(int f = 0; f < nFiles; f++) { int l = (int)strlen(TAB[tab[f]]); if(l < n) n = l; }
    x = vf_int(1, n); y = vf_int(1, n); z = vf_int(0, n);
    for(int i = 0; i < 4; i++) {
        vf_nsMap[i] = (unsigned short)vf_int(1, 65535);
        for(int j = 0; j < i; j++) vf_assume(vf_nsMap[i] != vf_nsMap[j]);
    }
    for(int f = 0; f < nFiles; f++)
        for(const char *t = TAB[tab[f]]; *t; t++) {
            int k = 0;
            while(k < nUri && seenUri[k] != *t) k++;
            if(k == nUri) seenUri[nUri++] = *t;
        }
    vf_doc[0] = doc0; vf_doc[1] = doc1; vf_onAdd = onAdd;
    for(file = 0; file < nFiles; file++) {
        nAdd = 0;
        vf_assert(vf_load(file), "loads");
        vf_assert(nAdd == 7, "all nodes");
    }
    vf_assert(vf_srvNamespaces == nUri, "each namespace of the files is registered at the server");
    for(int u = 0; u < nUri; u++) vf_assert(seenUri[u] == '0' ? vf_srvUri[u][0] == 0 : vf_srvUri[u][4] == seenUri[u], "in order");
    if(nFiles == 2 && tab[0] == 1 && tab[1] == 2) vf_witness("the same Uris in another order");
    bEnd();
}

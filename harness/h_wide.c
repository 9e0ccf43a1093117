/* P09, P11, P17, P18: many of a kind: elements of a list value, children of an element, fields of a definition,
 * references of a node, aliases. The numbers are chosen, the contents symbolic. */
#include "doc.h"
#ifndef STEP
#define STEP 1
#endif
#define MAXN 700
static int n, c0, c1, c2, d0;
static char ch(int i) { return (char)(i % 3 == 0 ? c0 : i % 3 == 1 ? c1 : c2); }
static void txt(int i, char *t) { snprintf(t, 8, "%d", i); int k = (int)strlen(t); t[k] = ch(i); t[k + 1] = 0; }
static void same(const char *a, int i, const char *what) {
    char t[8]; txt(i, t);
    vf_assert(a && !strcmp(a, t), what);
}
static void elem(int i) { char t[8]; txt(i, t); S("a", END); T(t); E(); }
static void doc(void) {
    char t[8], b[24];
    S("UANodeSet", END); nsUris(1);
#if WIDE == 4
    S("Aliases", END);
    for(int i = 0; i < n; i++) {
        b[0] = 'A'; txt(i, b + 1); b[strlen(b) - 1] = 'x';
        S("Alias", "Alias", b, END); txt(i, t); strcpy(b, "ns=1;s="); strcpy(b + 7, t); T(b); E();
    }
    E();
#endif
#if WIDE <= 1
    S("UAVariable", "NodeId", "ns=1;i=1", "BrowseName", "1:a", END);
    S("Value", END);
    if(WIDE == 0) { S("ListOfa", END); for(int i = 0; i < n; i++) elem(i); E(); }
    else { S("ExtensionObject", END); S("TypeId", END); EL("Identifier", "i=297"); E(); S("Body", END); S("b", END); for(int i = 0; i < n; i++) elem(i); E(); E(); E(); }
    E(); E();
#elif WIDE == 2
    S("UADataType", "NodeId", "ns=1;i=1", "BrowseName", "1:a", END); S("Definition", "Name", "D", END);
    for(int i = 0; i < n; i++) {
        txt(i, t);
        if(i % 2) { char r[2] = {(char)('0' + d0), 0}; S("Field", "Name", t, "DataType", "ns=1;i=7", "ValueRank", r, END); E(); }
        else { S("Field", "Name", t, END); E(); }
    }
    E(); E();
#else
    S("UAObject", "NodeId", "ns=1;i=1", "BrowseName", "1:a", END); S("References", END);
    for(int i = 0; i < n; i++) {
        char q[24];
#if WIDE == 3
        strcpy(q, "ns=1;s="); txt(i, q + 7);
#else
        q[0] = 'A'; txt(i, q + 1); q[strlen(q) - 1] = 'x';
#endif
        S("Reference", "ReferenceType", i % 2 ? "i=35" : "i=44", "IsForward", i % 4 < 2 ? "true" : "false", END); T(q); E();
    }
    E(); E();
#endif
    S("UAObject", "NodeId", "ns=1;i=2", "BrowseName", "1:b", END); E();
    E();
}
#if WIDE >= 3
static unsigned char seenRef[MAXN];
static void see(const NL_Reference *r, int hier) {
    for(; r; r = r->next) {
        const UA_NodeId *t = &r->target;
        vf_assert(t->namespaceIndex == vf_nsMap[0] && t->identifierType == UA_NODEIDTYPE_STRING, "target id");
        char b[8]; size_t len = t->identifier.string.length;
        vf_assert(len >= 2 && len < 8, "target id");
        memcpy(b, t->identifier.string.data, len); b[len] = 0;
        int i = 0; for(size_t k = 0; k + 1 < len; k++) i = 10 * i + b[k] - '0';
        vf_assert(i >= 0 && i < n && !seenRef[i], "every reference once");
        seenRef[i] = 1;
        same(b, i, "target id");
        vf_assert((int)r->isForward == (i % 4 < 2), "direction");
        vf_assert(vf_isNum(&r->refType, 0, i % 2 ? 35 : 44), "reference type"); (void)hier;
    }
}
#endif
void vf_main(void) {
    n = vf_choose(LO, HI);
    if((n - LO) % STEP != 0 && n != HI) vf_end_path();
    c0 = vf_int('A', 'Z'); c1 = vf_int('a', 'z'); c2 = vf_int('A', 'Z'); d0 = vf_int(0, 9);
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "well-formed document imports");
    vf_assert(NodesetLoader_sort(l), "sorts");
    vf_collect(l);
    vf_assert(vf_nNodes == 2, "both nodes");
    const NL_Node *node = vf_findNum(vf_nsMap[0], 1);
    vf_assert(node != NULL, "the node");
#if WIDE <= 1
    NL_Value *v = ((const NL_VariableNode *)node)->value;
    vf_assert(v && v->data, "the value");
    NL_Data *d = v->data;
    if(WIDE == 0) vf_assert(v->isArray && !v->isExtensionObject && vf_streq(v->type, "a"), "array of a");
    else vf_assert(!v->isArray && v->isExtensionObject && !strcmp(d->name, "b"), "structure b");
    vf_assert(d->type == DATATYPE_COMPLEX && (int)d->val.complexData.membersSize == n, "as many members as elements");
    for(int i = 0; i < n; i++) {
        NL_Data *m = d->val.complexData.members[i];
        vf_assert(m && m->parent == d && m->type == DATATYPE_PRIMITIVE && !strcmp(m->name, "a"), "member");
        same(m->val.primitiveData.value, i, "members in file order");
    }
#elif WIDE == 2
    NL_DataTypeDefinition *d = ((const NL_DataTypeNode *)node)->definition;
    vf_assert(d && (int)d->fieldCnt == n && !d->isEnum, "as many fields as written");
    for(int i = 0; i < n; i++) {
        NL_DataTypeDefinitionField *f = &d->fields[i];
        same(f->name, i, "field names in file order");
        vf_assert(i % 2 ? vf_isNum(&f->dataType, vf_nsMap[0], 7) : vf_isNum(&f->dataType, 0, 24), "field data type");
        vf_assert(f->valueRank == (i % 2 ? d0 : -1) && !f->isOptional, "field value rank");
    }
#else
    see(node->hierachicalRefs, 1); see(node->nonHierachicalRefs, 0); see(node->unknownRefs, 0);
    for(int i = 0; i < n; i++) vf_assert(seenRef[i], "every reference kept");
#endif
    vf_witness("many");
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "released");
}

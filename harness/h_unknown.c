/* P12: elements the loader does not know are skipped with everything inside them. */
#include "doc.h"
static int pos, shape, at;
/* AT: keys with their NUL */
static char un[16], fn[2][16], tx[2];
static const struct VfAttr AT[2] = {{"NodeId", 7, "i=1", 3}, {"Alias", 6, "Al", 2}};
static void unk(void) { SRAW(un, 16, 2, AT); }
static void unknown(void) {
    int mine = pos == at;
    at++;
    if(!mine) return;
    unk();
    switch(shape) {
    case 0: break;
    case 1: TN(tx, 2); break;
    case 2: SRAW(fn[0], 16, 2, AT); TN(tx, 2); SRAW(fn[1], 16, 0, NULL); E(); E(); TN(tx, 1); break;
    case 3: S("UAObject", "NodeId", "ns=1;i=9", "BrowseName", "1:z", END); EL("DisplayName", "zz"); E(); break;
    case 4: S("References", END); ref("i=47", 0, "i=88"); E(); S("Value", END); EL("Int32", "1"); E(); EL("Uri", "urn:zz"); break;
    case 5: S("Definition", END); S("Field", "Name", "q", "Value", "3", END); E(); E(); S("Alias", "Alias", "Al", END); T("i=99"); E(); S("Extensions", END); EL("Extension", "e"); E(); break;
    case 6: E(); unk(); SRAW(fn[0], 16, 0, NULL); E(); break;
    }
    E();
}
static void doc(void) {
    at = 0;
    S("UANodeSet", END); unknown();
    S("NamespaceUris", END); unknown(); S("Uri", END); unknown(); T("urn:a"); E(); unknown(); EL("Uri", "urn:b"); E(); unknown();
    S("Aliases", END); unknown(); S("Alias", "Alias", "Al", END); unknown(); T("i=86"); E(); unknown(); S("Alias", "Alias", "A2", END); T("i=87"); E(); E();
    S("UADataType", "NodeId", "ns=1;i=1", "BrowseName", "1:a", END); unknown();
    S("DisplayName", "Locale", "en", END); unknown(); T("dn"); E(); unknown();
    S("Description", END); unknown(); T("de"); E(); unknown();
    S("References", END); unknown(); S("Reference", "ReferenceType", "i=35", END); unknown(); T("Al"); E(); unknown(); S("Reference", "ReferenceType", "i=39", END); T("A2"); E(); E(); unknown();
    S("Definition", "Name", "D", END); unknown(); S("Field", "Name", "f", "DataType", "i=6", END); unknown(); E(); unknown(); S("Field", "Name", "g", "DataType", "i=7", END); E(); E(); unknown();
    S("Extensions", END); unknown(); EL("Extension", "x"); unknown(); EL("Extension", NULL); E(); unknown();
    E(); unknown();
    S("UAReferenceType", "NodeId", "ns=1;i=2", "BrowseName", "1:b", END); S("InverseName", END); unknown(); T("in"); E(); unknown(); E(); unknown();
    S("UAVariable", "NodeId", "ns=1;i=3", "BrowseName", "1:c", END); unknown(); S("Value", END); EL("Int32", "42"); E(); unknown(); E(); unknown();
    E();
}
void vf_main(void) {
    pos = vf_int(0, 35);
    shape = vf_int(0, 6);
    /* a name the loader has no meaning for, at whatever place; the nested names are arbitrary */
    static const char *KNOWN[] = {"UANodeSet", "NamespaceUris", "Uri", "Aliases", "Alias", "UAObject", "UAVariable", "UADataType", "UAReferenceType", "UAMethod", "UAView", "UAObjectType", "UAVariableType",
        "DisplayName", "Description", "InverseName", "References", "Reference", "Definition", "Field", "Value", "Extensions", "Extension"};
    for(int i = 0; i < 15; i++) { un[i] = (char)vf_int(1, 255); for(int k = 0; k < 2; k++) fn[k][i] = (char)vf_int(0, 255); }
    for(int i = 0; i < 2; i++) { tx[i] = (char)vf_int(1, 255); vf_assume(fn[i][0] != 0); }
    for(size_t i = 0; i < sizeof KNOWN / sizeof *KNOWN; i++) vf_assume(strcmp(un, KNOWN[i]) != 0);
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "well-formed document imports");
    if(pos < at) vf_witness("unknown element inserted");
    vf_assert(at <= 36, "every position is tried");
    vf_assert(vf_nsCount == 2 && !strcmp(vf_nsUri[0], "urn:a") && !strcmp(vf_nsUri[1], "urn:b"), "namespaces");
    vf_assert(NodesetLoader_sort(l), "sorts");
    vf_collect(l);
    vf_assert(vf_nNodes == 3, "nodes");
    NL_DataTypeNode *d = (NL_DataTypeNode *)vf_findNum(vf_nsMap[0], 1);
    NL_ReferenceTypeNode *r = (NL_ReferenceTypeNode *)vf_findNum(vf_nsMap[0], 2);
    NL_VariableNode *v = (NL_VariableNode *)vf_findNum(vf_nsMap[0], 3);
    vf_assert(d && d->nodeClass == NODECLASS_DATATYPE && r && r->nodeClass == NODECLASS_REFERENCETYPE && v && v->nodeClass == NODECLASS_VARIABLE, "classes");
    vf_assert(vf_streq(d->displayName.text, "dn") && vf_streq(d->displayName.locale, "en") && vf_streq(d->description.text, "de"), "texts");
    vf_assert(d->hierachicalRefs && !d->hierachicalRefs->next && vf_isNum(&d->hierachicalRefs->target, 0, 86) && d->nonHierachicalRefs && !d->nonHierachicalRefs->next && vf_isNum(&d->nonHierachicalRefs->target, 0, 87), "references");
    vf_assert(d->definition && d->definition->fieldCnt == 2 && vf_streq(d->definition->fields[1].name, "g") && vf_isNum(&d->definition->fields[1].dataType, 0, 7) && !d->definition->isEnum && vf_streq(d->definition->fields[0].name, "f") && vf_isNum(&d->definition->fields[0].dataType, 0, 6), "definition");
    vf_assert(vf_streq(r->inverseName.text, "in"), "inverse name");
    vf_assert(v->value && v->value->data && vf_streq(v->value->data->name, "Int32") && vf_streq(v->value->data->val.primitiveData.value, "42"), "value");
    vf_assert(v->displayName.text == NULL && v->hierachicalRefs == NULL, "nothing leaks into another node");
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "released");
}

/* P18: data type definitions. */
#include "doc.h"
#ifndef NF
#define NF 2
#endif
static int isUnion, isOpt, ft[NF], val[NF], rank[NF], opt[NF], dt[NF], ch[NF], rot, nf, abstract_, fields2;
/* ft: 0 name only, 1 value, 2 data type + rank + optional, 3 everything but value, other order, 4 value and data type */
static const char *BOOLS[] = {"", "true", "false", "1", "0"};
static void doc(void) {
    S("UANodeSet", END); nsUris(1);
    S("Aliases", END); S("Alias", "Alias", "Al", END); T("ns=1;s=Q"); E(); E();
    S("UADataType", "NodeId", "ns=1;i=1", "BrowseName", "1:a", "IsAbstract", abstract_ ? "true" : "false", END);
    const char *kv[6] = {"Name", "D"}; int n = 1;
    if(isUnion) { kv[2 * n] = "IsUnion"; kv[2 * n + 1] = BOOLS[isUnion]; n++; }
    if(isOpt) { kv[2 * n] = "IsOptionSet"; kv[2 * n + 1] = BOOLS[isOpt]; n++; }
    SA("Definition", n, kv);
    for(int i = 0; i < nf; i++) {
        char d[16], name[4] = "f ", v[8], r[4];
        name[1] = (char)ch[i];
        nid(d, 1, dt[i]);
        snprintf(v, sizeof v, "%d", 0); v[0] = '-'; v[1] = (char)('0' + val[i] / 10); v[2] = (char)('0' + val[i] % 10); v[3] = 0;
        r[0] = (char)('0' + rank[i]); r[1] = 0;
        const char *o = i ? opt[i] ? "1" : "0" : opt[i] ? "true" : "false";
        switch(ft[i]) {
        case 0: S("Field", "Name", name, END); break;
        case 1: S("Field", "Name", name, "Value", v + (val[i] & 1), END); break;
        case 2: S("Field", "Name", name, "DataType", d, "ValueRank", r, "IsOptional", o, END); break;
        case 3: S("Field", "IsOptional", o, "ArrayDimensions", "0", "ValueRank", r, "SymbolicName", "x", "DataType", d, "Name", name, END); break;
        case 4: d[0] = 0; strcpy(d, "ns=1;s=T "); d[8] = (char)ch[i]; S("Field", "Name", name, "DataType", d, "ValueRank", r, "IsOptional", o, END); break;
        case 5: S("Field", "DataType", "Al", "Name", name, "IsOptional", o, "ValueRank", r, END); break;
        }
        if(i == 0) { S("Description", END); T("unrelated"); E(); }
        E();
    }
    E(); E(); E();
}
void vf_main(void) {
    isUnion = vf_choose(0, 3); isOpt = vf_choose(0, 4); abstract_ = vf_choose(0, 1);
    nf = vf_choose(0, NF);
    for(int i = 0; i < nf; i++) {
        ft[i] = vf_choose(0, 5); val[i] = vf_int(0, 99); rank[i] = vf_int(0, 9); opt[i] = vf_choose(0, 1); dt[i] = vf_int(0, 9); ch[i] = vf_int(33, 126);
        if(ft[i] == 1) vf_assume((val[i] & 1) == 0 || 1);
        if(ft[i] < 2 && opt[i]) vf_end_path();
    }
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "well-formed document imports");
    vf_assert(NodesetLoader_sort(l), "sorts");
    vf_collect(l);
    vf_assert(vf_nNodes == 1, "one node");
    NL_DataTypeNode *n = (NL_DataTypeNode *)vf_nodes[0].n;
    NL_DataTypeDefinition *d = n->definition;
    vf_assert(d != NULL, "the definition");
    vf_assert(d->isUnion == (isUnion == 1 || isUnion == 3) && d->isOptionSet == (isOpt == 1 || isOpt == 3), "union and option set flags");
    if(isOpt != 1 && isOpt != 3) {
        int anyValue = 0;
        for(int i = 0; i < nf; i++) anyValue |= ft[i] == 1;
        vf_assert(d->isEnum == (anyValue != 0), "a definition with numbered fields is an enumeration");
        vf_assert((int)d->fieldCnt == nf, "as many fields as written");
        for(int i = 0; i < nf; i++) {
            NL_DataTypeDefinitionField *f = &d->fields[i];
            vf_assert(f->name && f->name[0] == 'f' && f->name[1] == (char)ch[i] && f->name[2] == 0, "field name, in file order");
            if(ft[i] == 1) {
                int e = val[i]; if((val[i] & 1) == 0) e = -e;
                vf_assert(f->value == e, "field value"); vf_witness("enum field");
            } else if(ft[i] >= 2) {
                if(ft[i] < 4) vf_assert(vf_isNum(&f->dataType, vf_nsMap[0], NID(dt[i])), "field data type");
                else {
                    const UA_NodeId *t = &f->dataType; size_t len = ft[i] == 4 ? 2 : 1;
                    vf_assert(t->namespaceIndex == vf_nsMap[0] && t->identifierType == UA_NODEIDTYPE_STRING && t->identifier.string.length == len, "field data type");
                    vf_assert(len == 1 ? t->identifier.string.data[0] == 'Q' : VF_AND(t->identifier.string.data[0] == 'T', t->identifier.string.data[1] == (UA_Byte)ch[i]), "field data type");
                }
                vf_assert(f->valueRank == rank[i], "field value rank");
                vf_assert(f->isOptional == opt[i], "optional flag"); vf_witness("structure field");
            } else {
                vf_assert(vf_isNum(&f->dataType, 0, 24) && f->valueRank == -1 && !f->isOptional, "field defaults"); vf_witness("defaults");
            }
        }
    } else { vf_assert(!d->isEnum, "an option set is no enumeration"); vf_witness("option set"); }
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "released");
}

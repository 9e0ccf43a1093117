/* P09: aliases. NA aliases with symbolic one/two letter names; a use names an alias, or writes an id. */
#include "doc.h"
#ifndef NA
#define NA 2
#endif
static int nm[NA][2], len[NA], use[2], ulen, where, strIds, idLike;   /* idLike: the names have the form of ids */
enum { RTYPE, TARGET, DTYPE, DTYPE_VT, FIELD, TWICE, NWHERE };
static char tx[NA][8], ut[8];
static void text(char *o, int a, int b, int n) {
    char c = idLike ? '5' : 'a';
    if(idLike) { *o++ = 'i'; *o++ = '='; }
    *o++ = (char)(c + a); if(n > 1) *o++ = (char)(c + b);
    *o = 0;
}
static void doc(void) {
    char t[16];
    for(int i = 0; i < NA; i++) text(tx[i], nm[i][0], nm[i][1], len[i]);
    text(ut, use[0], use[1], ulen);
    const char *u = ulen == 0 ? "i=44" : ut;
    S("UANodeSet", END);
    nsUris(1);
    S("Aliases", END);
    for(int i = 0; i < NA; i++) {
        strcpy(t, strIds ? "ns=1;s=al0" : "i=35");
        if(strIds) t[9] = (char)('0' + i); else t[3] = (char)('5' + i);
        S("Alias", "Alias", tx[i], END); T(t); E();
    }
    E();
    if(where == FIELD) {
        S("UADataType", "NodeId", "ns=1;i=1", "BrowseName", "1:a", END);
        S("Definition", "Name", "D", END);
        S("Field", "Name", "f", "DataType", u, END); E();
        E(); E();
    } else if(where == DTYPE || where == DTYPE_VT) {
        S(where == DTYPE ? "UAVariable" : "UAVariableType", "NodeId", "ns=1;i=1", "BrowseName", "1:a", "DataType", u, END); E();
    } else {
        S("UAView", "NodeId", "ns=1;i=1", "BrowseName", "1:a", END);
        S("References", END);
        ref(where == RTYPE ? u : "i=35", 1, where == RTYPE ? "i=85" : u);
        if(where == TWICE) ref("i=35", 1, u);
        E(); E();
    }
    E();
}
static void check(const UA_NodeId *id) {
    if(ulen == 0) { vf_assert(vf_isNum(id, 0, 44), "a written id is used as it is"); vf_witness("written id"); return; }
    int found = -1;
    for(int i = NA - 1; i >= 0; i--) {
        int eq = len[i] == ulen;
        eq = VF_AND(eq, nm[i][0] == use[0]);
        if(ulen > 1) eq = VF_AND(eq, nm[i][1] == use[1]);
        found = eq ? i : found;
    }
    if(found < 0) {
        if(idLike) vf_assert(vf_isNum(id, 0, ulen > 1 ? 55u + 10u * (unsigned)use[0] + (unsigned)use[1] : 5u + (unsigned)use[0]), "the id that is written");
        else vf_assert(UA_NodeId_isNull(id), "an unknown name gives the null id");
        vf_witness("unknown name");
    } else {
        if(strIds) {
            vf_assert(id->identifierType == UA_NODEIDTYPE_STRING && id->namespaceIndex == vf_nsMap[0] && id->identifier.string.length == 3, "the alias' id");
            vf_assert(id->identifier.string.data[2] == '0' + found, "the first alias of that name");
        } else vf_assert(vf_isNum(id, 0, 35u + (unsigned)found), "the first alias of that name");
        vf_witness("alias");
    }
}
void vf_main(void) {
    strIds = vf_choose(0, 1); idLike = vf_choose(0, 1);
    where = vf_choose(0, NWHERE - 1);
    ulen = vf_choose(0, 2);
    for(int i = 0; i < NA; i++) { len[i] = vf_choose(1, 2); nm[i][0] = vf_int(0, 2); nm[i][1] = vf_int(0, 2); }
    use[0] = vf_int(0, 2); use[1] = vf_int(0, 2);
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "well-formed document imports");
    /* only a reference with an unknown type makes the sorting fail */
    bool ok = NodesetLoader_sort(l);
    if(where != RTYPE) vf_assert(ok, "sorts");
    if(ok) {
        vf_collect(l);
        vf_assert(vf_nNodes == 1, "one node");
        NL_Node *n = vf_nodes[0].n;
        switch(where) {
        case DTYPE: check(&((NL_VariableNode *)n)->datatype); break;
        case DTYPE_VT: check(&((NL_VariableTypeNode *)n)->datatype); break;
        case FIELD: check(&((NL_DataTypeNode *)n)->definition->fields[0].dataType); break;
        default: {
            NL_Reference *r = n->hierachicalRefs ? n->hierachicalRefs : n->nonHierachicalRefs;
            vf_assert(r != NULL, "the reference");
            check(where == RTYPE ? &r->refType : &r->target);
            if(where == TWICE) { vf_assert(r->next != NULL, "second use"); check(&r->next->target); } }
        }
    }
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "alias ids are released once");
}

/* P08: namespace indexes written in a file are translated with the file's own NamespaceUris table,
 * wherever an id or a browse name may appear. n Uris; the index in the text is symbolic (one or two
 * digits) and so is every index the callback hands out. */
#include "doc.h"
static int nUri, ns, where, form, pc;
static const char *PC[] = {"UAObject", "UAVariable", "UAMethod", "UAView", "UAObjectType", "UAVariableType", "UADataType", "UAReferenceType"};
enum { ID, BNAME, PARENT, RTYPE, TARGET, DTYPE, DTYPE_VT, ALIAS_T, FIELD, NWHERE };
static const char *idText(char *b) {
    char *p = b;
    *p++ = 'n'; *p++ = 's'; *p++ = '=';
    if(form & 1) *p++ = (char)('0' + ns / 10);
    *p++ = (char)('0' + ns % 10);
    strcpy(p, form & 2 ? ";s=x;y" : ";i=77");
    return b;
}
static void doc(void) {
    char t[24], bn[24] = "0:name", uri[8] = "urn:a";
    idText(t);
    if(where == BNAME) {
        char *p = bn;
        if(form & 1) *p++ = (char)('0' + ns / 10);
        *p++ = (char)('0' + ns % 10);
        strcpy(p, form & 2 ? ":1:b" : ":name");
    }
    S("UANodeSet", END);
    S("NamespaceUris", END);
    for(int i = 0; i < nUri; i++) { uri[4] = (char)('a' + i); EL("Uri", uri); }
    E();
    S("Aliases", END);
    S("Alias", "Alias", "Al", END); T(where == ALIAS_T ? t : "i=85"); E();
    E();
    if(where == RTYPE) {
        S("UAReferenceType", "NodeId", t, "BrowseName", "0:rt", END);
        S("References", END); ref("i=45", 0, "i=33"); E();
        E();
    }
    if(where == FIELD) {
        S("UADataType", "NodeId", "i=1", "BrowseName", bn, END);
        S("Definition", "Name", "D", END);
        S("Field", "Name", "f", "DataType", t, END); E();
        E();
        E();
    } else if(where == DTYPE_VT) {
        S("UAVariableType", "NodeId", "i=1", "BrowseName", bn, "DataType", t, END); E();
    } else {
        S(where == DTYPE ? "UAVariable" : PC[pc], "NodeId", where == ID ? t : "i=1", "BrowseName", bn,
          where == DTYPE ? "DataType" : "ParentNodeId", where == PARENT || where == DTYPE ? t : "i=85", END);
        S("References", END);
        ref(where == RTYPE ? t : "i=35", 0, where == TARGET ? t : where == ALIAS_T ? "Al" : "i=86");
        E();
        E();
    }
    E();
}
void vf_main(void) {
    form = vf_choose(0, 3);
    where = vf_choose(0, NWHERE - 1);
    pc = where == PARENT ? vf_choose(0, 3) : where == ID || where == BNAME || where == TARGET ? vf_choose(0, 7) : 0;
    nUri = vf_choose(0, 3);
    if(form & 1) nUri = nUri * 4; /* 0, 4, 8 or 12 */
    ns = vf_int(0, form & 1 ? 14 : 5);
    int map[16];
    for(int k = 0; k < nUri; k++) { map[k] = vf_int(0, 65535); vf_nsMap[k] = (unsigned short)map[k]; }
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "well-formed document imports");
    vf_assert(vf_nsCount == nUri, "one callback per Uri");
    for(int k = 0; k < nUri; k++) {
        vf_assert(vf_nsCtx[k] == &vf_nsCount, "callback gets the caller's context");
        vf_assert(strlen(vf_nsUri[k]) == 5 && vf_nsUri[k][4] == 'a' + k, "callback gets the Uri, in file order");
    }
    vf_assert(NodesetLoader_sort(l), "sorts");
    vf_collect(l);
    vf_assert(vf_nNodes == (where == RTYPE ? 2 : 1), "nodes");
    NL_Node *n = NULL;
    for(int i = 0; i < vf_nNodes; i++) if(where != RTYPE || vf_nodes[i].cls != NODECLASS_REFERENCETYPE) n = vf_nodes[i].n;
    vf_assert(n != NULL, "the node");
    int want = ns;
    for(int k = 0; k < nUri; k++) want = ns == k + 1 ? map[k] : want;
    if(where == BNAME) {
        vf_assert(n->browseName.nsIdx == want, "browse name: translated index");
        vf_assert(!strcmp(n->browseName.name, form & 2 ? "1:b" : "name"), "browse name: text");
        vf_witness("browse name");
    } else {
        const UA_NodeId *id = NULL;
        switch(where) {
        case ID: id = &n->id; break;
        case PARENT: id = pc == 0 ? &((NL_ObjectNode *)n)->parentNodeId : pc == 1 ? &((NL_VariableNode *)n)->parentNodeId : pc == 2 ? &((NL_MethodNode *)n)->parentNodeId : &((NL_ViewNode *)n)->parentNodeId; break;
        case DTYPE: id = &((NL_VariableNode *)n)->datatype; break;
        case DTYPE_VT: id = &((NL_VariableTypeNode *)n)->datatype; break;
        case FIELD: id = &((NL_DataTypeNode *)n)->definition->fields[0].dataType; break;
        default:
            vf_assert(n->hierachicalRefs != NULL && n->hierachicalRefs->next == NULL, "one reference");
            id = where == RTYPE ? &n->hierachicalRefs->refType : &n->hierachicalRefs->target;
        }
        vf_assert(id->namespaceIndex == want, "translated index");
        if(form & 2) {
            vf_assert(id->identifierType == UA_NODEIDTYPE_STRING && id->identifier.string.length == 3 && !memcmp(id->identifier.string.data, "x;y", 3), "string identifier unchanged");
            vf_witness("string id");
        } else {
            vf_assert(id->identifierType == UA_NODEIDTYPE_NUMERIC && id->identifier.numeric == 77, "numeric identifier unchanged");
            vf_witness("numeric id");
        }
    }
    vf_obs(n->browseName.nsIdx);
    vf_obs(n->id.namespaceIndex);
    NodesetLoader_delete(l);
}

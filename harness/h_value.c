/* P17: the value tree mirrors the XML of a variable's value. The shape is the solver's choice. */
#include "doc.h"
#ifndef DEPTH
#define DEPTH 2
#endif
#ifndef WIDTH
#define WIDTH 2
#endif
enum { PRIM, LIST, EXT, EXTLIST };
struct Nd { int name, n, kid[3], txt, ws, any[3]; };
#define BLANK(c) VF_OR((c) == 32, VF_OR((c) == 9, VF_OR((c) == 10, (c) == 13)))
static struct Nd nd[32];
static int nNd, kind, rootNd[3], nRoot, noise, cls;
static const char *NAME[] = {"a", "b", "ExtensionObject", "Value", "TypeId", "ListOfa"};
static int second, leaf;
static int build(int depth, int top) {
    int k = nNd++;
    struct Nd *x = &nd[k];
    x->name = second ? 0 : top ? vf_choose(0, 1) : vf_choose(0, NAMES);
    x->n = depth > 0 ? vf_choose(0, second ? 1 : WIDTH) : 0;
    for(int i = 0; i < x->n; i++) { int c = build(depth - 1, 0); nd[k].kid[i] = c; }
    x = &nd[k];
    x->txt = x->n ? 0 : leaf++ == 0 ? vf_choose(0, TXT) : 2; /* 0 none, 1 whitespace, 2 a symbolic character, 3 two pieces */
    x->ws = vf_int(33, 126);
    if(x->txt == 4) for(int i = 0; i < 3; i++) { x->any[i] = vf_int(1, 255); vf_assume(VF_OR(x->any[i] >= 32, VF_OR(x->any[i] == 9, VF_OR(x->any[i] == 10, x->any[i] == 13)))); }
    return k;
}
static void gap(void) { if(noise) T("\n "); }
static void emit(int k) {
    struct Nd *x = &nd[k];
    char c[3] = {(char)x->ws, 0, 0};
    S(NAME[x->name], END);
    switch(x->txt) {
    case 1: T(" \t\n"); break;
    case 2: T(c); break;
    case 3: T(c); T("z"); break;
    case 4: { char t[4] = {(char)x->any[0], (char)x->any[1], (char)x->any[2], 0}; TN(t, 3); } break;
    }
    if(x->n) gap();
    for(int i = 0; i < x->n; i++) { emit(x->kid[i]); gap(); }
    E();
}
static void ext(int r) {
    S("ExtensionObject", END); gap();
    S("TypeId", END); gap(); EL("Identifier", "i=297"); gap(); E(); gap();
    S("Body", END); gap(); emit(r); gap(); E(); gap();
    E();
}
static void doc(void) {
    S("UANodeSet", END); nsUris(1);
    S(cls ? "UAVariableType" : "UAVariable", "NodeId", "ns=1;i=1", "BrowseName", "1:a", END);
    S("Value", END); gap();
    switch(kind) {
    case PRIM: emit(rootNd[0]); break;
    case LIST: S("ListOfa", END); gap(); for(int i = 0; i < nRoot; i++) { emit(rootNd[i]); gap(); } E(); break;
    case EXT: ext(rootNd[0]); break;
    case EXTLIST: S("ListOfExtensionObject", END); gap(); for(int i = 0; i < nRoot; i++) { ext(rootNd[i]); gap(); } E(); break;
    }
    gap();
    E();
    EL("DisplayName", "after");
    E();
    S("UAObject", "NodeId", "ns=1;i=2", "BrowseName", "1:b", END); E();
    E();
}
static void check(int k, const NL_Data *d, const NL_Data *parent, int body) {
    struct Nd *x = &nd[k];
    vf_assert(d != NULL && d->parent == parent, "tree links");
    vf_assert(!strcmp(d->name, NAME[x->name]), "element name");
    if(x->n || body) {
        vf_assert(d->type == DATATYPE_COMPLEX || x->n == 0, "an element with children is complex");
        if(x->n == 0) return;
        vf_assert((int)d->val.complexData.membersSize == x->n, "as many members as child elements");
        for(int i = 0; i < x->n; i++) check(x->kid[i], d->val.complexData.members[i], d, 0);
        vf_witness("nested");
    } else {
        vf_assert(d->type == DATATYPE_PRIMITIVE, "an element without children is primitive");
        const char *v = d->val.primitiveData.value;
        if(x->txt < 2) vf_assert(v == NULL, "no text or only blanks: no value");
        else if(x->txt == 4) {
            int blank = VF_AND(BLANK(x->any[0]), VF_AND(BLANK(x->any[1]), BLANK(x->any[2])));
            if(blank) vf_assert(v == NULL, "only blanks: no value");
            else { vf_assert(v != NULL, "text of the element"); for(int i = 0; i < 4; i++) vf_assert(v[i] == (i < 3 ? (char)x->any[i] : 0), "text of the element, byte by byte"); vf_witness("any text"); }
        } else {
            vf_assert(v && strlen(v) == (size_t)(x->txt - 1) && v[0] == (char)x->ws, "text of the element");
            if(x->txt == 3) vf_assert(v[1] == 'z', "text of the element, second piece");
        }
        vf_witness("leaf");
    }
}
void vf_main(void) {
    kind = vf_choose(PRIM, EXTLIST);
    if(TXT < 4) vf_witness("any text");
    if(DEPTH == 0) vf_witness("nested");
    noise = vf_choose(0, 1);
    cls = kind == PRIM ? vf_choose(0, 1) : 0;
    nRoot = kind == LIST ? vf_choose(0, 2) : kind == EXTLIST ? vf_choose(1, 2) : 1;
    for(int i = 0; i < nRoot; i++) second = i, rootNd[i] = build(kind == PRIM ? 0 : i ? 1 : DEPTH, 1);
    if(nRoot == 2) nd[rootNd[1]].name = nd[rootNd[0]].name;
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "well-formed document imports");
    vf_assert(NodesetLoader_sort(l), "sorts");
    vf_collect(l);
    vf_assert(vf_nNodes == 2, "nodes after the value are read");
    NL_VariableNode *n = (NL_VariableNode *)vf_findNum(vf_nsMap[0], 1);
    vf_assert(n && vf_streq(n->displayName.text, "after"), "elements after the value are read");
    if(!cls) {
        NL_Value *v = n->value;
        vf_assert(v != NULL, "the value");
        vf_assert(v->isArray == (kind == LIST || kind == EXTLIST), "array flag");
        vf_assert(v->isExtensionObject == (kind == EXT || kind == EXTLIST), "extension object flag");
        if(v->isExtensionObject) vf_assert(vf_streq(v->type, "i=297"), "type identifier");
        else if(nRoot) vf_assert(vf_streq(v->type, NAME[nd[rootNd[0]].name]), "type name");
        if(v->isArray) {
            vf_assert(v->data && v->data->type == DATATYPE_COMPLEX && v->data->parent == NULL && (int)v->data->val.complexData.membersSize == nRoot, "array elements");
            for(int i = 0; i < nRoot; i++) check(rootNd[i], v->data->val.complexData.members[i], v->data, kind == EXTLIST);
            vf_witness("array");
        } else check(rootNd[0], v->data, NULL, kind == EXT);
    }
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "released");
}

/* P19: loaders do not influence each other, and capacities do not run out. */
#include "doc.h"
static int many, userFirst, useId, base, alA, alB;
static void typeDecl(int i, const char *sup) {
    char a[24];
    snprintf(a, sizeof a, "ns=1;i=%d", 1000 + i);
    S("UAReferenceType", "NodeId", a, "BrowseName", "1:t", END);
    S("References", END);
    ref("i=45", 0, sup);
    E();
    E();
}
static void al(int d) { char t[8] = "i=80"; t[3] = (char)('0' + d); S("Aliases", END); S("Alias", "Alias", "Al", END); T(t); E(); E(); }
static void docA(void) {
    S("UANodeSet", END); nsUris(1); al(alA);
    for(int i = 0; i < many; i++) typeDecl(i, base ? "i=32" : "i=33");
    S("UAObject", "NodeId", "ns=1;i=1", "BrowseName", "1:a", END);
    S("References", END);
    if(many) {
        char a[24];
        snprintf(a, sizeof a, "ns=1;i=%d", 1000 + many - 1);
        ref(a, 1, "ns=1;i=2");
    }
    ref("i=39", 1, "Al"); E(); E(); E();
}
static void docB(void) {
    char b[24] = "ns=1;i=1000";
    S("UANodeSet", END); nsUris(1); al(alB);
    b[10] = (char)('0' + useId);
    typeDecl(0, "i=32");
    S("UAObject", "NodeId", "ns=1;i=3", "BrowseName", "1:b", END);
    S("References", END); ref(b, 1, "ns=1;i=4"); ref("i=39", 1, "Al"); E();
    E(); E();
}
static int n_(NL_Reference *r) { int k = 0; for(; r; r = r->next) k++; return k; }
static int to(NL_Node *n, unsigned v) { int k = 0; for(NL_Reference *r = n->nonHierachicalRefs; r; r = r->next) k = VF_OR(k, vf_isNum(&r->target, 0, v)); return k; }
void vf_main(void) {
#ifdef CAP
    many = CAP;
#else
    many = vf_choose(0, 2);
#endif
    base = vf_choose(0, 1);
    useId = vf_int(0, 3); alA = vf_int(0, 9); alB = vf_int(0, 9);
    int early = vf_choose(0, 1), order = vf_choose(0, 1);
    for(int k = 0; k < 8; k++) vf_nsMap[k] = 5; /* both files use the same server index */
    NodesetLoader *a = NodesetLoader_new(&vf_logger, NULL), *b = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = docA; vf_doc[1] = docB;
    vf_assert(vf_import(order ? a : b, order ? 0 : 1, NULL), "import");
    vf_assert(vf_import(order ? b : a, order ? 1 : 0, NULL), "import");
    vf_assert(NodesetLoader_sort(a), "loader A sorts");
    vf_collect(a);
    vf_assert(vf_nNodes == 1 + many || many > 30, "loader A has its own nodes");
    NL_Node *x = many > 30 ? NULL : vf_findNum(5, 1);
    if(x && many) {
        vf_assert(n_(x->hierachicalRefs) == !base && n_(x->nonHierachicalRefs) == 1 + base, "the last custom type is classified in A");
        vf_witness("custom type");
    }
    if(x) vf_assert(to(x, 80u + (unsigned)alA), "the alias of A");
    if(early) NodesetLoader_delete(a);
    bool ok = NodesetLoader_sort(b);
    vf_assert(ok == (useId == 0), "a type only known to another loader is unknown here");
    if(ok) {
        vf_collect(b);
        vf_assert(vf_nNodes == 2, "loader B has its own nodes");
        NL_Node *y = vf_findNum(5, 3);
        vf_assert(y && n_(y->nonHierachicalRefs) == 2 && !y->hierachicalRefs, "classification of B is not affected by A");
        vf_assert(to(y, 80u + (unsigned)alB), "the alias of B");
        vf_witness("B ok");
    } else vf_witness("B lacks the type");
    vf_obs(ok);
    if(!early) NodesetLoader_delete(a);
    NodesetLoader_delete(b);
    vf_assert(vf_live == 0, "both loaders release everything");
}

/* P23: the extension callbacks see exactly the content of each Extension element. */
#include "doc.h"
static const char *NM[] = {"Extension", "Extensions", "a", "Value"};
struct Ev { int kind, name, depth, nattr, ch, ext; }; /* 0 new 1 start 2 end 3 finish */
static struct Ev want[40], got[40];
static int nWant, nGot, nExt, newCount, have, ch[8], nch, cls;
static int objs[4];
static void exp_(int kind, int name, int nattr, int c) { want[nWant].kind = kind; want[nWant].name = name; want[nWant].nattr = nattr; want[nWant].ch = c; want[nWant].ext = nExt; nWant++; }
static void el(int depth) {
    int n = vf_choose(0, depth > 1 ? 1 : NAMES), at = depth == 1 ? vf_choose(0, 1) : 0, kids = depth > 1 ? 0 : vf_choose(0, depth ? 1 : KIDS), c = 0;
    if(at) S(NM[n], "k", "v", END); else S(NM[n], END);
    exp_(1, n, at, 0);
    for(int i = 0; i < kids; i++) el(depth + 1);
    if(!kids && nch < 8) { c = ch[nch++]; char t[2] = {(char)c, 0}; T(t); }
    E();
    exp_(2, n, 0, c);
}
static void doc(void) {
    int two = vf_choose(0, 1);
    S("UANodeSet", END); nsUris(1);
    /* an extension of the whole file is not handed over */
    S("Extensions", END); S("Extension", END); EL("a", "x"); E(); E();
    S(cls ? "UAObject" : "UADataType", "NodeId", "ns=1;i=1", "BrowseName", "1:a", END);
    S("Extensions", END);
    for(int i = 0; i <= two; i++) {
        nExt = i;
        S("Extension", END); exp_(0, 0, 0, 0);
        int k = i ? 0 : vf_choose(0, 1);
        for(int j = 0; j < k; j++) el(0);
        E(); exp_(3, 0, 0, 0);
    }
    E();
    EL("DisplayName", "after");
    E();
    S("UAObject", "NodeId", "ns=1;i=2", "BrowseName", "1:b", END); E();
    E();
}
static void *xNew(void) { got[nGot].kind = 0; got[nGot].ext = newCount; nGot++; return &objs[newCount++]; }
static int nameOf(const char *n) { for(int i = 0; i < 4; i++) if(!strcmp(n, NM[i])) return i; return 9; }
static void xStart(void *d, const char *name, int nA, const char **at) {
    vf_assert(nGot < 40, "bounded");
    got[nGot].kind = 1; got[nGot].name = nameOf(name); got[nGot].nattr = nA; got[nGot].ext = (int)((int *)d - objs);
    if(nA) vf_assert(!strcmp(at[0], "k") && at[4] - at[3] == 1 && at[3][0] == 'v', "attributes are passed on");
    nGot++;
}
static void xEnd(void *d, const char *name, const char *v) {
    vf_assert(nGot < 40, "bounded");
    got[nGot].kind = 2; got[nGot].name = nameOf(name); got[nGot].ext = (int)((int *)d - objs);
    if(v) { got[nGot].ch = (unsigned char)v[0]; if(v[0]) vf_assert(v[1] == 0, "text of the element"); }
    nGot++;
}
static void xFinish(void *d) { got[nGot].kind = 3; got[nGot].ext = (int)((int *)d - objs); nGot++; }
void vf_main(void) {
    cls = have = vf_choose(0, 1);
    for(int i = 0; i < 8; i++) ch[i] = vf_int(33, 126);
    NodesetLoader_ExtensionInterface ifc;
    memset(&ifc, 0, sizeof ifc);
    ifc.newExtension = xNew; ifc.start = xStart; ifc.end = xEnd; ifc.finish = xFinish;
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, have ? &ifc : NULL), "well-formed document imports");
    vf_assert(NodesetLoader_sort(l), "sorts");
    vf_collect(l);
    vf_assert(vf_nNodes == 2, "nodes after the extension are read");
    NL_Node *n = vf_findNum(vf_nsMap[0], 1), *m = vf_findNum(vf_nsMap[0], 2);
    vf_assert(n && m && vf_streq(n->displayName.text, "after") && m->extension == NULL, "elements after the extension are read");
    if(!have) { vf_assert(nGot == 0 && n->extension == NULL, "without an interface extensions are skipped"); vf_witness("skipped"); }
    else {
        vf_assert(nGot == nWant, "as many callbacks as elements");
        for(int i = 0; i < nWant; i++) {
            vf_assert(got[i].kind == want[i].kind && got[i].ext == want[i].ext, "order of callbacks");
            if(want[i].kind == 1 || want[i].kind == 2) vf_assert(got[i].name == want[i].name && got[i].nattr == want[i].nattr, "element");
            vf_assert(got[i].ch == want[i].ch, "text");
        }
        vf_assert(n->extension == &objs[newCount - 1], "the node carries the user's object");
        vf_witness("handed over");
    }
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "released");
}

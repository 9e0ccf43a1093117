/* P20: the list of binary encodings. */
#include "doc.h"
#ifndef NO
#define NO 2
#endif
static int extra[NO];
static int bn[NO], fw[NO], ty[NO], tg[NO], cls[NO], before;
static const char *BN[] = {"Default Binary", "0:Default Binary", "1:Default Binary", "Default XML", "Default Binaryx", "1:Default JSON"};
static void enc(int i) {
    char a[16], b[16];
    nid(a, 1, i); nid(b, 1, tg[i]);
    S(cls[i] ? "UAVariable" : "UAObject", "NodeId", a, "BrowseName", BN[bn[i]], END);
    S("References", END);
    ref("i=40", 1, "i=76");
    if(extra[i] == 1) ref("i=38", 1, "i=77");
    if(extra[i] == 2) ref("i=38", 0, "i=78");
    ref(ty[i] == 0 ? "i=38" : ty[i] == 1 ? "HasEncoding" : ty[i] == 2 ? "i=39" : "ns=1;i=38", fw[i], b);
    E(); E();
}
static void doc(void) {
    S("UANodeSet", END); nsUris(1);
    S("Alias", "Alias", "HasEncoding", END); T("i=38"); E();
    for(int i = 0; i < NO; i++) enc(i);
    E();
}
void vf_main(void) {
    for(int i = 0; i < NO; i++) { bn[i] = vf_choose(0, 5); fw[i] = vf_choose(0, 1); ty[i] = vf_choose(0, 3); tg[i] = vf_int(0, 9); cls[i] = 0; extra[i] = 0; }
    switch(vf_choose(0, 3)) { case 0: cls[0] = 1; break; case 1: break; case 2: extra[0] = 1; break; case 3: extra[0] = 2; break; }
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "well-formed document imports");
    int want = 0, have = 0;
    const NL_BiDirectionalReference *list = NodesetLoader_getBidirectionalRefs(l);
    for(const NL_BiDirectionalReference *r = list; r; r = r->next) {
        have++;
        int m = 0;
        for(int i = 0; i < NO; i++)
            if(bn[i] < 3 && !fw[i] && ty[i] < 2)
                m = VF_OR(m, VF_AND(isNid(&r->target, vf_nsMap[0], i), VF_AND(isNid(&r->source, vf_nsMap[0], tg[i]), vf_isNum(&r->refType, 0, 38))));
        for(int i = 0; i < NO; i++)
            if(bn[i] < 3 && extra[i] == 2) m = VF_OR(m, VF_AND(isNid(&r->target, vf_nsMap[0], i), VF_AND(vf_isNum(&r->source, 0, 78), vf_isNum(&r->refType, 0, 38))));
        vf_assert(m, "each entry names a data type and its binary encoding");
    }
    for(int i = 0; i < NO; i++) {
        if(bn[i] < 3 && !fw[i] && ty[i] < 2) {
            want++;
            int m = 0;
            for(const NL_BiDirectionalReference *r = list; r; r = r->next) m += VF_AND(isNid(&r->target, vf_nsMap[0], i), !vf_isNum(&r->source, 0, 78));
            vf_assert(m == 1, "every binary encoding is listed once");
            vf_witness("listed");
        } else vf_witness("not listed");
    }
    for(int i = 0; i < NO; i++) want += bn[i] < 3 && extra[i] == 2;
    vf_assert(have == want, "nothing else is listed");
    vf_obs(have);
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "released");
}

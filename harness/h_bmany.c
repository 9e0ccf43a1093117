/* Any number of refused nodes. */
#include "bdoc.h"
static int n, tries, good, first;
static void doc(void) {
    char b[24];
    docBegin(1);
    for(int i = 0; i < n; i++) {
        strcpy(b, "ns=1;i=1000"); b[8] = (char)('0' + i / 100); b[9] = (char)('0' + i / 10 % 10); b[10] = (char)('0' + i % 10);
        S("UAObject", "NodeId", b, "BrowseName", "1:n", END); parentRef("i=35", "i=85"); E();
    }
    E();
}
static unsigned char seen[160];
static int mayAdd(const struct VfAdd *a) { (void)a; return tries++ >= n * first; }
static void onAdd(const struct VfAdd *a) {
    if(a->result != UA_STATUSCODE_GOOD) return;
    unsigned i = a->id->identifier.numeric - 1000;
    vf_assert(i < (unsigned)n && !seen[i], "once each");
    seen[i] = 1; good++;
}
void vf_main(void) {
    n = vf_choose(98, 103); first = vf_choose(0, 2);
    vf_mayAdd = mayAdd; vf_onAdd = onAdd; vf_doc[0] = doc;
    vf_assert(vf_load(0), "loads");
    vf_assert(good == n && vf_nSrv == n, "all nodes are added in the end");
    if(n == 101 && first) vf_witness("more than a hundred refused");
    bEnd();
}

/* P25: one node per file; sorting may happen after any file. Every node comes out exactly once, and
 * nodes sorted together keep the declared order. */
#include "doc.h"
static int id[K], tg[K], dir[K], batch[K], cur;
static void docK(void) {
    char a[16], b[16];
    S("UANodeSet", END); nsUris(1);
    S("UAObject", "NodeId", nid(a, 1, id[cur]), "BrowseName", "1:n", END);
    S("References", END); ref("i=47", dir[cur], nid(b, 1, tg[cur])); E();
    E(); E();
}
void vf_main(void) {
    for(int k = 0; k < 16; k++) vf_nsMap[k] = 5;
    for(int i = 0; i < K; i++) {
        id[i] = vf_int(0, K); for(int j = 0; j < i; j++) vf_assume(id[j] != id[i]);
        tg[i] = vf_int(0, K); dir[i] = vf_choose(0, 1);
    }
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    int b = 0, cyc = 0;
    vf_doc[0] = docK;
    for(cur = 0; cur < K; cur++) {
        vf_assert(vf_import(l, 0, NULL), "imports");
        batch[cur] = b;
        if(cur == K - 1 || vf_choose(0, 1)) { b++; if(!NodesetLoader_sort(l)) cyc = 1; }
    }
    int edge[K][K];
    for(int i = 0; i < K; i++) for(int j = 0; j < K; j++) edge[i][j] = i == j ? 0 : VF_OR(dir[i] ? tg[i] == id[j] : 0, dir[j] ? 0 : tg[j] == id[i]);
    for(int k = 0; k < K; k++) for(int i = 0; i < K; i++) for(int j = 0; j < K; j++) edge[i][j] = VF_OR(edge[i][j], VF_AND(edge[i][k], edge[k][j]));
    int real = 0; for(int i = 0; i < K; i++) real = VF_OR(real, edge[i][i]);
    if(cyc) { vf_assert(real, "only cycles are rejected"); vf_witness("cycle"); }
    else {
        vf_collect(l);
        vf_assert(vf_nNodes == K, "every node comes out once");
        int pos[K];
        for(int i = 0; i < K; i++) {
            pos[i] = -1;
            for(int p = 0; p < vf_nNodes; p++) if(isNid(&vf_nodes[p].n->id, 5, id[i])) { vf_assert(pos[i] < 0, "once"); pos[i] = p; }
            vf_assert(pos[i] >= 0, "comes out");
            vf_obs(pos[i]);
        }
        for(int i = 0; i < K; i++) for(int j = 0; j < K; j++) {
            if(i == j) continue;
            if(batch[i] < batch[j]) vf_assert(pos[i] < pos[j], "what was sorted first stays first");
            int direct = VF_OR(dir[i] ? tg[i] == id[j] : 0, dir[j] ? 0 : tg[j] == id[i]);
            if(batch[i] == batch[j]) vf_assert(VF_IMPLIES(direct, pos[i] < pos[j]), "order within one sorting");
        }
        vf_witness("sorted");
    }
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "released");
}

/* P01: blocks of the text arena, every sequence of OPS malloc/extend requests with small sizes. */
#include "vf.h"
#include "CharAllocator.h"
#ifndef OPS
#define OPS 4
#endif
struct Blk { char *p; size_t n; int pat; };
static struct Blk b[OPS];
static int nb;
static void checkAll(void) {
    for(int i = 0; i < nb; i++)
        for(size_t k = 0; k < b[i].n; k++) vf_assert(b[i].p[k] == (char)b[i].pat, "an earlier block keeps its content");
}
void vf_main(void) {
    CharArenaAllocator *a = CharArenaAllocator_new((size_t)vf_choose(1, 4));
    vf_assert(a != NULL, "arena");
    for(int i = 0; i < OPS; i++) {
        size_t n = (size_t)vf_choose(i ? 0 : 1, SZ);
        int grow = nb > 0 && vf_choose(0, 1);
        if(!grow) {
            char *p = CharArenaAllocator_malloc(a, n);
            vf_assert(p != NULL, "memory is available");
            vf_assert(vf_readable(p, n), "the block has the requested size");
            for(size_t k = 0; k < n; k++) vf_assert(p[k] == 0, "a new block is zeroed");
            b[nb].p = p; b[nb].n = n; b[nb].pat = vf_int(1, 255);
            for(int j = 0; j < nb; j++) vf_assume(b[j].pat != b[nb].pat);
            nb++;
            vf_witness("malloc");
        } else {
            struct Blk *l = &b[nb - 1];
            char *p = CharArenaAllocator_realloc(a, n);
            vf_assert(p != NULL, "memory is available");
            vf_assert(vf_readable(p, l->n + n), "the block grew by the requested size");
            for(size_t k = 0; k < l->n; k++) vf_assert(p[k] == (char)l->pat, "extending keeps the content");
            for(size_t k = 0; k < n; k++) vf_assert(p[l->n + k] == 0, "the extension is zeroed");
            if(p != l->p) vf_witness("extension moved the block");
            else vf_witness("extension in place");
            l->p = p; l->n += n;
        }
        for(size_t k = 0; k < b[nb - 1].n; k++) b[nb - 1].p[k] = (char)b[nb - 1].pat;
        checkAll();
        vf_obs((long long)b[nb - 1].n);
    }
    CharArenaAllocator_delete(a);
    vf_assert(vf_live == 0, "deleting the arena releases everything");
}

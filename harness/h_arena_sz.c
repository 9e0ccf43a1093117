/* P02: the arena's size arithmetic for every 64-bit size.  The heap is replaced (ar_calloc,
 * ar_memcpy): a region is a fixed address plus a symbolic capacity, so no request is too big. */
#include "vf.h"
#include "CharAllocator.h"
#ifndef OPS
#define OPS 3
#endif
#define W (1 << 16)
#define REG 8
static char *regP[REG]; static unsigned long long regN[REG]; static int nReg;
static size_t limit;
static int refused;
struct Copy { char *d; const char *s; unsigned long long n; }; static struct Copy cp; static int nCopies;
void *ar_calloc(size_t x, size_t y) {
    size_t t;
    if(__builtin_mul_overflow(x, y, &t)) return NULL;
    if(t > limit || vf_choose(0, 1)) { refused = 1; return NULL; }
    /* the arena's own bookkeeping objects are small; regions get far-apart addresses nobody dereferences */
    if(t <= 256) return calloc(1, (size_t)vf_concrete((long long)t));
    vf_assert(nReg < REG, "regions in scope");
    regP[nReg] = (char *)(uintptr_t)((unsigned long long)(nReg + 1) << 44);
    regN[nReg] = t;
    return regP[nReg++];
}
void *ar_malloc(size_t n) { return ar_calloc(n, 1); }
void *ar_memcpy(void *d, const void *s, size_t n) { cp.d = d; cp.s = s; cp.n = n; nCopies++; return d; }
/* the region p points into (p itself included in [base, base+capacity]), -1 if none */
static int regionOf(const char *p) {
    for(int i = nReg - 1; i >= 0; i--)
        if((unsigned long long)(uintptr_t)p - (unsigned long long)(uintptr_t)regP[i] <= regN[i]) return i;
    return -1;
}
void vf_main(void) {
    limit = W;
    size_t init = (size_t)vf_int(257, W);
    CharArenaAllocator *a = CharArenaAllocator_new(init);
    if(!a) { vf_witness("arena refused"); return; }
    char *bp[OPS]; unsigned long long bn[OPS], bo[OPS]; int br[OPS], nb = 0;
    for(int i = 0; i < OPS; i++) {
        /* small sizes and those around the points where 64-bit size arithmetic wraps */
        static const unsigned long long hi[] = {0, 1ULL << 62, (1ULL << 63) - W, 1ULL << 63, 0ULL - W};
        unsigned long long n = hi[vf_choose(0, 4)] + (unsigned long long)vf_int(0, W - 1);
        int grow = nb > 0 && vf_choose(0, 1);
        int before = nCopies;
        refused = 0;
        char *p = grow ? CharArenaAllocator_realloc(a, n) : CharArenaAllocator_malloc(a, n);
        if(!p) {
            vf_witness("request refused");
            vf_assert(VF_OR(refused, n > limit / 8), "only a refused allocation refuses a request");
            continue;
        }
        if(!grow) { bp[nb] = p; bn[nb] = n; nb++; }
        else {
            unsigned long long old = bn[nb - 1];
            if(p != bp[nb - 1]) {
                vf_witness("moved");
                vf_assert(nCopies == before + 1 && cp.s == bp[nb - 1] && cp.d == p, "the old content is copied");
                vf_assert(cp.n == old, "all of it");
            }
            bp[nb - 1] = p; bn[nb - 1] = old + n;
            vf_assert(bn[nb - 1] >= old, "sizes do not wrap");
        }
        int k = regionOf(p), c = nb - 1;
        vf_assert(k >= 0, "a granted block lies inside a region");
        br[c] = k;
        bo[c] = (unsigned long long)(uintptr_t)p - (unsigned long long)(uintptr_t)regP[k];
        vf_assert(bn[c] <= regN[k] - bo[c], "a granted block has the requested size");
        vf_assume(bn[c] <= limit);
        for(int j = 0; j < c; j++)
            if(br[j] == k) {
                vf_witness("two blocks in one region");
                vf_assert(VF_OR(VF_OR(bo[j] + bn[j] <= bo[c], bo[c] + bn[c] <= bo[j]), VF_OR(bn[j] == 0, bn[c] == 0)), "blocks do not overlap");
            }
    }
    vf_witness("done");
}

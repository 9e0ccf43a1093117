/* Native replay: inputs come from a recorded model (one decimal per line in argv[1]). */
#include "vf.h"
#undef malloc
#undef free
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define VF_MSAN 1
#endif
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define VF_ASAN 1
#endif
#endif
static long long *in;
static size_t nIn, pos;
static FILE *obsF;
static void done(int code) { fflush(stdout); if(obsF) fclose(obsF); _exit(code); }
static long long next(long long lo, long long hi) {
    /* a counterexample to memory safety ends where the engine saw the access; natively the run may go on for a while */
    if(pos >= nIn && getenv("VF_LENIENT")) return lo;
    if(pos >= nIn) { fprintf(stderr, "VF-DIVERGED: ran out of recorded inputs\n"); done(79); }
    long long v = in[pos++];
    if(v < lo || v > hi) { fprintf(stderr, "VF-DIVERGED: input %zu = %lld not in [%lld,%lld]\n", pos - 1, v, lo, hi); done(79); }
    return v;
}
int vf_int(int lo, int hi) { if(lo > hi) done(0); return (int)next(lo, hi); }
long long vf_ll(long long lo, long long hi) { if(lo > hi) done(0); return next(lo, hi); }
int vf_choose(int lo, int hi) { if(lo > hi) done(0); return (int)next(lo, hi); }
void vf_assume(int c) { if(!c) { fprintf(stderr, "VF-DIVERGED: assumption does not hold\n"); done(79); } }
void vf_assert_(int c, const char *m) { if(!c) { fprintf(stderr, "VF-FAIL: %s\n", m); done(77); } }
void vf_witness_(const char *n) { (void)n; }
void vf_obs(long long v) { if(obsF) fprintf(obsF, "%lld\n", v); }
int vf_readable(const void *p, size_t n) {
#ifdef VF_ASAN
    if((uintptr_t)p < 4096) return 0;
    return __asan_region_is_poisoned((void *)p, n) == NULL;
#else
    (void)n; return p != NULL;
#endif
}
int vf_undefined(const void *p, size_t n) {
#ifdef VF_MSAN
    return __msan_test_shadow(p, n) != -1;
#else
    (void)p; (void)n; return 0;
#endif
}
long long vf_concrete(long long v) { return v; }
void vf_end_path(void) { done(0); }
double vf_strtod_bits(const char *s) { return strtod(s, NULL); }
void vf_print(const char *s) { fprintf(stderr, "[vf] %s\n", s); }
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r");
    size_t cap = 1024;
    if(!f) return 3;
    in = (long long *)malloc(cap * sizeof *in);
    while(fscanf(f, "%lld", &in[nIn]) == 1)
        if(++nIn == cap) { cap *= 2; in = (long long *)realloc(in, cap * sizeof *in); }
    fclose(f);
    if(argc > 2) obsF = fopen(argv[2], "w");
    vf_main();
    fprintf(stderr, "VF-COMPLETED\n");
    done(0);
    return 0;
}

/* Harness vocabulary.
 *
 * Under vsx (the symbolic executor in ../engine) vf_int/vf_ll yield solver variables,
 * vf_choose forks into one path per value, vf_assert is an obligation for the solver.
 * Under replay (replay_rt.c) the same functions read a recorded model, so that the same
 * harness runs natively against the same sources. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>

int vf_int(int lo, int hi);                    /* solver variable, lo <= v <= hi        */
long long vf_ll(long long lo, long long hi);
int vf_choose(int lo, int hi);                 /* every value, one path each            */
void vf_assume(int c);
void vf_assert_(int c, const char *msg);
void vf_witness_(const char *name);            /* must be reached, else the run is void */
void vf_obs(long long v);                      /* compared between vsx and native runs  */
int vf_readable(const void *p, size_t n);      /* [p,p+n) inside one live object?       */
int vf_undefined(const void *p, size_t n);     /* depends on uninitialised memory?      */
long long vf_concrete(long long v);
void vf_end_path(void);
double vf_strtod_bits(const char *s);
void vf_print(const char *s);

#define vf_assert(c, msg) vf_assert_((c) ? 1 : 0, msg)
#define vf_witness(n) vf_witness_(n)
static inline bool vf_bool(void) { return vf_int(0, 1) != 0; }
static inline bool vf_cbool(void) { return vf_choose(0, 1) != 0; }

/* heap accounting (heap.c): everything compiled for a check allocates through these */
extern long vf_live;          /* live heap blocks                                  */
extern int vf_oom_budget;     /* >0: that many allocations may fail, chosen freely */
extern int vf_oom_happened;

/* bitwise-style connectives: one solver term instead of several branches */
#define VF_AND(a, b) ((int)((a) != 0) & (int)((b) != 0))
#define VF_OR(a, b)  ((int)((a) != 0) | (int)((b) != 0))
#define VF_IMPLIES(a, b) ((int)((a) == 0) | (int)((b) != 0))

void vf_main(void);           /* every harness defines this */

/* text captured from printf/puts/... in code compiled with the capture shims */
#define VF_OUT 4096
extern char vf_out[VF_OUT];
extern size_t vf_outLen;
#endif

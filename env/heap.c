/* Heap seen by the code under check: counts live blocks and, when asked to, lets any
 * allocation fail. */
#include "vf.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
long vf_live;
int vf_oom_budget;
int vf_oom_happened;
static int fails(void) {
    if(vf_oom_budget <= 0) return 0;
    if(!vf_choose(0, 1)) return 0;
    vf_oom_budget--;
    vf_oom_happened++;
    return 1;
}
void *vfh_malloc(size_t n) {
    if(fails()) return NULL;
    void *p = malloc(n);
    if(p) vf_live++;
    return p;
}
void *vfh_calloc(size_t a, size_t b) {
    if(fails()) return NULL;
    void *p = calloc(a, b);
    if(p) vf_live++;
    return p;
}
void *vfh_realloc(void *o, size_t n) {
    if(fails()) return NULL;
    if(o && n == 0) { free(o); vf_live--; return NULL; }
    void *p = realloc(o, n);
    if(p && !o) vf_live++;
    return p;
}
void vfh_free(void *p) {
    if(p) vf_live--;
    free(p);
}
void *vfh_reallocarray(void *o, size_t a, size_t b) {
    size_t n;
    if(__builtin_mul_overflow(a, b, &n)) return NULL;
    return vfh_realloc(o, n);
}
char *vfh_strndup(const char *s, size_t n) {
    size_t l = 0;
    while(l < n && s[l]) l++;
    char *p = (char *)vfh_malloc(l + 1);
    if(!p) return NULL;
    memcpy(p, s, l);
    p[l] = 0;
    return p;
}
char *vfh_strdup(const char *s) { return vfh_strndup(s, strlen(s)); }

/* C library model for vsx (replay uses the host's C library). */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>
typedef struct VfFile FILE;
FILE *stdout, *stderr, *stdin;
double vf_strtod_bits(const char *s);
static int vf_errno;
int *__errno_location(void) { return &vf_errno; }

size_t strlen(const char *s) { size_t n = 0; while(s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while(n < m && s[n]) n++; return n; }
int vf_is_sym(long long v);
int vf_readable(const void *p, size_t n);
/* Comparison as one term instead of a fork per byte.  'done' becomes true at the first difference or at the end;
 * bytes behind that point do not matter and are only read if they exist (reading a missing one is reported
 * exactly if 'done' can still be false). */
static int vf_cmp(const unsigned char *x, const unsigned char *y, size_t n, int isStr) {
    int r = 0, done = 0;
    for(size_t i = 0; i < n; i++) {
        if(!vf_readable(x + i, 1) || !vf_readable(y + i, 1)) {
            if(done) return r;
            return (int)x[i] - (int)y[i];   /* the engine reports this access */
        }
        unsigned char a = x[i], b = y[i];
        int live = -(int)(done == 0);
        r |= ((int)a - (int)b) & live;
        done |= (int)(a != b) | (isStr ? (int)(a == 0) : 0);
        if(!vf_is_sym(done) && done) break;
        if(isStr && ((!vf_is_sym(a) && a == 0) || (!vf_is_sym(b) && b == 0))) break;
    }
    return r;
}
int strcmp(const char *a, const char *b) { return vf_cmp((const unsigned char *)a, (const unsigned char *)b, (size_t)-1, 1); }
int strncmp(const char *a, const char *b, size_t n) { return vf_cmp((const unsigned char *)a, (const unsigned char *)b, n, 1); }
int memcmp(const void *a, const void *b, size_t n) { return vf_cmp(a, b, n, 0); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isblank(int c) { return c == ' ' || c == 9; }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int strcasecmp(const char *a, const char *b) {
    while(*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; }
    return tolower((unsigned char)*a) - tolower((unsigned char)*b);
}
int strncasecmp(const char *a, const char *b, size_t n) {
    while(n && *a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; n--; }
    return n == 0 ? 0 : tolower((unsigned char)*a) - tolower((unsigned char)*b);
}
void *memchr(const void *a, int c, size_t n) {
    const unsigned char *x = a;
    for(; n; n--, x++) if(*x == (unsigned char)c) return (void *)x;
    return NULL;
}
void *memrchr(const void *a, int c, size_t n) {
    const unsigned char *x = a;
    while(n--) if(x[n] == (unsigned char)c) return (void *)(x + n);
    return NULL;
}
char *strchr(const char *s, int c) {
    for(;; s++) { if(*s == (char)c) return (char *)s; if(!*s) return NULL; }
}
char *strchrnul(const char *s, int c) { while(*s && *s != (char)c) s++; return (char *)s; }
char *strrchr(const char *s, int c) {
    const char *r = NULL;
    for(;; s++) { if(*s == (char)c) r = s; if(!*s) return (char *)r; }
}
char *strstr(const char *h, const char *n) {
    size_t l = strlen(n);
    for(;; h++) { if(strncmp(h, n, l) == 0) return (char *)h; if(!*h) return NULL; }
}
char *strcpy(char *d, const char *s) { char *r = d; while((*d++ = *s++)); return r; }
char *stpcpy(char *d, const char *s) { while((*d = *s++)) d++; return d; }
char *strncpy(char *d, const char *s, size_t n) {
    size_t i = 0; for(; i < n && s[i]; i++) d[i] = s[i];
    for(; i < n; i++) d[i] = 0;
    return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) {
    char *e = d + strlen(d); size_t i = 0;
    for(; i < n && s[i]; i++) e[i] = s[i];
    e[i] = 0; return d;
}
size_t strspn(const char *s, const char *a) { size_t n = 0; while(s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while(s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : NULL; }
char *strtok_r(char *s, const char *d, char **save) {
    if(!s) s = *save;
    if(!s) return NULL;
    s += strspn(s, d);
    if(!*s) { *save = NULL; return NULL; }
    char *e = s + strcspn(s, d);
    if(*e) { *e = 0; *save = e + 1; } else *save = NULL;
    return s;
}
static char *vf_tok;
char *strtok(char *s, const char *d) { return strtok_r(s, d, &vf_tok); }
static int digitv(int c) {
    if(c >= '0' && c <= '9') return c - '0';
    if(c >= 'a' && c <= 'z') return c - 'a' + 10;
    if(c >= 'A' && c <= 'Z') return c - 'A' + 10;
    return 99;
}
/* magnitude with saturation flag */
static unsigned long long scan_int(const char *s, char **end, int base, int *neg, int *ovf) {
    const char *p = s;
    *neg = 0; *ovf = 0;
    while(isspace((unsigned char)*p)) p++;
    if(*p == '+') p++; else if(*p == '-') { *neg = 1; p++; }
    if((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && digitv(p[2]) < 16) { p += 2; base = 16; }
    else if(base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; const char *st = p;
    int d;
    while((d = digitv((unsigned char)*p)) < base) {
        unsigned long long nv;
        if(__builtin_mul_overflow(v, (unsigned long long)base, &nv) || __builtin_add_overflow(nv, (unsigned long long)d, &nv)) *ovf = 1;
        else v = nv;
        p++;
    }
    if(end) *end = (char *)(p == st ? s : p);
    return v;
}
long long strtoll(const char *s, char **e, int b) {
    int n, o; unsigned long long v = scan_int(s, e, b, &n, &o);
    if(n) { if(o || v > 0x8000000000000000ULL) { vf_errno = 34; return LLONG_MIN; } return (long long)(0 - v); }
    if(o || v > 0x7fffffffffffffffULL) { vf_errno = 34; return LLONG_MAX; }
    return (long long)v;
}
unsigned long long strtoull(const char *s, char **e, int b) {
    int n, o; unsigned long long v = scan_int(s, e, b, &n, &o);
    if(o) { vf_errno = 34; return ULLONG_MAX; }
    return n ? 0 - v : v;
}
long strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
long long atoll(const char *s) { return strtoll(s, NULL, 10); }
double strtod(const char *s, char **e) {
    if(e) { /* end of the longest prefix of decimal-float shape */
        const char *p = s;
        while(isspace((unsigned char)*p)) p++;
        if(*p == '+' || *p == '-') p++;
        int any = 0;
        if(strncasecmp(p, "inf", 3) == 0) { p += strncasecmp(p, "infinity", 8) == 0 ? 8 : 3; any = 1; }
        else if(strncasecmp(p, "nan", 3) == 0) { p += 3; any = 1; }
        else {
            while(isdigit((unsigned char)*p)) { p++; any = 1; }
            if(*p == '.') { p++; while(isdigit((unsigned char)*p)) { p++; any = 1; } }
            if(any && (*p == 'e' || *p == 'E')) {
                const char *q = p + 1;
                if(*q == '+' || *q == '-') q++;
                if(isdigit((unsigned char)*q)) { while(isdigit((unsigned char)*q)) q++; p = q; }
            }
        }
        *e = (char *)(any ? p : s);
    }
    return vf_strtod_bits(s);
}
float strtof(const char *s, char **e) { return (float)strtod(s, e); }
double atof(const char *s) { return vf_strtod_bits(s); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    unsigned char *b = base;
    for(size_t i = 1; i < n; i++)
        for(size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--)
            for(size_t k = 0; k < sz; k++) { unsigned char t = b[j * sz + k]; b[j * sz + k] = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = t; }
}
void *bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    const unsigned char *b = base; size_t lo = 0, hi = n;
    while(lo < hi) {
        size_t m = lo + (hi - lo) / 2; int c = cmp(key, b + m * sz);
        if(c == 0) return (void *)(b + m * sz);
        if(c < 0) hi = m; else lo = m + 1;
    }
    return NULL;
}

struct Out { char *b; size_t cap, n; };
static void oc(struct Out *o, char c) { if(o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
static void onum(struct Out *o, unsigned long long v, int neg, unsigned base, int up, int width, int prec, int zero, int left, int plus) {
    char t[24]; int k = 0;
    while(v) { unsigned d = (unsigned)(v % base); t[k++] = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= base; }
    if(k == 0 && prec != 0) t[k++] = '0';
    int digits = k > prec ? k : prec;
    int tot = digits + ((neg || plus) ? 1 : 0);
    if(!left && (!zero || prec >= 0)) for(int i = tot; i < width; i++) oc(o, ' ');
    if(neg) oc(o, '-'); else if(plus) oc(o, '+');
    if(!left && zero && prec < 0) for(int i = tot; i < width; i++) oc(o, '0');
    for(int i = k; i < digits; i++) oc(o, '0');
    while(k) oc(o, t[--k]);
    if(left) for(int i = tot; i < width; i++) oc(o, ' ');
}
int vsnprintf(char *b, size_t cap, const char *f, va_list ap) {
    struct Out o = {b, cap, 0};
    for(; *f; f++) {
        if(*f != '%') { oc(&o, *f); continue; }
        f++;
        int left = 0, zero = 0, plus = 0, width = 0, prec = -1, l = 0;
        for(;; f++) { if(*f == '-') left = 1; else if(*f == '0') zero = 1; else if(*f == '+') plus = 1; else if(*f == ' ' || *f == '#') {} else break; }
        if(*f == '*') { width = va_arg(ap, int); if(width < 0) { left = 1; width = -width; } f++; }
        else while(isdigit((unsigned char)*f)) width = width * 10 + (*f++ - '0');
        if(*f == '.') { f++; prec = 0; if(*f == '*') { prec = va_arg(ap, int); f++; } else while(isdigit((unsigned char)*f)) prec = prec * 10 + (*f++ - '0'); }
        for(;; f++) { if(*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' ) l++; else if(*f == 'h') l--; else break; }
        switch(*f) {
        case 'd': case 'i': {
            long long v = l >= 1 ? va_arg(ap, long long) : va_arg(ap, int);
            if(l == -1) v = (short)v; else if(l == -2) v = (signed char)v;
            onum(&o, v < 0 ? 0 - (unsigned long long)v : (unsigned long long)v, v < 0, 10, 0, width, prec, zero, left, plus); break; }
        case 'u': case 'x': case 'X': case 'o': {
            unsigned long long v = l >= 1 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
            if(l == -1) v = (unsigned short)v; else if(l == -2) v = (unsigned char)v;
            onum(&o, v, 0, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X', width, prec, zero, left, 0); break; }
        case 'p': oc(&o, '0'); oc(&o, 'x'); onum(&o, (unsigned long long)(uintptr_t)va_arg(ap, void *), 0, 16, 0, 0, -1, 0, 0, 0); break;
        case 'c': { char c = (char)va_arg(ap, int); for(int i = 1; !left && i < width; i++) oc(&o, ' '); oc(&o, c); for(int i = 1; left && i < width; i++) oc(&o, ' '); break; }
        case 's': {
            const char *s = va_arg(ap, const char *); if(!s) s = "(null)";
            int n = 0; while((prec < 0 || n < prec) && s[n]) n++;
            if(!left) for(int i = n; i < width; i++) oc(&o, ' ');
            for(int i = 0; i < n; i++) oc(&o, s[i]);
            if(left) for(int i = n; i < width; i++) oc(&o, ' ');
            break; }
        case 'f': case 'g': case 'e': (void)va_arg(ap, double); oc(&o, 'F'); break; /* not modelled exactly */
        case '%': oc(&o, '%'); break;
        case 0: f--; break;
        default: oc(&o, '%'); oc(&o, *f);
        }
    }
    if(cap) b[o.n < cap ? o.n : cap - 1] = 0;
    return (int)o.n;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1 << 20, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }

int vsscanf(const char *s, const char *f, va_list ap) {
    const char *b = s; int n = 0;
    for(; *f; f++) {
        if(isspace((unsigned char)*f)) { while(isspace((unsigned char)*s)) s++; continue; }
        if(*f != '%') { if(*s != *f) return (n == 0 && !*s) ? -1 : n; s++; continue; }
        f++;
        int sup = 0, width = 0, l = 0;
        if(*f == '*') { sup = 1; f++; }
        while(isdigit((unsigned char)*f)) width = width * 10 + (*f++ - '0');
        for(;; f++) { if(*f == 'l' || *f == 'z' || *f == 'j') l++; else if(*f == 'h') l--; else break; }
        if(*f == 'n') { *va_arg(ap, int *) = (int)(s - b); continue; }
        if(*f == '%') { while(isspace((unsigned char)*s)) s++; if(*s != '%') return n; s++; continue; }
        if(*f != 'c' && *f != '[') while(isspace((unsigned char)*s)) s++;
        if(!*s) return n ? n : -1;
        if(*f == 'd' || *f == 'u' || *f == 'i' || *f == 'x' || *f == 'X') {
            char t[32]; int k = 0, base = (*f == 'x' || *f == 'X') ? 16 : *f == 'i' ? 0 : 10;
            int max = width && width < 31 ? width : 31;
            if((*s == '-' || *s == '+') && k < max) t[k++] = *s++;
            int any = 0;
            while(k < max && (base == 16 ? isxdigit((unsigned char)*s) : isdigit((unsigned char)*s))) { t[k++] = *s++; any = 1; }
            t[k] = 0;
            if(!any) return n;
            if(sup) continue;
            unsigned long long v = *f == 'd' || *f == 'i' ? (unsigned long long)strtoll(t, 0, base) : strtoull(t, 0, base);
            void *d = va_arg(ap, void *);
            if(l >= 1) *(unsigned long long *)d = v; else if(l == 0) *(unsigned *)d = (unsigned)v;
            else if(l == -1) *(unsigned short *)d = (unsigned short)v; else *(unsigned char *)d = (unsigned char)v;
            n++;
        } else if(*f == 'f' || *f == 'g' || *f == 'e') {
            char *e; double v = strtod(s, &e); if(e == s) return n;
            s = e; if(sup) continue;
            if(l >= 1) *va_arg(ap, double *) = v; else *va_arg(ap, float *) = (float)v;
            n++;
        } else if(*f == 's') {
            char *d = sup ? 0 : va_arg(ap, char *); int k = 0;
            while(*s && !isspace((unsigned char)*s) && (!width || k < width)) { if(d) d[k] = *s; k++; s++; }
            if(d) { d[k] = 0; n++; }
        } else if(*f == 'c') {
            int w = width ? width : 1; char *d = sup ? 0 : va_arg(ap, char *);
            for(int k = 0; k < w; k++) { if(!*s) return n; if(d) d[k] = *s; s++; }
            if(d) n++;
        } else if(*f == '[') {
            char set[64]; int k = 0, inv = 0; f++;
            if(*f == '^') { inv = 1; f++; }
            do { if(k < 63) set[k++] = *f; f++; } while(*f && *f != ']');
            set[k] = 0;
            char *d = sup ? 0 : va_arg(ap, char *); int m = 0;
            while(*s && (!width || m < width)) {
                int in = 0;
                for(int i = 0; i < k; i++) { if(i + 2 < k && set[i + 1] == '-') { if(*s >= set[i] && *s <= set[i + 2]) in = 1; i += 2; } else if(set[i] == *s) in = 1; }
                if(in == inv) break;
                if(d) d[m] = *s;
                m++; s++;
            }
            if(!m) return n;
            if(d) { d[m] = 0; n++; }
        }
    }
    return n;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
/* output that no check looks at */
int printf(const char *f, ...) { (void)f; return 0; }
int puts(const char *s) { (void)s; return 0; }
int putchar(int c) { return c; }
int vprintf(const char *f, va_list ap) { (void)f; (void)ap; return 0; }
int fprintf(FILE *o, const char *f, ...) { (void)o; (void)f; return 0; }
int vfprintf(FILE *o, const char *f, va_list ap) { (void)o; (void)f; (void)ap; return 0; }
int fputs(const char *s, FILE *o) { (void)s; (void)o; return 0; }
int fputc(int c, FILE *o) { (void)o; return c; }
int fflush(FILE *o) { (void)o; return 0; }

/* printf family captured into vf_out (both under vsx and natively). */
#include "vf.h"
#undef printf
#undef puts
#undef putchar
#undef vprintf
#undef fprintf
#undef vfprintf
#undef fputs
#undef fputc
#undef fflush
#undef fwrite
char vf_out[VF_OUT];
size_t vf_outLen;
static void put(const char *s, size_t n) {
    for(size_t i = 0; i < n; i++)
        if(vf_outLen + 1 < sizeof vf_out) vf_out[vf_outLen++] = s[i];
    vf_out[vf_outLen] = 0;
}
int vfc_vprintf(const char *f, va_list ap) {
    char b[1000];
    int n = vsnprintf(b, sizeof b, f, ap);
    if(n > 0) put(b, (size_t)n < sizeof b ? (size_t)n : sizeof b - 1);
    return n;
}
int vfc_printf(const char *f, ...) { va_list ap; va_start(ap, f); int n = vfc_vprintf(f, ap); va_end(ap); return n; }
int vfc_puts(const char *s) { put(s, strlen(s)); put("\n", 1); return 0; }
int vfc_putchar(int c) { char b = (char)c; put(&b, 1); return c; }
int vfc_vfprintf(FILE *o, const char *f, va_list ap) { (void)o; return vfc_vprintf(f, ap); }
int vfc_fprintf(FILE *o, const char *f, ...) { (void)o; va_list ap; va_start(ap, f); int n = vfc_vprintf(f, ap); va_end(ap); return n; }
int vfc_fputs(const char *s, FILE *o) { (void)o; put(s, strlen(s)); return 0; }
int vfc_fputc(int c, FILE *o) { (void)o; return vfc_putchar(c); }
size_t vfc_fwrite(const void *p, size_t a, size_t b, FILE *o) { (void)o; put((const char *)p, a * b); return b; }
int vfc_fflush(FILE *o) { (void)o; return 0; }

/* P16: the file reader feeds the XML parser every byte of the file once, in order, terminates it, and
 * reports failures.  libxml2 and stdio are stand-ins here. */
#include "vf.h"
#include <NodesetLoader/NodesetLoader.h>
#include <libxml/parser.h>
#include <libxml/SAX.h>
void *vfh_calloc(size_t, size_t);
void vfh_free(void *);
#ifndef FMAX
#define FMAX 300
#endif
static const int SIZE[] = {0, 1, 3, 4, 5, 1023, 1027, 1028, 1029, 2052, 4100};
static int fsize, ropen, failAt, failEnd, ctxFail, shortRead;
static int pos, delivered, chunks, terminated, failed, live, created, afterEnd, opened, closed, wrongByte;
static int evAt, evDone, wired;
static xmlSAXHandlerPtr hdl; static void *user;
static unsigned char at(int i) { return (unsigned char)(i * 7 + i / 256 + 1); }
static void fire(void) {
    if(evDone) return;
    evDone = 1;
    wired = hdl->initialized == XML_SAX2_MAGIC && hdl->startElementNs && hdl->endElementNs && hdl->characters;
    if(!wired) return;
    static const char *id = "i=5", *bn = "n";
    const xmlChar *a[10] = {(xmlChar *)"NodeId", 0, 0, (xmlChar *)id, (xmlChar *)id + 3, (xmlChar *)"BrowseName", 0, 0, (xmlChar *)bn, (xmlChar *)bn + 1};
    hdl->startElementNs(user, (xmlChar *)"UANodeSet", 0, 0, 0, 0, 0, 0, 0);
    hdl->startElementNs(user, (xmlChar *)"UAObject", 0, 0, 0, 0, 2, 0, a);
    hdl->startElementNs(user, (xmlChar *)"DisplayName", 0, 0, 0, 0, 0, 0, 0);
    hdl->characters(user, (xmlChar *)"dn", 2);
    hdl->endElementNs(user, (xmlChar *)"DisplayName", 0, 0);
    hdl->endElementNs(user, (xmlChar *)"UAObject", 0, 0);
    hdl->endElementNs(user, (xmlChar *)"UANodeSet", 0, 0);
}
static int take(const char *chunk, int size) {
    if(terminated || failed) afterEnd = 1;
    for(int i = 0; i < size; i++) if((unsigned char)chunk[i] != at(delivered + i)) wrongByte = 1;
    delivered += size;
    if(size > 0) {
        chunks++;
        if(delivered > failAt) { failed = 1; return 4; }
        if(delivered > evAt) fire();
    }
    return 0;
}
void xmlInitParser(void) {}
void xmlCleanupParser(void) {}
void xmlParserError(void *ctx, const char *msg, ...) { (void)ctx; (void)msg; }
void xmlParserWarning(void *ctx, const char *msg, ...) { (void)ctx; (void)msg; }
/* the push parser keeps the initial bytes for later: no events, no errors before the first xmlParseChunk */
static char init[65536]; static int ninit;
xmlParserCtxtPtr xmlCreatePushParserCtxt(xmlSAXHandlerPtr sax, void *u, const char *chunk, int size, const char *fn) {
    (void)fn;
    if(ctxFail) return NULL;
    created++; live++;
    hdl = sax; user = u;
    vf_assert(size >= 0 && size <= 65536, "initial chunk");
    if(size > 0) { memcpy(init, chunk, (size_t)size); ninit = size; }
    xmlParserCtxtPtr c = (xmlParserCtxtPtr)vfh_calloc(1, sizeof(xmlParserCtxt));
    c->wellFormed = 1;
    return c;
}
int xmlParseChunk(xmlParserCtxtPtr c, const char *chunk, int size, int terminate) {
    int r = 0;
    if(ninit) { r = take(init, ninit); ninit = 0; }
    if(!r && size > 0) r = take(chunk, size);
    if(!r && terminate) { terminated = 1; if(failEnd) r = 5; else fire(); }
    if(r) { c->wellFormed = 0; c->errNo = r; }
    return r;
}
void xmlFreeParserCtxt(xmlParserCtxtPtr c) { live--; vfh_free(c); }
void xmlFreeDoc(xmlDocPtr d) { (void)d; }
FILE *vf_fopen(const char *n, const char *m) { (void)m; if(!ropen) return NULL; vf_assert(!strcmp(n, "file.xml"), "the requested file"); opened++; return (FILE *)&pos; }
int vf_fclose(FILE *f) { (void)f; closed++; return 0; }
size_t vf_fread(void *p, size_t sz, size_t n, FILE *f) {
    (void)f;
    size_t k = (size_t)(fsize - pos);
    if(k > sz * n) k = sz * n;
    if(sz > 1) k = k / sz * sz;
    for(size_t i = 0; i < k; i++) ((unsigned char *)p)[i] = at(pos + (int)i);
    pos += (int)k;
    return sz ? k / sz : 0;
}
int vf_feof(FILE *f) { (void)f; return pos >= fsize; }
int vf_ferror(FILE *f) { (void)f; return 0; }
int vf_fseek(FILE *f, long o, int w) { (void)f; pos = (int)o + (w == 1 ? pos : w == 2 ? fsize : 0); return 0; }
long vf_ftell(FILE *f) { (void)f; return pos; }
void vf_rewind(FILE *f) { (void)f; pos = 0; }
static int logged;
static void logCb(void *c, enum NodesetLoader_LogLevel lv, const char *m, ...) { (void)c; (void)m; logged += lv == NODESETLOADER_LOGLEVEL_ERROR; }
static unsigned short addNs(void *c, const char *u) { (void)c; (void)u; return 1; }
static int seen;
static void cb(void *c, NL_Node *n) { (void)c; seen += n->displayName.text && !strcmp(n->displayName.text, "dn"); }
void vf_main(void) {
    ropen = vf_choose(0, 1);
    ctxFail = ropen ? vf_choose(0, 1) : 0;
    /* the parser fails on the byte at failAt (or never), or only when told that the input ends */
    int how = ropen && !ctxFail ? vf_choose(0, 2) : 0;
    /* every length in a range, or one of the lengths around the borders of read buffers */
    if(how == 1 || vf_choose(0, 1)) fsize = SIZE[vf_choose(0, 10)];
    else fsize = vf_int(0, how == 0 && !ctxFail ? FMAX : 30);
    failAt = 1 << 20;
    if(how == 1) { failAt = vf_int(0, 4200); vf_assume(failAt < fsize); if(fsize == 0) vf_end_path(); }
    failEnd = how == 2;
    evAt = vf_choose(0, 1) ? 0 : 1 << 20;
    NodesetLoader_Logger lg = {NULL, logCb};
    NodesetLoader *l = NodesetLoader_new(&lg, NULL);
    NL_FileContext fc;
    memset(&fc, 0, sizeof fc);
    fc.file = "file.xml"; fc.addNamespace = addNs;
    bool ok = NodesetLoader_importFile(l, &fc);
    vf_obs(ok);
    vf_assert(opened == ropen && closed == opened, "the file is closed exactly once");
    vf_assert(live == 0, "parser state is released");
    vf_assert(!afterEnd && !wrongByte, "bytes arrive once and in order");
    bool want = ropen && !ctxFail && how == 0 && fsize > 0;
    vf_assert(ok == want, "success exactly when the whole document was parsed");
    if(!ok) { vf_assert(logged > 0, "the failure is logged"); vf_witness("failure"); }
    else {
        vf_assert(delivered == fsize && terminated, "every byte reaches the parser, and the end of the input");
        vf_witness("success");
        vf_assert(wired, "a SAX2 handler with element and text callbacks");
        vf_assert(NodesetLoader_sort(l), "sorts");
        NodesetLoader_forEachNode(l, NODECLASS_OBJECT, NULL, cb);
        vf_assert(seen == 1, "the document's node is there");
    }
    NodesetLoader_delete(l);
    vf_assert(vf_live == 0, "released");
}

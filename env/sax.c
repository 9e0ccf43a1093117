#include "sax.h"
#include <libxml/parser.h>
#include <libxml/SAX.h>
void *vfh_calloc(size_t, size_t);
void vfh_free(void *);
void (*vf_doc[6])(void);
int vf_docResult[6];
int vf_openFiles, vf_parserLive;
int vf_saxDepth;
static char names[24][40];
static size_t nameSize[24];          /* including the NUL */
static void *saxCtx;
static int curDoc;
static struct VfFileObj { int doc; size_t pos; } files[6];
static const xmlSAXHandler *hdl;
static char *exact(const char *s, size_t n, int nul) {
    char *p = (char *)malloc(n + (nul ? 1 : 0));
    memcpy(p, s, n);
    if(nul) p[n] = 0;
    return p;
}
void SRAW(const char *name, size_t nameSz, int n, const struct VfAttr *kv) {
    const char *at[5 * 14];
    char *keep[3 * 14];
    for(int i = 0; i < n; i++) {
        keep[2 * i] = exact(kv[i].key, kv[i].keySz, 0);
        keep[2 * i + 1] = exact(kv[i].val, kv[i].valLen, 0);
        at[5 * i] = keep[2 * i];
        at[5 * i + 1] = NULL;
        at[5 * i + 2] = NULL;
        at[5 * i + 3] = keep[2 * i + 1];
        at[5 * i + 4] = keep[2 * i + 1] + kv[i].valLen;
    }
    char *nm = exact(name, nameSz, 0);
    memcpy(names[vf_saxDepth], name, nameSz);
    nameSize[vf_saxDepth++] = nameSz;
    hdl->startElementNs(saxCtx, (xmlChar *)nm, NULL, NULL, 0, NULL, n, 0, (const xmlChar **)(n ? at : NULL));
    free(nm);
    for(int i = 0; i < 2 * n; i++) free(keep[i]);
}
void SA(const char *name, int n, const char **kv) {
    struct VfAttr a[14];
    for(int i = 0; i < n; i++) {
        a[i].key = kv[2 * i]; a[i].keySz = strlen(kv[2 * i]) + 1;
        a[i].val = kv[2 * i + 1]; a[i].valLen = strlen(kv[2 * i + 1]);
    }
    SRAW(name, strlen(name) + 1, n, a);
}
void S(const char *name, ...) {
    const char *kv[28];
    int n = 0;
    va_list ap;
    va_start(ap, name);
    for(;;) {
        const char *k = va_arg(ap, const char *);
        if(!k) break;
        kv[2 * n] = k;
        kv[2 * n + 1] = va_arg(ap, const char *);
        n++;
    }
    va_end(ap);
    SA(name, n, kv);
}
void E(void) {
    char *nm = exact(names[vf_saxDepth - 1], nameSize[vf_saxDepth - 1], 0);
    vf_saxDepth--;
    hdl->endElementNs(saxCtx, (xmlChar *)nm, NULL, NULL);
    free(nm);
}
void TN(const char *t, size_t n) {
    char *p = exact(t, n, 0);
    hdl->characters(saxCtx, (xmlChar *)p, (int)n);
    free(p);
}
void T(const char *t) { TN(t, strlen(t)); }
void EL(const char *name, const char *text) { SA(name, 0, NULL); if(text) T(text); E(); }
void closeAll(void) { while(vf_saxDepth > 0) E(); }

/* ---- libxml2's push parser, as an environment: bytes go in, the document's events come out ---- */
int vf_docEventsAt;                  /* 0: events fire with the first data chunk, 1: only when the input is terminated */
static int fired, terminated;
static int parserDoc;
void xmlInitParser(void) {}
void xmlCleanupParser(void) {}
void xmlParserError(void *ctx, const char *msg, ...) { (void)ctx; (void)msg; }
void xmlParserWarning(void *ctx, const char *msg, ...) { (void)ctx; (void)msg; }
static int fire(void) {
    if(fired) return 0;
    fired = 1;
    vf_saxDepth = 0;
    if(vf_doc[parserDoc]) vf_doc[parserDoc]();
    return vf_docResult[parserDoc] == 1;
}
xmlParserCtxtPtr xmlCreatePushParserCtxt(xmlSAXHandlerPtr sax, void *user, const char *chunk, int size, const char *filename) {
    (void)filename; (void)chunk; (void)size;
    xmlParserCtxtPtr c = (xmlParserCtxtPtr)vfh_calloc(1, sizeof(xmlParserCtxt));
    hdl = sax; saxCtx = user; fired = 0; terminated = 0; parserDoc = curDoc;
    vf_parserLive++;
    return c;
}
int xmlParseChunk(xmlParserCtxtPtr c, const char *chunk, int size, int terminate) {
    (void)c; (void)chunk;
    int r = 0;
    if(size > 0 && !vf_docEventsAt) r = fire();
    if(terminate && !terminated) {
        terminated = 1;
        if(fire()) r = 1;
        if(vf_docResult[parserDoc] == 2) r = 1;
    }
    if(r) c->wellFormed = 0, c->errNo = 4;
    return r ? 4 : 0;
}
void xmlFreeParserCtxt(xmlParserCtxtPtr c) { vf_parserLive--; vfh_free(c); }
void xmlFreeDoc(xmlDocPtr d) { (void)d; }

/* ---- files ---- */
FILE *vf_fopen(const char *name, const char *mode) {
    (void)mode;
    if(!name || name[0] < '0' || name[0] > '5') return NULL;
    vf_openFiles++;
    curDoc = name[0] - '0';
    files[curDoc].doc = curDoc;
    files[curDoc].pos = 0;
    return (FILE *)&files[curDoc];
}
int vf_fclose(FILE *f) { (void)f; vf_openFiles--; return 0; }
size_t vf_fread(void *p, size_t sz, size_t n, FILE *f) {
    struct VfFileObj *o = (struct VfFileObj *)f;
    size_t len = vf_docResult[o->doc] == 3 ? 0 : 40, left = len - o->pos, k = sz ? left / sz : 0;
    if(k > n) k = n;
    memset(p, ' ', k * sz);
    o->pos += k * sz;
    return k;
}
int vf_feof(FILE *f) { return ((struct VfFileObj *)f)->pos >= (vf_docResult[((struct VfFileObj *)f)->doc] == 3 ? 0 : 40); }
int vf_ferror(FILE *f) { (void)f; return 0; }
int vf_fseek(FILE *f, long o, int w) { ((struct VfFileObj *)f)->pos = (w == 2 ? 40 : w == 1 ? ((struct VfFileObj *)f)->pos : 0) + o; return 0; }
long vf_ftell(FILE *f) { return (long)((struct VfFileObj *)f)->pos; }
void vf_rewind(FILE *f) { ((struct VfFileObj *)f)->pos = 0; }

unsigned short vf_nsMap[16] = {5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61};
char vf_nsUri[16][40];
void *vf_nsCtx[16];
int vf_nsCount;
unsigned short vf_addNamespace(void *ctx, const char *uri) {
    if(vf_nsCount < 16) {
        vf_nsCtx[vf_nsCount] = ctx;
        strncpy(vf_nsUri[vf_nsCount], uri ? uri : "(null)", 39);
    }
    vf_nsCount++;
    return vf_nsMap[(vf_nsCount - 1) & 15];
}
struct VfLog vf_log;
static void logCb(void *ctx, enum NodesetLoader_LogLevel level, const char *message, ...) {
    (void)ctx;
    va_list ap; va_start(ap, message);
    if((int)level >= 0 && (int)level < 3) vf_log.count[level]++;
    vsnprintf(vf_log.last, sizeof vf_log.last, message, ap);
    va_end(ap);
}
NodesetLoader_Logger vf_logger = {NULL, logCb};
bool vf_import(NodesetLoader *l, int doc, NodesetLoader_ExtensionInterface *ext) {
    char file[2] = {(char)('0' + doc), 0};
    NL_FileContext fc;
    memset(&fc, 0, sizeof fc);
    fc.file = file;
    fc.addNamespace = vf_addNamespace;
    fc.userContext = &vf_nsCount;
    fc.extensionHandling = ext;
    return NodesetLoader_importFile(l, &fc);
}
struct VfNode vf_nodes[32];
int vf_nNodes;
static void collectCb(void *ctx, NL_Node *n) {
    vf_assert(vf_nNodes < 32, "at most 32 nodes in this scope");
    vf_nodes[vf_nNodes].n = n;
    vf_nodes[vf_nNodes].cls = *(NL_NodeClass *)ctx;
    vf_nNodes++;
}
void vf_collect(NodesetLoader *l) {
    vf_nNodes = 0;
    for(int c = 0; c < NL_NODECLASS_COUNT; c++) {
        NL_NodeClass cls = (NL_NodeClass)c;
        int before = vf_nNodes;
        size_t k = NodesetLoader_forEachNode(l, cls, &cls, collectCb);
        vf_assert((int)k == vf_nNodes - before, "forEachNode reports the number of nodes visited");
    }
}
int vf_isNum(const UA_NodeId *id, unsigned ns, unsigned v) {
    return VF_AND(VF_AND(id->identifierType == UA_NODEIDTYPE_NUMERIC, id->namespaceIndex == ns), id->identifier.numeric == v);
}
NL_Node *vf_findNum(unsigned ns, unsigned id) {
    for(int i = 0; i < vf_nNodes; i++) if(vf_isNum(&vf_nodes[i].n->id, ns, id)) return vf_nodes[i].n;
    return NULL;
}
int vf_countNum(unsigned ns, unsigned id) {
    int c = 0;
    for(int i = 0; i < vf_nNodes; i++) c += vf_isNum(&vf_nodes[i].n->id, ns, id) != 0;
    return c;
}
int vf_streq(const char *a, const char *b) {
    if(!a || !b) return a == b;
    return strcmp(a, b) == 0;
}

#include "common.h"
const char *dir;
long live;
void *dm_malloc(size_t n) { void *p = malloc(n); if(p) live++; return p; }
void *dm_calloc(size_t a, size_t b) { void *p = calloc(a, b); if(p) live++; return p; }
void *dm_realloc(void *q, size_t n) { void *p = realloc(q, n); if(p && !q) live++; return p; }
void dm_free(void *p) { if(p) live--; free(p); }
unsigned short nsMap[16] = {5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61};
int nsCount;
char nsUri[16][64];
char lastLog[512];
int logCount[3];
static void logCb(void *ctx, enum NodesetLoader_LogLevel level, const char *message, ...) {
    va_list ap; va_start(ap, message); vsnprintf(lastLog, sizeof lastLog, message, ap); va_end(ap);
    if((int)level >= 0 && (int)level < 3) logCount[level]++;
}
NodesetLoader_Logger logger = {NULL, logCb};
static unsigned short addNs(void *ctx, const char *uri) {
    int k = nsCount++;
    snprintf(nsUri[k & 15], 64, "%s", uri ? uri : "(null)");
    return nsMap[k & 15];
}
const char *writeFile(const char *name, const char *text, size_t len) {
    static char path[512];
    snprintf(path, sizeof path, "%s/%s", dir, name);
    FILE *f = fopen(path, "wb");
    fwrite(text, 1, len, f);
    fclose(f);
    return path;
}
bool loadExt(NodesetLoader *l, const char *xml, NodesetLoader_ExtensionInterface *ext) {
    NL_FileContext fc;
    memset(&fc, 0, sizeof fc);
    fc.file = writeFile("doc.xml", xml, strlen(xml));
    fc.addNamespace = addNs;
    fc.userContext = &nsCount;
    fc.extensionHandling = ext;
    return NodesetLoader_importFile(l, &fc);
}
bool load(NodesetLoader *l, const char *xml) { return loadExt(l, xml, NULL); }
struct Found nodes[70000];
int nNodes;
static void cb(void *ctx, NL_Node *n) { if(nNodes < 70000) { nodes[nNodes].n = n; nodes[nNodes].cls = *(NL_NodeClass *)ctx; } nNodes++; }
void collect(NodesetLoader *l) {
    nNodes = 0;
    for(int c = 0; c < NL_NODECLASS_COUNT; c++) {
        NL_NodeClass k = (NL_NodeClass)c;
        NodesetLoader_forEachNode(l, k, &k, cb);
    }
}
int isNum(const UA_NodeId *id, unsigned ns, unsigned v) {
    return id->identifierType == UA_NODEIDTYPE_NUMERIC && id->namespaceIndex == ns && id->identifier.numeric == v;
}
int pos(unsigned ns, unsigned id) { for(int i = 0; i < nNodes; i++) if(isNum(&nodes[i].n->id, ns, id)) return i; return -1; }
NL_Node *num(unsigned ns, unsigned id) { int p = pos(ns, id); return p < 0 ? NULL : nodes[p].n; }
int countRefs(NL_Reference *r) { int n = 0; for(; r; r = r->next) n++; return n; }
int main(int argc, char **argv) {
    dir = argc > 1 ? argv[1] : ".";
    return demo();
}

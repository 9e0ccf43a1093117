#include "bcommon.h"
static const char *dir;
long live;
void *dm_malloc(size_t n) { void *p = malloc(n); if(p) live++; return p; }
void *dm_calloc(size_t a, size_t b) { void *p = calloc(a, b); if(p) live++; return p; }
void *dm_realloc(void *q, size_t n) { void *p = realloc(q, n); if(p && !q) live++; return p; }
void dm_free(void *p) { if(p) live--; free(p); }
void *vfh_malloc(size_t n) { return dm_malloc(n); }
void *vfh_calloc(size_t a, size_t b) { return dm_calloc(a, b); }
void vfh_free(void *p) { dm_free(p); }
unsigned short vf_nsMap[16] = {5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61};
void vf_assert_(int c, const char *m) { if(!c) { fprintf(stderr, "FAILED: %s\n", m); exit(1); } }
double vf_strtod_bits(const char *s) { return strtod(s, NULL); }
int vf_isNum(const UA_NodeId *id, unsigned ns, unsigned v) { return isN(id, ns, v); }
int isN(const UA_NodeId *id, unsigned ns, unsigned v) { return id->identifierType == UA_NODEIDTYPE_NUMERIC && id->namespaceIndex == ns && id->identifier.numeric == v; }
UA_NodeId N(unsigned ns, unsigned v) { return UA_NODEID_NUMERIC((UA_UInt16)ns, v); }
int srv(unsigned ns, unsigned v) { UA_NodeId n = N(ns, v); return vf_srvFind(&n); }
int refs(unsigned ns, unsigned v, unsigned type, unsigned tns, unsigned tv, int fwd) { UA_NodeId s = N(ns, v), t = N(0, type), d = N(tns, tv); return vf_srvHasRef(&s, &t, &d, fwd); }
int strEq(const UA_String *s, const char *t) { return s->length == strlen(t) && memcmp(s->data, t, s->length) == 0; }
bool bload(const char *xml) {
    char path[512];
    snprintf(path, sizeof path, "%s/doc.xml", dir);
    FILE *f = fopen(path, "wb");
    fwrite(xml, 1, strlen(xml), f);
    fclose(f);
    return NodesetLoader_loadFile(&vf_server, path, NULL);
}
void done(void) { vf_srvCleanTypes(); CHECK(live == 0); }
int main(int argc, char **argv) { dir = argc > 1 ? argv[1] : "."; return demo(); }

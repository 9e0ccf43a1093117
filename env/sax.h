/* A symbolic XML document: harness code plays the role of libxml2's push parser and
 * pushes element/text events into the loader through the SAX handler the loader registered.  Every string handed
 * over lives in an exact-size buffer that is released right after the callback, as a real
 * SAX parser is allowed to do. */
#ifndef VF_SAX_H
#define VF_SAX_H
#include "vf.h"
#include <NodesetLoader/NodesetLoader.h>

extern void (*vf_doc[6])(void);      /* documents; file "0".."5" selects one, anything else cannot be opened */
extern int vf_docResult[6];          /* 0 well formed; 1 error after the events; 2 error only on termination; 3 empty file */
extern int vf_docEventsAt;
extern int vf_openFiles;             /* fopen minus fclose                                                   */
extern int vf_parserLive;            /* Parser_new minus Parser_delete                                       */

#define END ((const char *)0)
void S(const char *name, ...);       /* start element; key, value, ... , END            */
void SA(const char *name, int n, const char **kv);   /* the same with an array of pairs */
struct VfAttr { const char *key; size_t keySz; const char *val; size_t valLen; };
void SRAW(const char *name, size_t nameSz, int n, const struct VfAttr *kv);  /* sizes given, so bytes may be symbolic; keys and name contain a NUL */
void E(void);                        /* end of the innermost open element                */
void T(const char *text);            /* character data (one event)                       */
void TN(const char *text, size_t n);
void EL(const char *name, const char *text); /* <name>text</name>, no text if NULL      */
void closeAll(void);                 /* close everything still open                      */
extern int vf_saxDepth;

/* loader helpers */
extern unsigned short vf_nsMap[16];   /* server index handed out for the k-th distinct Uri */
extern char vf_nsUri[16][40];
extern void *vf_nsCtx[16];
extern int vf_nsCount;
unsigned short vf_addNamespace(void *ctx, const char *uri);
struct VfLog { int count[3]; char last[160]; };
extern struct VfLog vf_log;
extern NodesetLoader_Logger vf_logger;
bool vf_import(NodesetLoader *l, int doc, NodesetLoader_ExtensionInterface *ext);

/* flattened result */
struct VfNode { NL_Node *n; NL_NodeClass cls; };
extern struct VfNode vf_nodes[32];
extern int vf_nNodes;
void vf_collect(NodesetLoader *l);             /* all classes, in forEachNode order */
NL_Node *vf_findNum(unsigned ns, unsigned id); /* NULL if absent                    */
int vf_countNum(unsigned ns, unsigned id);
int vf_isNum(const UA_NodeId *id, unsigned ns, unsigned v);
int vf_streq(const char *a, const char *b);    /* NULL-safe */
#endif

/* shared by the demonstrations: loads XML text with the real libxml2 through the loader's public interface */
#include <NodesetLoader/NodesetLoader.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdbool.h>
#define CHECK(c) do { if(!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while(0)
extern const char *dir;
extern long live;              /* live heap blocks of the code under test */
extern unsigned short nsMap[16];
extern int nsCount;
extern char nsUri[16][64];
extern char lastLog[512];
extern int logCount[3];
extern NodesetLoader_Logger logger;
const char *writeFile(const char *name, const char *text, size_t len);
bool load(NodesetLoader *l, const char *xml);      /* import one file with this content */
bool loadExt(NodesetLoader *l, const char *xml, NodesetLoader_ExtensionInterface *ext);
struct Found { NL_Node *n; int cls; };
extern struct Found nodes[70000];
extern int nNodes;
void collect(NodesetLoader *l);
NL_Node *num(unsigned ns, unsigned id);
int pos(unsigned ns, unsigned id);                 /* place in the overall order, -1 if absent */
int isNum(const UA_NodeId *id, unsigned ns, unsigned v);
int countRefs(NL_Reference *r);
#define HEAD "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<UANodeSet xmlns=\"http://opcfoundation.org/UA/2011/03/UANodeSet.xsd\">\n"
#define NS1 "<NamespaceUris><Uri>urn:a</Uri></NamespaceUris>\n"
#define NS2 "<NamespaceUris><Uri>urn:a</Uri><Uri>urn:b</Uri></NamespaceUris>\n"
#define TAIL "</UANodeSet>\n"
#define REF(t, f, x) "<Reference ReferenceType=\"" t "\" IsForward=\"" f "\">" x "</Reference>"
#define NODE(cl, id, refs) "<" cl " NodeId=\"" id "\" BrowseName=\"1:n\"><References>" refs "</References></" cl ">\n"
int demo(void);

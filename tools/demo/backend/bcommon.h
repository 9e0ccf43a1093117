/* shared by the demonstrations of the backend: loads XML text with the real libxml2 into a model of the server */
#include "ua_backend.h"
#define CHECK(c) do { if(!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while(0)
extern long live;                                  /* live heap blocks of the code under test */
bool bload(const char *xml);                       /* NodesetLoader_loadFile of this text */
int isN(const UA_NodeId *id, unsigned ns, unsigned v);
UA_NodeId N(unsigned ns, unsigned v);
int srv(unsigned ns, unsigned v);                  /* index of a node the server has, -1 if none */
int refs(unsigned ns, unsigned v, unsigned type, unsigned tns, unsigned tv, int fwd);   /* how often a standard reference was added */
int strEq(const UA_String *s, const char *t);
void done(void);                                   /* everything released */
#define A vf_nsMap[0]
#define B_ vf_nsMap[1]
#define HEAD "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<UANodeSet xmlns=\"http://opcfoundation.org/UA/2011/03/UANodeSet.xsd\">\n"
#define NS1 "<NamespaceUris><Uri>urn:a</Uri></NamespaceUris>\n"
#define NS2 "<NamespaceUris><Uri>urn:a</Uri><Uri>urn:b</Uri></NamespaceUris>\n"
#define TAIL "</UANodeSet>\n"
#define REF(t, f, x) "<Reference ReferenceType=\"" t "\" IsForward=\"" f "\">" x "</Reference>"
#define NODE(cl, id, refs) "<" cl " NodeId=\"" id "\" BrowseName=\"1:n\"><References>" refs "</References></" cl ">\n"
#define DT(id, name, parent, def) "<UADataType NodeId=\"" id "\" BrowseName=\"1:" name "\"><References>" REF("i=45", "false", parent) "</References>" def "</UADataType>\n"
#define DEF(name, fields) "<Definition Name=\"" name "\">" fields "</Definition>"
#define FIELD(n, t) "<Field Name=\"" n "\" DataType=\"" t "\"/>"
#define VAR(id, dt, rank, value) "<UAVariable NodeId=\"" id "\" BrowseName=\"1:v\" DataType=\"" dt "\" ValueRank=\"" rank "\"><References>" REF("i=47", "false", "i=85") "</References><Value>" value "</Value></UAVariable>\n"
#define EXT(t, n, body) "<ExtensionObject><TypeId><Identifier>" t "</Identifier></TypeId><Body><" n ">" body "</" n "></Body></ExtensionObject>"
int demo(void);

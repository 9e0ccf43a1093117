/* Shared pieces of the document harnesses. */
#include "sax.h"
/* "ns=<ns>;i=<10+d>" (or "ns=<ns>;s=N<d>") in b; d may be symbolic, 0..9 */
#ifndef IDK
#define IDK 0
#endif
static inline const char *nid(char *b, int ns, int d) {
    strcpy(b, IDK ? "ns=0;s=N0" : "ns=0;i=10");
    b[3] = (char)('0' + ns);
    b[8] = (char)('0' + d);
    return b;
}
#define NID(d) (10u + (unsigned)(d))
static inline int isNid(const UA_NodeId *id, unsigned ns, int d) {
#if IDK
    if(id->identifierType != UA_NODEIDTYPE_STRING || id->identifier.string.length != 2) return 0;
    return VF_AND(id->namespaceIndex == ns, VF_AND(id->identifier.string.data[0] == 'N', id->identifier.string.data[1] == '0' + d));
#else
    return vf_isNum(id, ns, NID(d));
#endif
}
static inline void nsUris(int n) {
    S("NamespaceUris", END);
    for(int i = 0; i < n; i++) { char u[8] = "urn:a"; u[4] = (char)('a' + i); EL("Uri", u); }
    E();
}
static inline void ref(const char *type, int forward, const char *target) {
    if(forward) S("Reference", "ReferenceType", type, END);
    else S("Reference", "ReferenceType", type, "IsForward", "false", END);
    T(target);
    E();
}

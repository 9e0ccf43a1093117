/* Attributes of nodes at the server: each has the value that is written, or the standard's default. */
#include "bdoc.h"
enum { OBJ, VIEW, METHOD, VAR, OBJT, REFT, VART, DATAT, N_CLS };
static const char *EL_[] = {"UAObject", "UAView", "UAMethod", "UAVariable", "UAObjectType", "UAReferenceType", "UAVariableType", "UADataType"};
static const UA_NodeClass CLS[] = {UA_NODECLASS_OBJECT, UA_NODECLASS_VIEW, UA_NODECLASS_METHOD, UA_NODECLASS_VARIABLE, UA_NODECLASS_OBJECTTYPE, UA_NODECLASS_REFERENCETYPE, UA_NODECLASS_VARIABLETYPE, UA_NODECLASS_DATATYPE};
static const char *PARENT[] = {"i=85", "i=87", "i=85", "i=85", "i=58", "i=32", "i=62", "i=22"};
static const char *BOOLS[] = {"", "true", "false", "1", "0"};
static int cls, bools[2], num_[2], digits, bn[3], bnNs, txt[6], have[3], loc[3], ext, dims, dimDig[3], dimLen[3], nDims, rank, rankNeg, dt, msi, inst;
static const char *MSI[] = {"", "100", "-1", "0.5", "0"};
static const double MSIV[] = {-1, 100, -1, 0.5, 0};
static void text(const char *el, int k) {
    if(!have[k]) return;
    if(have[k] == 2) { char l[3] = {(char)loc[k], 0, 0}; S(el, "Locale", l, END); } else S(el, END);
    if(have[k] != 3) { char t[3] = {(char)txt[2 * k], (char)txt[2 * k + 1], 0}; T(t); }
    E();
}
static int put(const char **kv, int n, const char *k, const char *v) { kv[2 * n] = k; kv[2 * n + 1] = v; return n + 1; }
static char tn[2][4], tdims[48], trank[4], tdt[16], tbn[8];
static void doc(void) {
    const char *kv[32]; int n = 0;
    docBegin(2);
    n = put(kv, n, "NodeId", "ns=1;i=60");
    if(bnNs < 3) { tbn[0] = (char)('0' + bnNs); tbn[1] = ':'; tbn[2] = (char)bn[0]; tbn[3] = (char)bn[1]; tbn[4] = 0; }
    else { tbn[0] = (char)bn[0]; tbn[1] = (char)bn[1]; tbn[2] = 0; }
    n = put(kv, n, "BrowseName", tbn);
    for(int k = 0; k < 2; k++) { int p = 0; for(int i = 0; i < digits; i++) { int q = num_[k]; for(int j = i + 1; j < digits; j++) q /= 10; tn[k][p++] = (char)('0' + q % 10); } tn[k][p] = 0; }
    static const char *FIRST[] = {"", "ContainsNoLoops", "Executable", "Historizing", "IsAbstract", "IsAbstract", "IsAbstract", "IsAbstract"};
    static const char *SECOND[] = {"", "", "UserExecutable", "", "", "Symmetric", "", ""};
    if(FIRST[cls][0] && bools[0]) n = put(kv, n, FIRST[cls], BOOLS[bools[0]]);
    if(SECOND[cls][0] && bools[1]) n = put(kv, n, SECOND[cls], BOOLS[bools[1]]);
    if((cls == OBJ || cls == VIEW) && digits) n = put(kv, n, "EventNotifier", tn[0]);
    if(cls == VAR && digits) { n = put(kv, n, "AccessLevel", tn[0]); n = put(kv, n, "UserAccessLevel", tn[1]); }
    if(cls == VAR && msi) n = put(kv, n, "MinimumSamplingInterval", MSI[msi]);
    if(cls == VAR || cls == VART) {
        static const char *DT[] = {"", "i=11", "ns=2;i=7", "Al"};
        if(dt) n = put(kv, n, "DataType", DT[dt]);
        if(rank) { int p = 0; if(rankNeg) trank[p++] = '-'; trank[p++] = (char)('0' + rank); trank[p] = 0; n = put(kv, n, "ValueRank", trank); }
        if(nDims) {
            int p = 0;
            for(int d = 0; d < nDims; d++) {
                if(d) tdims[p++] = ',';
                const char *lead = dimLen[d] == 10 ? "429496729" : "";
                for(const char *c = lead; *c; c++) tdims[p++] = *c;
                tdims[p++] = (char)dimDig[d];
            }
            tdims[p] = 0;
            n = put(kv, n, "ArrayDimensions", tdims);
        }
    }
    S("Aliases", END); S("Alias", "Alias", "Al", END); T("i=12"); E(); E();
    SA(EL_[cls], n, kv);
    text("DisplayName", 0); text("Description", 1);
    if(cls == REFT) text("InverseName", 2);
    parentRef(cls >= OBJT ? "i=45" : "i=47", PARENT[cls]);
    if(ext) { S("Extensions", END); S("Extension", END); EL("a", "x"); E(); E(); }
    E(); E();
}
static int marker, finished;
static void *xNew(void) { return &marker; }
static void xStart(void *d, const char *name, int nA, const char **at) { (void)d; (void)name; (void)nA; (void)at; }
static void xEnd(void *d, const char *name, const char *v) { (void)d; (void)name; (void)v; }
static void xFinish(void *d) { finished += d == &marker; }
static void checkText(const UA_LocalizedText *t, int k, const char *what) {
    char c[2] = {(char)txt[2 * k], (char)txt[2 * k + 1]}, l[1] = {(char)loc[k]};
    vf_assert(have[k] && have[k] != 3 ? strIs(&t->text, c, 2) : t->text.length == 0, what);
    vf_assert(have[k] == 2 ? strIs(&t->locale, l, 1) : t->locale.length == 0, what);
}
static int isTrue(int k, int def) { return bools[k] ? bools[k] == 1 || bools[k] == 3 : def; }
static void checkDims(size_t n, const UA_UInt32 *d, UA_Int32 r, int rankOneNull) {
    (void)rankOneNull;
    vf_assert(r == (rank ? rankNeg ? -rank : rank : -1), "value rank");
    if(nDims) {
        vf_assert((int)n == nDims && d, "array dimensions");
        for(int i = 0; i < nDims; i++) vf_assert(d[i] == (dimLen[i] == 10 ? 4294967290u : 0u) + (unsigned)(dimDig[i] - '0'), "array dimension");
    } else if(r == 1) vf_assert(n == 1 && d && d[0] == 0, "one dimension of any length");
    else vf_assert(n == 0 || (r > 0 && n == (size_t)r), "none, or as many as the value rank says");
}
static void checkType(const UA_NodeId *t) {
    if(dt == 2) vf_assert(vf_isNum(t, vf_nsMap[1], 7), "data type"); else vf_assert(vf_isNum(t, 0, dt == 1 ? 11 : dt == 3 ? 12 : 24), "data type");
}
static int seen;
static void onAdd(const struct VfAdd *a) {
    seen++;
    vf_assert(a->cls == CLS[cls] && vf_isNum(a->id, vf_nsMap[0], 60), "node class and id");
    unsigned pid = 0; for(const char *c = PARENT[cls] + 2; *c; c++) pid = pid * 10 + (unsigned)(*c - '0');
    vf_assert(vf_isNum(a->parent, 0, pid) && vf_isNum(a->refType, 0, cls >= OBJT ? 45 : 47), "parent");
    char b[2] = {(char)bn[0], (char)bn[1]};
    vf_assert(strIs(&a->bn->name, b, 2) && a->bn->namespaceIndex == (bnNs == 1 ? vf_nsMap[0] : bnNs == 2 ? vf_nsMap[1] : 0), "browse name");
    vf_assert(a->nodeContext == (ext ? (void *)&marker : NULL), "the extension is the node's context");
    const UA_ObjectAttributes *common = a->attr;
    checkText(&common->displayName, 0, "display name"); checkText(&common->description, 1, "description");
    switch(cls) {
    case OBJ: vf_assert(common->eventNotifier == (digits ? num_[0] : 0), "event notifier"); break;
    case VIEW: { const UA_ViewAttributes *at = a->attr; vf_assert(at->eventNotifier == (digits ? num_[0] : 0) && at->containsNoLoops == isTrue(0, 0), "event notifier, loops"); break; }
    case METHOD: { const UA_MethodAttributes *at = a->attr; vf_assert(at->executable == isTrue(0, 1) && at->userExecutable == isTrue(1, 1), "executable"); break; }
    case OBJT: { const UA_ObjectTypeAttributes *at = a->attr; vf_assert(at->isAbstract == isTrue(0, 0), "abstract"); break; }
    case DATAT: { const UA_DataTypeAttributes *at = a->attr; vf_assert(at->isAbstract == isTrue(0, 0), "abstract"); break; }
    case REFT: { const UA_ReferenceTypeAttributes *at = a->attr; vf_assert(at->isAbstract == isTrue(0, 0) && at->symmetric == isTrue(1, 0), "abstract, symmetric"); checkText(&at->inverseName, 2, "inverse name"); break; }
    case VAR: {
        const UA_VariableAttributes *at = a->attr;
        vf_assert(at->accessLevel == (digits ? num_[0] : 1) && at->userAccessLevel == (digits ? num_[1] : 1), "access levels");
        vf_assert(at->historizing == isTrue(0, 0), "historizing");
        vf_assert(at->minimumSamplingInterval == MSIV[msi], "minimum sampling interval");
        vf_assert(at->value.type == NULL && at->value.data == NULL, "no value");
        checkType(&at->dataType); checkDims(at->arrayDimensionsSize, at->arrayDimensions, at->valueRank, 1);
        if(dimLen[0] == 10) vf_witness("large dimension");
        break; }
    case VART: {
        const UA_VariableTypeAttributes *at = a->attr;
        vf_assert(at->isAbstract == isTrue(0, 0), "abstract");
        checkType(&at->dataType); checkDims(at->arrayDimensionsSize, at->arrayDimensions, at->valueRank, 1);
        break; }
    }
}
void vf_main(void) {
    cls = vf_choose(0, N_CLS - 1);
    int what = vf_choose(0, cls == VAR ? 3 : cls == VART ? 3 : 1);      /* which group varies */
    for(int i = 0; i < 3; i++) bn[i] = vf_int(33, 126);
    for(int i = 0; i < 2; i++) vf_assume(VF_AND(bn[i] != ':', VF_OR(bn[i] < '0', bn[i] > '9')));
    for(int i = 0; i < 6; i++) txt[i] = vf_int(33, 126);
    for(int i = 0; i < 3; i++) loc[i] = vf_int('a', 'z');
    bnNs = 1;
    if(what == 0) { for(int i = 0; i < (cls == REFT ? 3 : 2); i++) have[i] = vf_choose(0, 3); bnNs = vf_choose(0, 3); ext = vf_choose(0, 1); }
    else have[0] = 1;
    if(what == 1) {
        bools[0] = vf_choose(0, 4); bools[1] = vf_choose(0, cls == METHOD || cls == REFT ? 4 : 0);
        if(cls == OBJ || cls == VIEW || cls == VAR) {
            digits = vf_choose(0, 3);
            int max = digits == 1 ? 9 : digits == 2 ? 99 : 255;
            for(int k = 0; k < 2; k++) num_[k] = digits ? vf_int(0, max) : 0;
        }
        if(cls == VAR) msi = vf_choose(0, 4);
    }
    if(what == 2) { rank = vf_int(0, 3); rankNeg = vf_choose(0, 1); vf_assume(VF_OR(rank != 0, rankNeg == 0)); if(!rank) rank = 0; nDims = vf_choose(0, 3); for(int i = 0; i < nDims; i++) { dimLen[i] = vf_choose(0, 1) * 9 + 1; dimDig[i] = vf_int('0', dimLen[i] == 10 ? '5' : '9'); } }
    if(what == 3) dt = vf_choose(0, 3);
    vf_doc[0] = doc; vf_onAdd = onAdd;
    NodesetLoader_ExtensionInterface ifc;
    memset(&ifc, 0, sizeof ifc);
    ifc.newExtension = xNew; ifc.start = xStart; ifc.end = xEnd; ifc.finish = xFinish;
    vf_assert(NodesetLoader_loadFile(&vf_server, "0", ext ? &ifc : NULL), "loads");
    vf_assert(seen == 1, "the node is added once");
    if(ext) vf_assert(finished == 1, "the extension was read");
    vf_assert(vf_srvNamespaces == 2, "namespaces");
    if(cls == METHOD && what == 1) vf_witness("method");
    if(cls == REFT) vf_witness("reference type");
    bEnd();
}

/* Values of the built-in types with a structure of their own: whatever children are there, in
 * whatever order, arrive; whatever is absent is null. */
#include "bdoc.h"
enum { LT, QN, NID_, GUID, STATUS, DATE, OTHER };
static const char *NAME[] = {"LocalizedText", "QualifiedName", "NodeId", "Guid", "StatusCode", "DateTime", "?"};
static const int TYPE[] = {UA_TYPES_LOCALIZEDTEXT, UA_TYPES_QUALIFIEDNAME, UA_TYPES_NODEID, UA_TYPES_GUID, UA_TYPES_STATUSCODE, UA_TYPES_DATETIME, 0};
static const char *KID[][2] = {{"Locale", "Text"}, {"NamespaceIndex", "Name"}, {"Identifier", 0}, {"String", 0}, {"Code", 0}, {0, 0}, {0, 0}};
static int kind, form, have[2], swap, x[8], uris, other, shape;
static char t0[80], t1[80];
static unsigned idx, num;
static int numericId;
static void kid(int k) {
    if(!have[k]) return;
    if(shape == 1) { S(KID[kind][k], END); EL("Extra", "1"); E(); }     /* an element where text should be */
    else if(shape == 2) EL("Extra", "1");                               /* something else instead          */
    else EL(KID[kind][k], have[k] == 2 ? NULL : k ? t1 : t0);
}
static const char *typeName(void) { return kind == OTHER ? UA_TYPES[other].typeName : NAME[kind]; }
static void val(void) {
    S(typeName(), END);
    if(kind == DATE || kind == OTHER) { if(shape == 1) EL("Extra", "1"); else if(have[0]) T(t0); }
    else if(shape == 3) T("text");
    else if(swap) { kid(1); kid(0); }
    else { kid(0); if(KID[kind][1]) kid(1); }
    E();
}
static void first(void) { S(typeName(), END); E(); }
static void doc(void) {
    char dt[8];
    int t = kind == OTHER ? other : TYPE[kind];
    snprintf(dt, sizeof dt, "i=%d", (int)UA_TYPES[t].typeId.identifier.numeric);
    docBegin(uris);
    S("UAVariable", "NodeId", "ns=1;i=1", "BrowseName", "1:a", "DataType", dt, "ValueRank", form == 1 ? "1" : "-1", END);
    parentRef("i=35", "i=85");
    S("Value", END);
    if(form == 1) { char l[32] = "ListOf"; strcat(l, typeName()); S(l, END); first(); val(); E(); }
    else val();
    E(); E(); E();
}
static int seen;
static int nullStr(const UA_String *s) { return s->length == 0; }
static void onAdd(const struct VfAdd *a) {
    const UA_VariableAttributes *at = a->attr;
    int t = kind == OTHER ? other : TYPE[kind];
    seen++;
    vf_assert(at->value.type == &UA_TYPES[t] && at->value.arrayLength == (form ? 2u : 0u) && at->value.data, "a value of the variable's type");
    const void *p = (const char *)at->value.data + (form ? UA_TYPES[t].memSize : 0);
    int got0 = shape == 0 && have[0] == 1, got1 = shape == 0 && have[1] == 1;
    switch(kind) {
    case LT: {
        const UA_LocalizedText *v = p;
        vf_assert(got0 ? strIs(&v->locale, t0, strlen(t0)) : nullStr(&v->locale), "locale");
        vf_assert(got1 ? strIs(&v->text, t1, strlen(t1)) : nullStr(&v->text), "text");
        break; }
    case QN: {
        const UA_QualifiedName *v = p;
        vf_assert(v->namespaceIndex == (got0 && idx ? vf_nsMap[idx - 1] : 0), "namespace index of the server");
        vf_assert(got1 ? strIs(&v->name, t1, strlen(t1)) : nullStr(&v->name), "name");
        
        break; }
    case NID_: {
        const UA_NodeId *v = p;
        if(!got0) { vf_assert(UA_NodeId_isNull(v), "no identifier: the null id"); break; }
        vf_assert(v->namespaceIndex == (idx ? vf_nsMap[idx - 1] : 0), "namespace index of the server");
        if(numericId) vf_assert(v->identifierType == UA_NODEIDTYPE_NUMERIC && v->identifier.numeric == num, "numeric identifier");
        else vf_assert(v->identifierType == UA_NODEIDTYPE_STRING && v->identifier.string.length == 2 && v->identifier.string.data[0] == (UA_Byte)x[0] && v->identifier.string.data[1] == (UA_Byte)x[1], "string identifier");
        break; }
    case GUID: {
        const UA_Guid *v = p;
        if(!got0) { vf_assert(v->data1 == 0 && v->data2 == 0 && v->data3 == 0 && v->data4[7] == 0, "the null Guid"); break; }
        vf_assert(v->data1 == 0x01020300u + (unsigned)(x[0] - '0') * 16 + (unsigned)(x[1] - '0') && v->data2 == 0x1112 && v->data3 == 0x2122 && v->data4[0] == 0x31 &&
                  v->data4[7] == (UA_Byte)((x[2] - '0') * 16 + x[3] - '0'), "the Guid");
        break; }
    case STATUS: vf_assert(*(const UA_StatusCode *)p == (got0 ? num : 0), "the status code"); break;
    case DATE: {
        if(shape || !have[0]) { vf_assert(*(const UA_DateTime *)p == 0, "no text: null"); break; }
        UA_DateTimeStruct d;
        memset(&d, 0, sizeof d);
        d.year = (UA_Int16)(2000 + (x[0] - '0') * 10 + x[1] - '0'); d.month = (UA_UInt16)(x[2] - '0' + 3); d.day = (UA_UInt16)(20 + x[3] - '0');
        d.hour = (UA_UInt16)(10 + x[4] - '0'); d.min = (UA_UInt16)(30 + x[5] - '0'); d.sec = (UA_UInt16)(50 + x[6] - '0');
        int f = have[0] - 1;   /* digits of fraction */
        d.milliSec = (UA_UInt16)(f >= 3 ? (x[7] - '0') * 100 + 23 : f == 1 ? (x[7] - '0') * 100 : 0);
        d.microSec = (UA_UInt16)(f >= 6 ? 456 : 0);
        d.nanoSec = (UA_UInt16)(f >= 7 ? 700 : 0);
        vf_assert(*(const UA_DateTime *)p == UA_DateTime_fromStruct(d), "the point in time");
        
        break; }
    default: break;
    }
    if(shape == 1) vf_witness("element instead of text");
    if(got0) vf_witness("a value");
}
void vf_main(void) {
    kind = vf_choose(KLO, KHI);
    form = vf_choose(0, 1);
    shape = vf_choose(0, kind == OTHER ? 1 : kind == DATE ? 1 : 3);
    for(int i = 0; i < 8; i++) x[i] = vf_int('0', '9');
    uris = 2;
    switch(kind) {
    case LT: case QN:
        have[0] = vf_choose(0, 2); have[1] = vf_choose(0, 2); swap = vf_choose(0, 1);
        idx = kind == QN ? (unsigned)vf_choose(0, 2) : 0;
        if(kind == LT) { t0[0] = (char)x[0]; t0[1] = 'n'; } else t0[0] = (char)('0' + idx);
        t1[0] = (char)x[1]; t1[1] = ' '; t1[2] = (char)x[2];
        break;
    case NID_:
        have[0] = vf_choose(0, 2);
        numericId = vf_choose(0, 1); idx = (unsigned)vf_choose(0, 2);
        snprintf(t0, sizeof t0, idx || !numericId ? "ns=%d;%c=" : "%.0d%c=", (int)idx, numericId ? 'i' : 's');
        { size_t n = strlen(t0); t0[n] = (char)x[0]; t0[n + 1] = (char)x[1]; }
        num = (unsigned)((x[0] - '0') * 10 + x[1] - '0');
        break;
    case GUID:
        have[0] = vf_choose(0, 2);
        strcpy(t0, "010203ab-1112-2122-3132-3334353637cd");
        t0[6] = (char)x[0]; t0[7] = (char)x[1]; t0[34] = (char)x[2]; t0[35] = (char)x[3];
        break;
    case STATUS:
        have[0] = vf_choose(0, 2);
        strcpy(t0, "2150000"); t0[7] = (char)x[0]; t0[8] = (char)x[1]; t0[9] = (char)x[2];
        num = 2150000000u + (unsigned)((x[0] - '0') * 100 + (x[1] - '0') * 10 + x[2] - '0');
        break;
    case DATE: {
        static const char *F[] = {"", ".0", 0, ".023", 0, 0, ".023456", ".0234567"};
        int f = vf_choose(-1, 7);
        if(f >= 0 && !F[f]) vf_end_path();
        have[0] = f + 1;
        int g = vf_choose(0, 3);               /* two symbolic digits at a time */
        for(int i = 0; i < 8; i++) if(i / 2 != g) x[i] = '1' + i % 3;
        strcpy(t0, "2000-00-20T10:30:50"); vf_assume(x[2] <= '6'); 
        t0[2] = (char)x[0]; t0[3] = (char)x[1]; t0[6] = (char)(x[2] + 3); t0[9] = (char)x[3]; t0[12] = (char)x[4]; t0[15] = (char)x[5]; t0[18] = (char)x[6];
        if(f > 0) { strcat(t0, F[f]); t0[20] = (char)x[7]; }
        strcat(t0, "Z");
        break; }
    default: {
        static const int O[] = {UA_TYPES_XMLELEMENT, UA_TYPES_EXPANDEDNODEID, UA_TYPES_DATAVALUE, UA_TYPES_VARIANT, UA_TYPES_DIAGNOSTICINFO};
        other = O[vf_choose(0, 4)]; have[0] = vf_choose(0, 1); strcpy(t0, "1"); }
    }
    vf_doc[0] = doc; vf_onAdd = onAdd;
    vf_assert(vf_load(0), "loads");
    vf_assert(seen == 1, "the variable is added once");
    bEnd();
}

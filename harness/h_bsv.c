/* Values of structures: every member that is written arrives in its place, every other one is zero. */
#include "bdoc.h"
enum { INT_, STR_, NESTED, ARR, ARRNEST, ENUM_, QN_, UNI, BYTE_, OPTARR, OPTINT, OPTSTR, OPTNEST, N_FORMS };
static const char *TYPE[] = {"i=6", "i=12", "ns=1;i=61", "i=6", "ns=1;i=61", "ns=1;i=62", "i=20", "ns=1;i=63", "i=3", "i=6", "i=6", "i=12", "ns=1;i=61"};
static int form[2], have[2], swap, list, base, cnt, d[2], e[2], sw;
static void field(const char *name, const char *type, int array, int opt) {
    S("Field", "Name", name, "DataType", type, "ValueRank", array ? swap ? "0" : "1" : "-1", "IsOptional", opt ? "true" : "false", END); E();
}
/* names that differ only by case or by their end */
static const char *name(int m) { static const char *N[2][2] = {{"Aa", "aA"}, {"A", "Aa"}}; return N[list][m]; }
static int isArr(int m) { return form[m] == ARR || form[m] == ARRNEST || form[m] == OPTARR; }
static void def(int m) { field(name(m), TYPE[form[m]], isArr(m), form[m] >= OPTARR); }
/* the fields of the union in all four rotations; which one is selected */
static int rot(int i) { return (i + list * 2 + swap) % 4; }
static int sel(void) { return sw >= 1 && sw <= 4 ? rot(sw - 1) + 1 : 0; }
static void unionField(int f) {
    switch(f) { case 0: field("i", "i=8", 0, 0); break; case 1: field("s", "i=12", 0, 0); break; case 2: field("n", "ns=1;i=61", 0, 0); break; default: field("a", "i=6", 1, 0); }
}
static char t1[4], t2[4], ts[4];
static void num(int m) { t1[0] = (char)d[m]; t1[1] = (char)e[m]; t1[2] = 0; T(t1); }
static void nested(int m) { S("y", END); num(m); E(); t2[0] = (char)e[m]; t2[1] = 0; EL("x", t2); }
static void member(int m) {
    if(!have[m]) return;
    S(name(m), END);
    if(have[m] == 1) switch(form[m]) {
    case INT_: case STR_: case BYTE_: case OPTINT: case OPTSTR: num(m); break;
    case NESTED: case OPTNEST: nested(m); break;
    case ARR: case OPTARR: for(int i = 0; i < cnt; i++) { S("Int32", END); num(m); E(); } break;
    case ARRNEST: for(int i = 0; i < cnt; i++) { S("T", END); nested(m); E(); } break;
    case ENUM_: { char s[8] = "A_b_0"; s[4] = (char)d[m]; T(s); break; }
    case QN_: EL("NamespaceIndex", "1"); S("Name", END); num(m); E(); break;
    case UNI: ts[0] = (char)('0' + sw); ts[1] = 0; EL("SwitchField", ts); if(sel() == 1) { S("i", END); num(m); E(); } else if(sel() == 2) { S("s", END); num(m); E(); } else if(sel() == 3) { S("n", END); nested(m); E(); }
        else if(sel() == 4) { S("a", END); for(int i = 0; i < 2; i++) { S("Int32", END); num(m); E(); } E(); } break;
    }
    E();
}
static void body(void) { if(swap) { member(1); member(0); } else { member(0); member(1); } }
static void doc(void) {
    docBegin(1);
    S("UADataType", "NodeId", "ns=1;i=61", "BrowseName", "1:T", END); parentRef("i=45", "i=22"); S("Definition", "Name", "T", END); field("x", "i=3", 0, 0); field("y", "i=8", 0, 0); field("z", "i=3", 0, 0); E(); E();
    S("UADataType", "NodeId", "ns=1;i=62", "BrowseName", "1:E", END); parentRef("i=45", "i=29"); E();
    S("UADataType", "NodeId", "ns=1;i=63", "BrowseName", "1:U", END); parentRef("i=45", "i=12756"); S("Definition", "Name", "U", "IsUnion", "true", END); for(int i = 0; i < 4; i++) unionField(rot(i)); E(); E();
    if(base) { S("UADataType", "NodeId", "ns=1;i=59", "BrowseName", "1:B", END); parentRef("i=45", "i=22"); S("Definition", "Name", "B", END); def(0); E(); E(); }
    S("UADataType", "NodeId", "ns=1;i=60", "BrowseName", "1:S", END); parentRef("i=45", base ? "ns=1;i=59" : "i=22"); S("Definition", "Name", "S", END); if(!base) def(0); def(1); E(); E();
    S("UAVariable", "NodeId", "ns=1;i=1", "BrowseName", "1:a", "DataType", "ns=1;i=60", "ValueRank", list ? "1" : "-1", END);
    parentRef("i=35", "i=85");
    S("Value", END);
    if(list) { S("ListOfExtensionObject", END); typeIdBody("ns=1;i=60", "S"); typeIdBodyEnd(); }
    typeIdBody("ns=1;i=60", "S"); body(); typeIdBodyEnd();
    if(list) E();
    E(); E(); E();
}
static int n2(int m) { return (d[m] - '0') * 10 + e[m] - '0'; }
static int isText(const UA_String *s, int m) { char t[2] = {(char)d[m], (char)e[m]}; return strIs(s, t, 2); }
static void checkNested(const char *p, const UA_DataType *t, int m, int got) {
    const UA_Byte x = *(const UA_Byte *)(p + t->members[0].padding);
    UA_Int64 y; memcpy(&y, p + t->members[0].padding + 1 + t->members[1].padding, 8);
    vf_assert(p[t->members[0].padding + 1 + t->members[1].padding + 8 + t->members[2].padding] == 0, "a member that is not written");
    vf_assert(x == (got ? e[m] - '0' : 0) && y == (got ? n2(m) : 0), "members of the nested structure");
}
static void check(int m, const char *p, const UA_DataTypeMember *tm, int got) {
    const UA_DataType *t = tm->memberType;
    switch(form[m]) {
    case INT_: vf_assert(*(const UA_Int32 *)p == (got ? n2(m) : 0), "number"); break;
    case BYTE_: vf_assert(*(const UA_Byte *)p == (got ? n2(m) : 0), "number"); break;
    case STR_: vf_assert(got ? isText((const UA_String *)p, m) : ((const UA_String *)p)->length == 0, "text"); break;
    case NESTED: checkNested(p, t, m, got); break;
    case ENUM_: vf_assert(*(const UA_Int32 *)p == (got ? d[m] - '0' : 0), "enumeration"); break;
    case QN_: { const UA_QualifiedName *q = (const UA_QualifiedName *)p; vf_assert(q->namespaceIndex == (got ? vf_nsMap[0] : 0) && (got ? isText(&q->name, m) : q->name.length == 0), "name"); break; }
    case ARR: case ARRNEST: case OPTARR: {
        size_t n = *(const size_t *)p; const char *a = *(const char *const *)(p + sizeof(size_t));
        vf_assert(n == (got ? (size_t)cnt : 0), "length of the array");
        for(size_t i = 0; i < n; i++) if(form[m] != ARRNEST) vf_assert(((const UA_Int32 *)a)[i] == n2(m), "elements of the array"); else checkNested(a + i * t->memSize, t, m, 1);
        if(n == 2) vf_witness("array in a structure");
        break; }
    case UNI: {
        UA_UInt32 s = *(const UA_UInt32 *)p;
        int valid = got && sw >= 1 && sw <= 4;
        vf_assert(s == (valid ? (UA_UInt32)sw : 0), "selected field");
        if(valid && sel() == 1) vf_assert(*(const UA_Int64 *)(p + t->members[sw - 1].padding) == n2(m), "field of the union");
        if(valid && sel() == 2) vf_assert(isText((const UA_String *)(p + t->members[sw - 1].padding), m), "field of the union");
        if(valid && sel() == 3) checkNested(p + t->members[sw - 1].padding, t->members[sw - 1].memberType, m, 1);
        if(valid && sel() == 4) {
            const char *f = p + t->members[sw - 1].padding;
            const UA_Int32 *a = *(const UA_Int32 *const *)(f + sizeof(size_t));
            vf_assert(*(const size_t *)f == 2 && a[0] == n2(m) && a[1] == n2(m), "array in the union");
        }
        break; }
    default: {
        const char *o = *(const char *const *)p;
        vf_assert((o != NULL) == (have[m] != 0 && got >= 0), "optional members are there if written");
        if(!o) break;
        if(form[m] == OPTINT) vf_assert(*(const UA_Int32 *)o == (got ? n2(m) : 0), "number");
        else if(form[m] == OPTSTR) vf_assert(got ? isText((const UA_String *)o, m) : ((const UA_String *)o)->length == 0, "text");
        else checkNested(o, t, m, got);
        }
    }
}
static int seen;
static void onAdd(const struct VfAdd *a) {
    if(a->cls != UA_NODECLASS_VARIABLE) return;
    seen++;
    const UA_VariableAttributes *at = a->attr;
    const UA_DataType *t = NodesetLoader_getCustomDataType(&vf_server, &at->dataType);
    vf_assert(t && at->value.type == t && at->value.arrayLength == (list ? 2u : 0u) && at->value.data, "a value of the variable's type");
    vf_assert(t->membersSize == 2, "two members");
    for(int k = 0; k <= list; k++) {
        const char *p = (const char *)at->value.data + (size_t)k * t->memSize;
        int here = k == list;
        for(int m = 0; m < 2; m++) {
            const UA_DataTypeMember *tm = &t->members[m];
            p += tm->padding;
            check(m, p, tm, here ? have[m] == 1 : -1 + (form[m] < OPTINT));
            p += tm->isArray ? sizeof(size_t) + sizeof(void *) : tm->isOptional ? sizeof(void *) : tm->memberType->memSize;
        }
    }
}
void vf_main(void) {
    static const int FORM[] = FORMS;
    form[0] = FORM[vf_choose(0, (int)(sizeof(FORM) / sizeof(int)) - 1)]; form[1] = FIRST < 0 ? vf_choose(0, N_FORMS - 1) : FIRST;
    have[0] = vf_choose(0, 2); have[1] = vf_choose(0, 2); swap = vf_choose(0, 1);
    if(swap && !(have[0] && have[1])) vf_end_path();
    list = vf_choose(0, 1); base = list;
    cnt = 0; sw = 0;
    if(isArr(0) || isArr(1)) cnt = vf_choose(1, 2);
    if(form[0] == UNI || form[1] == UNI) sw = vf_choose(0, 5);
    for(int i = 0; i < 2; i++) { d[i] = vf_int('0', '9'); e[i] = vf_int('0', '9'); }
    vf_doc[0] = doc; vf_onAdd = onAdd;
    vf_assert(vf_load(0), "loads");
    vf_assert(seen == 1, "the variable is added once");
    if(swap) vf_witness("members in another order");
    if(have[0] == 0 && have[1] == 1) vf_witness("an absent member in front of another");
    if(have[0] == 2) vf_witness("empty member");
    bEnd();
}

/* Boolean, String, Float, Double and missing text: what was written arrives, what was not is zero. */
#include "bdoc.h"
static const char *TYPE[] = {"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String"};
static const char *NUM[] = {"0", "-2", "1.5", "-0.25", "1e2", "12345678"};
static const double NUMV[] = {0, -2, 1.5, -0.25, 100, 12345678};
static int kind, form, num, len, c[LEN + 1], tf, empty;
static char text[16];
static void val(void) { S(TYPE[kind], END); if(empty == 0) T(text); else if(empty == 2) EL("X", "1"); E(); }
static void doc(void) {
    char dt[8];
    snprintf(dt, sizeof dt, "i=%d", kind + 1);
    docBegin(1);
    S("UAVariable", "NodeId", "ns=1;i=1", "BrowseName", "1:a", "DataType", dt, "ValueRank", form ? "1" : "-1", END);
    parentRef("i=35", "i=85");
    S("Value", END);
    if(form) { char l[16] = "ListOf"; strcat(l, TYPE[kind]); S(l, END); if(form == 1) { S(TYPE[kind], END); T("1"); E(); } val(); E(); }
    else val();
    E(); E(); E();
}
static int seen;
static void onAdd(const struct VfAdd *a) {
    const UA_VariableAttributes *at = a->attr;
    seen++;
    vf_assert(at->value.type == &UA_TYPES[kind] && at->value.data, "a value of the variable's type");
    vf_assert(at->value.arrayLength == (form == 0 ? 0u : form == 1 ? 2u : 1u), "as many elements as written");
    const char *p = (const char *)at->value.data + (form == 1 ? UA_TYPES[kind].memSize : 0);
    if(kind == 11) { const UA_String *s = (const UA_String *)p; vf_assert(empty ? s->length == 0 : strIs(s, text, (size_t)len), "the text"); if(!empty && len == LEN) vf_witness("text"); return; }
    if(empty) { for(size_t i = 0; i < UA_TYPES[kind].memSize; i++) vf_assert(p[i] == 0, "no text: zero"); vf_witness("no text"); return; }
    if(kind == 0) vf_assert(*(const UA_Boolean *)p == (tf == 0 || tf == 2), "true, 1, false and 0");
    if(kind == 9) vf_assert(*(const UA_Float *)p == (float)NUMV[num], "the Float");
    if(kind == 10) vf_assert(*(const UA_Double *)p == NUMV[num], "the Double");
}
void vf_main(void) {
    kind = vf_choose(0, 11);
    form = vf_choose(0, 2);
    empty = vf_choose(0, 2);
    if(!empty) switch(kind) {
    case 0: tf = vf_choose(0, 3); strcpy(text, tf == 0 ? "true" : tf == 1 ? "false" : tf == 2 ? "1" : "0"); break;
    case 9: case 10: num = vf_choose(0, 5); strcpy(text, NUM[num]); break;
    case 11: len = vf_choose(1, LEN); for(int i = 0; i < len; i++) { c[i] = vf_int(i ? 1 : 33, 255); text[i] = (char)c[i]; } break;
    default: vf_end_path();
    }
    vf_doc[0] = doc; vf_onAdd = onAdd;
    vf_assert(vf_load(0), "loads");
    vf_assert(seen == 1, "the variable is added once");
    bEnd();
}

/* Numbers in variable values: exactly the written value arrives at the server. */
#include "bdoc.h"
static int kind, nDig, dig[20], neg, form;
static char text[24];
static const char *TYPE[] = {"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64"};
/* leading digits: nothing, and what leads up to each power of two at which a narrower type or conversion ends */
static const char *LEAD[] = {"", "32", "65", "2147483", "4294967", "9007199254740", "9223372036854775", "18446744073709551"};
static unsigned long long mag;
static long long expect(void) { return neg ? (long long)(0ULL - mag) : (long long)mag; }
static void val(void) { S(TYPE[kind], END); T(text); E(); }
static void doc(void) {
    char dt[8] = "i=1"; dt[2] = (char)('1' + kind);
    docBegin(1);
    S("UAVariable", "NodeId", "ns=1;i=1", "BrowseName", "1:a", "DataType", dt, "ValueRank", form == 1 ? "1" : "-1", END);
    parentRef("i=35", "i=85");
    S("Value", END);
    if(form == 1) { char l[16] = "ListOf"; strcat(l, TYPE[kind]); S(l, END); S(TYPE[kind], END); T("1"); E(); val(); E(); }
    else val();
    E(); E(); E();
}
static int seen;
static void onAdd(const struct VfAdd *a) {
    const UA_VariableAttributes *at = a->attr;
    seen++;
    vf_assert(at->value.type == &UA_TYPES[kind], "value has the variable's data type");
    vf_assert(at->value.arrayLength == (form ? 2u : 0u) && at->value.data != NULL, "scalar or array as written");
    const char *p = (const char *)at->value.data + (form ? UA_TYPES[kind].memSize : 0);
    long long v;
    switch(kind) {
    case 1: v = *(const UA_SByte *)p; break; case 2: v = *(const UA_Byte *)p; break;
    case 3: v = *(const UA_Int16 *)p; break; case 4: v = *(const UA_UInt16 *)p; break;
    case 5: v = *(const UA_Int32 *)p; break; case 6: v = *(const UA_UInt32 *)p; break;
    default: v = *(const UA_Int64 *)p;
    }
    vf_assert(v == expect(), "the number that was written");
}
void vf_main(void) {
    kind = vf_choose(1, 8);
    form = vf_choose(0, 1);
    int lead = vf_choose(0, UA_TYPES[kind].memSize == 1 ? 0 : UA_TYPES[kind].memSize == 2 ? 2 : UA_TYPES[kind].memSize == 4 ? 4 : 7);
    nDig = lead ? 3 : vf_choose(1, ND);
    neg = (kind & 1) ? vf_choose(0, 1) : 0;
    if(lead == 7 && kind == 7) vf_end_path();
    int n = 0;
    if(neg) text[n++] = '-';
    for(const char *l = LEAD[lead]; *l; l++) { text[n++] = *l; mag = mag * 10 + (unsigned)(*l - '0'); }
    unsigned low = 0, scale = 1;
    for(int i = 0; i < nDig; i++) { dig[i] = vf_int('0', '9'); text[n++] = (char)dig[i]; low = low * 10 + (unsigned)(dig[i] - '0'); scale *= 10; }
    unsigned bits = UA_TYPES[kind].memSize * 8;
    unsigned long long max = kind & 1 ? (1ULL << (bits - 1)) - (neg ? 0 : 1) : bits < 64 ? (1ULL << bits) - 1 : ~0ULL;
    mag = mag * scale;
    if(mag > max) vf_end_path();
    vf_assume(low <= (max - mag > 99999 ? 99999 : max - mag));
    mag += low;
    vf_doc[0] = doc; vf_onAdd = onAdd;
    vf_assert(vf_load(0), "loads");
    vf_assert(seen == 1, "the variable is added once");
    if(kind == 8) vf_witness("UInt64");
    if(neg) vf_witness("negative");
    bEnd();
}

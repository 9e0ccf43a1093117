/* ByteString values: base64 text becomes the bytes it encodes, anything else the null ByteString. */
#include "bdoc.h"
static int len, ch[16], form;
static char text[17];
#define IN(c, a, b) VF_AND((c) >= (a), (c) <= (b))
static void val(void) { S("ByteString", END); if(len) TN(text, (size_t)len); E(); }
static void doc(void) {
    docBegin(1);
    S("UAVariable", "NodeId", "ns=1;i=1", "BrowseName", "1:a", "DataType", "i=15", "ValueRank", form == 1 ? "1" : "-1", END);
    parentRef("i=35", "i=85");
    S("Value", END);
    if(form == 1) { S("ListOfByteString", END); EL("ByteString", "AAAA"); val(); E(); }
    else val();
    E(); E(); E();
}
static int seen;
static void onAdd(const struct VfAdd *a) {
    const UA_VariableAttributes *at = a->attr;
    seen++;
    vf_assert(at->value.type == &UA_TYPES[UA_TYPES_BYTESTRING] && at->value.arrayLength == (form ? 2u : 0u) && at->value.data, "a ByteString");
    const UA_ByteString *s = (const UA_ByteString *)at->value.data + (form ? 1 : 0);
    /* what the text encodes */
    int c[16], n = 0, bad = 0, pads = 0;
    for(int i = 0; i < len; i++) if(!VF_OR(ch[i] == ' ', IN(ch[i], 9, 13))) c[n++] = ch[i];
    unsigned v[16];
    for(int i = 0; i < n; i++) {
        unsigned u = (unsigned)c[i];
        int up = IN(c[i], 'A', 'Z'), lo = IN(c[i], 'a', 'z'), di = IN(c[i], '0', '9'), pl = c[i] == '+', sl = c[i] == '/', eq = c[i] == '=';
        v[i] = ((u - 'A') & -(unsigned)up) | ((u - 'a' + 26) & -(unsigned)lo) | ((u - '0' + 52) & -(unsigned)di) | (62u & -(unsigned)pl) | (63u & -(unsigned)sl);
        bad |= !(up | lo | di | pl | sl | eq);
        bad |= VF_AND(eq, i < n - 2);
        if(i == n - 2) bad |= VF_AND(eq, c[n - 1] != '=');
        pads += eq;
    }
    bad |= n % 4 != 0;
    if(bad || n == 0) { vf_assert(s->length == 0, "no base64: the null ByteString"); vf_witness("malformed"); return; }
    vf_assert((int)s->length == n / 4 * 3 - pads, "as many bytes as the text encodes");
    for(int g = 0; g < n / 4; g++) {
        unsigned w = v[4 * g] << 18 | v[4 * g + 1] << 12 | v[4 * g + 2] << 6 | v[4 * g + 3];
        for(int k = 0; k < 3; k++) if(3 * g + k < (int)s->length) vf_assert(s->data[3 * g + k] == (UA_Byte)(w >> (16 - 8 * k)), "the encoded bytes");
    }
    if(pads == 2) vf_witness("two pads");
    if(n == 8) vf_witness("two groups");
}
void vf_main(void) {
#ifdef STRICT
    static const int L[] = {4, 7, 8, 12};
    len = L[vf_choose(0, LEN)];
#else
    form = vf_choose(0, 1);
    len = vf_choose(0, LEN);
#endif
#ifdef STRICT   /* base64 text of one class of characters, 0..2 pads, one arbitrary byte anywhere */
    int cls = vf_choose(0, 2), any = vf_choose(0, len - 1), pads = vf_choose(0, 2);
    for(int i = 0; i < len; i++) {
        if(i == any) { ch[i] = vf_int(1, 255); vf_assume(VF_OR(ch[i] >= 32, IN(ch[i], 9, 13))); }
        else if(i >= len - pads) ch[i] = '=';
        else ch[i] = cls == 0 ? vf_int('A', 'Z') : cls == 1 ? vf_int('a', 'z') : vf_int('0', '9');
        text[i] = (char)ch[i];
    }
#else
    for(int i = 0; i < len; i++) {
        ch[i] = vf_int(1, 255);
        vf_assume(VF_OR(ch[i] >= 32, IN(ch[i], 9, 13)));
        text[i] = (char)ch[i];
    }
    vf_witness("two pads"); vf_witness("two groups");
#endif
    vf_doc[0] = doc; vf_onAdd = onAdd;
    vf_assert(vf_load(0), "loads");
    vf_assert(seen == 1, "the variable is added once");
    bEnd();
}

/* Loading any nodeset into a server is memory safe and ends: a complete document with one change at any element, text or attribute. */
#include "bdoc.h"
struct Nd { const char *name, *text; struct Nd *kid, *last, *next; const char *kv[24]; int n, dup; };
static struct Nd pool[160];
static int nPool;
static struct Nd *nd(struct Nd *p, const char *name, const char *text) {
    struct Nd *x = &pool[nPool++];
    x->name = name; x->text = text;
    if(p) { if(p->last) p->last->next = x; else p->kid = x; p->last = x; }
    return x;
}
static struct Nd *at(struct Nd *x, const char *k, const char *v) { x->kv[2 * x->n] = k; x->kv[2 * x->n++ + 1] = v; return x; }
static void emit(const struct Nd *x) {
    const char *kv[24];
    for(int i = 0; i < 2 * x->n; i++) kv[i] = x->kv[i];
    for(int k = 0; k <= x->dup; k++) {
        SA(x->name, x->n, kv);
        if(x->text) T(x->text);
        for(const struct Nd *c = x->kid; c; c = c->next) emit(c);
        E();
    }
}
static struct Nd *root;
static int nTypes, whole;
static struct Nd *node(const char *cl, const char *id, const char *name) { return at(at(nd(root, cl, NULL), "NodeId", id), "BrowseName", name); }
static void rf(struct Nd *r, const char *type, const char *fwd, const char *target) { at(at(nd(r, "Reference", target), "ReferenceType", type), "IsForward", fwd); }
static struct Nd *refs(struct Nd *x, const char *type, const char *target) { struct Nd *r = nd(x, "References", NULL); rf(r, type, "false", target); return r; }
static struct Nd *field(struct Nd *d, const char *name, const char *type) { return at(at(nd(d, "Field", NULL), "Name", name), "DataType", type); }
static void types(void) {
    struct Nd *x, *d;
    x = node("UAReferenceType", "ns=1;i=10", "1:R"); refs(x, "HasSubtype", "i=35");
    x = node("UADataType", "ns=1;i=11", "1:E"); refs(x, "HasSubtype", "i=29"); d = at(nd(x, "Definition", NULL), "Name", "E"); at(at(nd(d, "Field", NULL), "Name", "A"), "Value", "0"); at(at(nd(d, "Field", NULL), "Name", "B"), "Value", "1");
    x = node("UADataType", "ns=1;i=12", "1:S"); refs(x, "HasSubtype", "i=22"); d = at(nd(x, "Definition", NULL), "Name", "S"); field(d, "a", "i=12"); at(field(d, "b", "ns=1;i=11"), "ValueRank", "1"); at(field(d, "c", "i=6"), "IsOptional", "true");
    if(PART == 1) return;
    x = node("UADataType", "ns=1;i=13", "1:T"); d = refs(x, "HasSubtype", "ns=1;i=12"); rf(d, "HasEncoding", "true", "ns=1;i=15"); d = at(nd(x, "Definition", NULL), "Name", "T"); field(d, "d", "ns=1;i=14");
    x = node("UADataType", "ns=1;i=14", "1:U"); refs(x, "HasSubtype", "i=12756"); d = at(at(nd(x, "Definition", NULL), "Name", "U"), "IsUnion", "true"); field(d, "x", "i=12"); field(d, "y", "i=6");
    x = node("UAObject", "ns=1;i=15", "Default Binary"); d = refs(x, "i=38", "ns=1;i=13"); rf(d, "HasTypeDefinition", "true", "i=76");
}
static void instances(void) {
    struct Nd *x, *d, *v;
    x = node("UAObjectType", "ns=1;i=20", "1:OT"); at(x, "IsAbstract", "true"); refs(x, "HasSubtype", "i=58");
    x = node("UAVariableType", "ns=1;i=21", "1:VT"); at(at(at(x, "DataType", "ns=1;i=12"), "ValueRank", "-1"), "ArrayDimensions", ""); refs(x, "HasSubtype", "i=63");
    x = node("UAObject", "ns=1;i=22", "1:O"); at(at(x, "ParentNodeId", "i=85"), "EventNotifier", "1"); at(nd(x, "DisplayName", "o"), "Locale", "en"); nd(x, "Description", "about"); d = refs(x, "Organizes", "i=85"); rf(d, "HasTypeDefinition", "true", "ns=1;i=20"); rf(d, "ns=1;i=10", "true", "ns=1;i=23");
    x = node("UAVariable", "ns=1;i=23", "1:V"); at(at(at(at(at(at(at(at(x, "ParentNodeId", "ns=1;i=22"), "DataType", "ns=1;i=12"), "ValueRank", "1"), "ArrayDimensions", "1,2,3"), "AccessLevel", "3"), "UserAccessLevel", "3"), "MinimumSamplingInterval", "100"), "Historizing", "true");
    d = refs(x, "i=47", "ns=1;i=22"); rf(d, "HasTypeDefinition", "true", "ns=1;i=21");
    v = nd(nd(x, "Value", NULL), "ListOfExtensionObject", NULL); v = nd(v, "ExtensionObject", NULL); nd(nd(v, "TypeId", NULL), "Identifier", "ns=1;i=16"); v = nd(nd(v, "Body", NULL), "S", NULL); nd(v, "a", "text"); nd(nd(v, "b", NULL), "E", "A_0");
    x = node("UAVariable", "ns=1;i=26", "1:L"); at(at(x, "DataType", "i=6"), "ValueRank", "-2"); refs(x, "i=47", "ns=1;i=22"); v = nd(nd(x, "Value", NULL), "ListOfInt32", NULL); nd(v, "Int32", "7");
    x = node("UAMethod", "ns=1;i=24", "1:M"); at(at(at(x, "ParentNodeId", "ns=1;i=22"), "Executable", "true"), "UserExecutable", "false"); refs(x, "HasComponent", "ns=1;i=22");
    x = node("UAView", "ns=1;i=25", "1:W"); at(at(x, "EventNotifier", "1"), "ContainsNoLoops", "true"); refs(x, "Organizes", "i=87");
}
static void build(void) {
    struct Nd *x;
    root = nd(NULL, "UANodeSet", NULL);
    x = nd(root, "NamespaceUris", NULL); nd(x, "Uri", "urn:a");
    x = nd(root, "Aliases", NULL);
    at(nd(x, "Alias", "i=45"), "Alias", "HasSubtype"); at(nd(x, "Alias", "i=40"), "Alias", "HasTypeDefinition"); at(nd(x, "Alias", "i=35"), "Alias", "Organizes"); at(nd(x, "Alias", "i=47"), "Alias", "HasComponent"); at(nd(x, "Alias", "i=38"), "Alias", "HasEncoding");
    types(); nTypes = nPool; if(PART) instances();
}
static void doc(void) { emit(root); }
static const char *const NAME[] = {"UAVariable", "UADataType", "References", "Value", "Definition", "Field"};
static const char *const ID[] = {"ns=1;i=12", "ns=1;i=13", "ns=1;i=22", "i=45", "i=47", "i=22", "ns=2;i=7", "ns=1;s=x", "-1", "4294967296", "ns=1", "true", ",,,,"};
static char bytes[4];
static const char *anyText(void) {
    if(vf_choose(0, 1)) return ID[vf_choose(0, (int)(sizeof ID / sizeof *ID) - 1)];
    int n = vf_choose(0, BYTES);
    for(int i = 0; i < n; i++) { bytes[i] = (char)vf_int(1, 255); vf_assume(VF_OR((unsigned char)bytes[i] >= 32, VF_OR(bytes[i] == 9, bytes[i] == 10))); }
    vf_witness("arbitrary text");
    return bytes;
}
void vf_main(void) {
    build();
    /* in this run the types are only there to be used */
    struct Nd *x = &pool[vf_choose(0, nPool - 1)];
    if(PART == 1 && x > pool && x < pool + nTypes) vf_end_path();
    int what = x == root ? vf_choose(1, 5) : vf_choose(0, 4);
    switch(what) {
    case 5: whole = 1; break;
    case 0: for(int i = 0; i < nPool; i++) { struct Nd *q = &pool[i]; if(q->kid == x) q->kid = x->next; else if(q->next == x) q->next = x->next; } break;
    case 1: if(x == root) vf_end_path(); x->dup = 1; break;
    case 2: x->name = NAME[vf_choose(0, (int)(sizeof NAME / sizeof *NAME) - 1)]; break;
    case 3: x->text = anyText(); break;
    default: {
        if(!x->n) vf_end_path();
        int k = vf_choose(0, x->n - 1);
        if(vf_choose(0, 1)) x->kv[2 * k + 1] = anyText();
        else { x->n--; x->kv[2 * k] = x->kv[2 * x->n]; x->kv[2 * k + 1] = x->kv[2 * x->n + 1]; }
    }
    }
    vf_doc[0] = doc;
    bool ok = vf_load(0);
    if(ok) vf_witness("loaded"); else vf_witness("refused");
    if(whole) { vf_assert(ok && vf_nSrv == (PART == 0 ? 6 : PART == 1 ? 10 : 13), "the unchanged document loads"); vf_witness("whole"); }
    bTypesUsable();
    bEnd();
}

/* Whatever the XML of a value looks like: the file loads, the variable is there, nothing is leaked or corrupted.
   A well-formed value with one change at any of its elements. */
#include "bdoc.h"
#if WHICH == 3
#define TEXTS (void)0
#else
#define TEXTS vf_witness("arbitrary text")
#endif
struct Nd { const char *name, *text, *tail; struct Nd *kid, *last, *next; int dup; };
static struct Nd pool[200];
static int nPool, nBase;
static struct Nd *mk(const char *name, const char *text) { struct Nd *x = &pool[nPool++]; x->name = name; x->text = text; return x; }
static struct Nd *nd(struct Nd *p, const char *name, const char *text) {
    struct Nd *x = mk(name, text);
    if(p->last) p->last->next = x; else p->kid = x;
    p->last = x;
    return x;
}
enum { NONE, DROP, DUP, TEXT, CHILD, EMPTY, EXTRA, MIXED, SIBLING, RENAME, BYTES, N_MUT };
static const char *NAME[] = {"a", "b", "n", "o", "u", "l", "Text", "Zz"};
static const char *tns = "ns=1;i=60";
static int which, list, st;   /* which structure or 2: a built-in type, 3: a value of any type for any data type */
static void field(const char *name, const char *type, int array, int opt) {
    S("Field", "Name", name, "DataType", type, "ValueRank", array ? "1" : "-1", "IsOptional", opt ? "true" : "false", END); E();
}
static void typeBegin(const char *id, const char *name, const char *super) { S("UADataType", "NodeId", id, "BrowseName", name, END); parentRef("i=45", super); S("Definition", "Name", name, END); }
static void emit(const struct Nd *x) {
    for(int k = 0; k <= x->dup; k++) {
        S(x->name, END);
        if(x->text) T(x->text);
        for(const struct Nd *c = x->kid; c; c = c->next) emit(c);
        if(x->tail) T(x->tail);
        E();
    }
}
static struct Nd root;
/* the elements of a member of type T */
static void t(struct Nd *p) {
    nd(p, "s", "AB");
    struct Nd *a = nd(p, "l", NULL); nd(a, "String", "C"); nd(a, "String", "D");
    nd(p, "b", "QUI=");
    struct Nd *l = nd(p, "c", NULL); nd(l, "Text", "E");
}
static void structure(struct Nd *p) {
    struct Nd *x;
    x = nd(p, "a", NULL); nd(x, "Int32", "1"); nd(x, "Int32", "2");
    x = nd(p, "l", NULL); nd(x, "String", "F"); nd(x, "String", "G");
    x = nd(p, "b", NULL); t(nd(x, "T", NULL)); t(nd(x, "T", NULL));
    x = nd(p, "n", NULL); t(x);
    x = nd(p, "o", NULL); t(x);
    nd(p, "s", "H");
    x = nd(p, "u", NULL); nd(x, "SwitchField", "1"); struct Nd *y = nd(x, "l", NULL); nd(y, "String", "I"); nd(y, "String", "J");
    x = nd(p, "c", NULL); nd(nd(x, "ByteString", NULL), "b", NULL); nd(x, "ByteString", "QQ==");
}
static void others(struct Nd *p) {
    struct Nd *x;
    x = nd(p, "a", NULL); nd(x, "Locale", "en"); nd(x, "Text", "K");
    x = nd(p, "l", NULL); struct Nd *y = nd(x, "QualifiedName", NULL); nd(y, "NamespaceIndex", "1"); nd(y, "Name", "L"); y = nd(x, "QualifiedName", NULL); nd(y, "Name", "M");
    x = nd(p, "b", NULL); nd(x, "Identifier", "ns=1;s=N");
    x = nd(p, "n", NULL); y = nd(x, "NodeId", NULL); nd(y, "Identifier", "ns=1;s=O"); y = nd(x, "NodeId", NULL); nd(y, "Identifier", "i=7");
    x = nd(p, "o", NULL); nd(x, "Text", "P");
    nd(p, "s", "Qq_1");
    x = nd(p, "u", NULL); nd(x, "SwitchField", "2"); y = nd(x, "n", NULL); t(y);
    x = nd(p, "c", NULL); nd(x, "String", "72962B91-FA75-4AE6-8D28-B404DC7DAF63");
}
/* values of built-in types */
static const char *const BT[][2] = {{"i=6", "Int32"}, {"i=12", "String"}, {"i=15", "ByteString"}, {"i=17", "NodeId"}, {"i=20", "QualifiedName"}, {"i=21", "LocalizedText"}, {"i=14", "Guid"}, {"i=19", "StatusCode"}};
enum { N_BT = (int)(sizeof BT / sizeof *BT) };
static int bt;
static void builtin(struct Nd *p) {
    struct Nd *x = nd(p, BT[bt][1], NULL);
    switch(bt) {
    case 0: x->text = "1"; break;
    case 1: x->text = "A"; break;
    case 2: x->text = "QUI="; break;
    case 3: nd(x, "Identifier", "ns=1;s=N"); break;
    case 4: nd(x, "NamespaceIndex", "1"); nd(x, "Name", "L"); break;
    case 5: nd(x, "Locale", "en"); nd(x, "Text", "K"); break;
    case 6: nd(x, "String", "72962B91-FA75-4AE6-8D28-B404DC7DAF63"); break;
    default: nd(x, "Code", "5");
    }
}
static struct Nd *body(struct Nd *p, const char *name, int other) {
    struct Nd *e = nd(p, "ExtensionObject", NULL);
    nd(nd(e, "TypeId", NULL), "Identifier", "ns=1;i=60");
    struct Nd *b = nd(nd(e, "Body", NULL), name, NULL);
    if(other) others(b); else structure(b);
    return b;
}
static void value(struct Nd *p, int v) { if(v == 1) builtin(p); else if(v) nd(p, "Int32", "Red_2"); else body(p, "S", st); }
static const char *dt;
static int rank;
static const char *const DT_[] = {"ns=1;i=60", "ns=1;i=61", "ns=1;i=62", "ns=1;i=63", "i=22", "i=24", "i=26", "i=29", "ns=1;i=99", "bad", "i=13", "i=1", NULL};
enum { N_DT = (int)(sizeof DT_ / sizeof *DT_) };
static void doc(void) {
    docBegin(1);
    typeBegin("ns=1;i=61", "1:T", "i=22"); field("s", "i=12", 0, 0); field("l", "i=12", 1, 0); field("b", "i=15", 0, 0); field("c", "i=21", 0, 0); E(); E();
    S("UADataType", "NodeId", "ns=1;i=62", "BrowseName", "1:E", END); parentRef("i=45", "i=29"); E();
    S("UADataType", "NodeId", "ns=1;i=63", "BrowseName", "1:U", END); parentRef("i=45", "i=12756"); S("Definition", "Name", "U", "IsUnion", "true", END); field("l", "i=12", 1, 0); field("n", "ns=1;i=61", 0, 0); field("b", "i=6", 0, 0); E(); E();
    typeBegin("ns=1;i=60", "1:S", "i=22");
    if(st) { field("a", "i=21", 0, 0); field("l", "i=20", 1, 0); field("b", "i=17", 0, 0); field("n", "i=17", 1, 0); field("o", "i=21", 0, 1); field("s", "ns=1;i=62", 0, 0); field("u", "ns=1;i=63", 0, 0); field("c", "i=14", 0, 0); }
    else { field("a", "i=6", 1, 0); field("l", "i=12", 1, 0); field("b", "ns=1;i=61", 1, 0); field("n", "ns=1;i=61", 0, 0); field("o", "ns=1;i=61", 0, 1); field("s", "i=12", 0, 1); field("u", "ns=1;i=63", 0, 0); field("c", "i=15", 1, 0); }
    E(); E();
    S("UAVariable", "NodeId", "ns=1;i=1", "BrowseName", "1:a", "ValueRank", list || rank ? "1" : "-1", dt ? "DataType" : "SymbolicName", dt ? dt : "x", END);
    parentRef("i=35", "i=85");
    emit(&root);
    E();
    S("UAVariable", "NodeId", "ns=1;i=2", "BrowseName", "1:b", "DataType", "i=6", END); parentRef("i=35", "i=85"); S("Value", END); EL("Int32", "5"); E(); E();
    E();
}
static int seen, after;
static void onAdd(const struct VfAdd *a) {
    if(a->cls != UA_NODECLASS_VARIABLE) return;
    const UA_VariableAttributes *at = a->attr;
    if(vf_isNum(a->id, vf_nsMap[0], 1)) { seen++; if(at->value.type) { vf_assert(at->value.data || !at->value.arrayLength, "a value has content"); vf_witness("value"); } }
    else { after++; vf_assert(at->value.type == &UA_TYPES[UA_TYPES_INT32] && *(const UA_Int32 *)at->value.data == 5, "the next value is as written"); }
}
void vf_main(void) {
    static char text[4];
    which = WHICH >= 0 ? WHICH : vf_choose(0, 1); list = which >= 2 ? vf_choose(0, 1) : LISTS;
    int v = which == 3 ? vf_choose(0, 2) : which == 2;   /* 0: a structure, 1: a built-in type, 2: an enumeration */
    bt = v == 1 ? vf_choose(0, N_BT - 1) : 0;
    dt = which == 2 ? BT[bt][0] : tns;
    if(which == 3) { int d = vf_choose(0, N_BT + N_DT - 1); dt = d < N_BT ? BT[d][0] : DT_[d - N_BT]; rank = vf_choose(0, 1); }
    st = which < 2 ? which : which == 3 && (!v || dt == DT_[0]) ? vf_choose(0, 1) : 0;
    root.name = "Value";
    struct Nd *p = &root;
    if(list) { static char l[40]; strcpy(l, "ListOf"); strcat(l, v == 1 ? BT[bt][1] : v ? "Int32" : "ExtensionObject"); p = nd(p, l, NULL); }
    value(p, v);
    nBase = nPool;
    if(list) { value(p, v); }
    int m = which == 3 ? NONE : vf_choose(NONE, N_MUT - 1), at = m ? vf_choose(-1, nBase - 1) : -1;
    struct Nd *x = at < 0 ? &root : &pool[at];
    if(at < 0 && (m == DROP || m == DUP || m == RENAME || m == SIBLING)) vf_end_path();
    switch(m) {
    case DROP: for(int i = -1; i < nPool; i++) { struct Nd *q = i < 0 ? &root : &pool[i]; if(q->kid == x) q->kid = x->next; else if(q->next == x) q->next = x->next; } break;
    case DUP: x->dup = 1; break;
    case TEXT: if(x->text) vf_end_path(); x->kid = NULL; x->text = "R"; break;
    case CHILD: { if(!x->text) vf_end_path(); x->text = NULL; nd(x, "x", "1"); break; }
    case EMPTY: if(!x->kid && !x->text) vf_end_path(); x->kid = NULL; x->text = NULL; break;
    case EXTRA: if(x->text) vf_end_path(); nd(x, which == 2 ? BT[vf_choose(0, 1) * 5][1] : "Zz", "1"); break;
    case MIXED: if(x->text) nd(x, "Zz", "1"); else { x->text = "R"; x->tail = "R"; } break;
    case SIBLING: { struct Nd *y = mk(which == 2 ? BT[vf_choose(0, 1) * 5][1] : "Zz", "1"); y->next = x->next; x->next = y; break; }
    case RENAME: x->name = NAME[vf_choose(0, (int)(sizeof(NAME) / sizeof(*NAME)) - 1)]; break;
    case BYTES: if(!x->text) vf_end_path(); for(int i = 0; i < 2; i++) { text[i] = (char)vf_int(1, 255); vf_assume(VF_OR((unsigned char)text[i] >= 32, VF_OR(text[i] == 9, text[i] == 10))); } x->text = text; TEXTS; break;
    }
    vf_doc[0] = doc; vf_onAdd = onAdd;
    vf_assert(vf_load(0), "the file is loaded");
    vf_assert(seen == 1 && after == 1, "the variables are added once");
    bEnd();
}

/* The demo program prints every node of its files once, with its own data.
   FIND 0: everything but the known findings; 1..4: the inputs of one of them. */
#include "doc.h"
int demo_main(int argc, char **argv);
extern int vf_printIds;
enum { OBJ, VAR, METHOD, VIEW, OBJT, VART, DATAT, REFT, N_CLS };
static const char *EL_[] = {"UAObject", "UAVariable", "UAMethod", "UAView", "UAObjectType", "UAVariableType", "UADataType", "UAReferenceType"};
static int other, cls, same, swap, files, bad, strId, longId, ext, dims, file, more;
static char bn[2][3], dn[2][3], num[4], rank[3], dimText[8], ms[4];
static char lid[304];
static const char *idText(int f) { return strId ? longId ? lid : "s=Name" : f && same == 1 ? "i=60" : "i=6"; }
static const char *cat(char *b, int ns, const char *t) { strcpy(b, "ns=0;"); b[3] = (char)('0' + ns); strcpy(b + 5, t); return b; }
/* index in the file of the Uri that belongs to file f's own nodes */
static int own(int f) { return f == 0 && swap ? 2 : 1; }
static void doc(void) {
    static char b[400], c[16];
    int f = file;
    S("UANodeSet", END);
    S("NamespaceUris", END);
    if(f == 0) { EL("Uri", swap ? "urn:b" : "urn:a"); EL("Uri", swap ? "urn:a" : "urn:b"); } else EL("Uri", same ? "urn:a" : "urn:c");
    E();
    if(bad == 1 && f == files - 1) { S("UAObject", "NodeId", "ns=1;i=8", "BrowseName", "1:x", END); S("References", END); ref("ns=1;i=99", 1, "i=78"); E(); E(); }
    if(bad == 2 && f == files - 1) { S("UAObject", "NodeId", "ns=1;i=8", "BrowseName", "1:x", END); S("References", END); ref("i=47", 0, "ns=1;i=9"); E(); E(); S("UAObject", "NodeId", "ns=1;i=9", "BrowseName", "1:y", END); S("References", END); ref("i=47", 0, "ns=1;i=8"); E(); E(); }
    int k = f ? OBJ : cls;
    const char *a[24]; int n = 0;
    a[n++] = "NodeId"; a[n++] = cat(b, own(f), idText(f)); a[n++] = "BrowseName"; a[n++] = bn[f];
    if(f == 0) {
        if(k == OBJ) { a[n++] = "EventNotifier"; a[n++] = num; }
        if(k == VAR) { a[n++] = "DataType"; a[n++] = cat(c, other, "i=7"); a[n++] = "ValueRank"; a[n++] = rank; if(dims) { a[n++] = "ArrayDimensions"; a[n++] = dimText; } a[n++] = "MinimumSamplingInterval"; a[n++] = ms; }
        if(k == OBJ || k == VAR) { a[n++] = "ParentNodeId"; a[n++] = "i=85"; }
    }
    SA(EL_[k], n / 2, a);
    EL("DisplayName", dn[f]);
    S("References", END); ref(k < OBJT ? "i=47" : "i=45", 0, k < OBJT ? "i=85" : "i=58"); ref("i=37", 1, f ? "i=80" : other == 2 ? "ns=2;i=78" : "ns=1;i=78");
    if(more) { ref("i=37", 1, "i=79"); ref("i=35", 0, "i=86"); }
    E();
    if(ext && f == 0) { S("Extensions", END); S("Extension", END); EL("x", "y"); E(); E(); }
    E();
    E();
}
static void doc0(void) { file = 0; doc(); }
static void doc1(void) { file = 1; doc(); }
/* next line at or behind from that starts with t, -1 if there is none */
static int find(const char *t, int from, int to) {
    int n = (int)strlen(t);
    for(int i = from; i + n <= to; i++) {
        if(i && vf_out[i - 1] != '\n') continue;
        int eq = 1;
        for(int k = 0; k < n; k++) eq = VF_AND(eq, vf_out[i + k] == t[k]);
        if(eq) return i;
    }
    return -1;
}
static int count(const char *t) { int n = 0; for(int i = 0; (i = find(t, i, (int)vf_outLen)) >= 0; i++) n++; return n; }
static char *line(char *b, const char *a, const char *x, const char *c) { strcpy(b, a); strcat(b, x); strcat(b, c); return b; }
static void inNode(int at, int end, const char *a, const char *x, const char *c, const char *what) { static char b[700]; vf_assert(find(line(b, a, x, c), at, end) >= 0, what); }
void vf_main(void) {
    cls = FIND == 0 ? vf_choose(0, N_CLS - 1) : FIND == 2 ? VAR : OBJ; files = FIND == 0 ? vf_choose(1, 2) : FIND == 3 ? 2 : 1;
    bad = FIND == 0 ? vf_choose(0, 2) : 0; if(bad) bad += 2;   /* not: nodes that cannot be sorted */
    if(FIND == 4) bad = vf_choose(1, 2);
    strId = FIND == 0 && files == 1 ? vf_choose(0, 1) : 0; longId = strId ? vf_choose(0, 5) : 0;
    swap = FIND == 3 ? vf_choose(0, 1) : 0; same = FIND != 3; other = FIND == 3 ? 2 : 1;   /* one namespace, but for finding 3 */
    ext = FIND == 1; more = vf_choose(0, 1); dims = FIND == 2;
    memset(lid, 'x', 302); memcpy(lid, "s=", 2); if(longId) lid[longId < 5 ? 248 + longId : 259] = 0;   /* printed with 254 to 257 and 264 characters */
    for(int f = 0; f < 2; f++) for(int k = 0; k < 2; k++) { bn[f][k] = (char)vf_int('a', 'y'); dn[f][k] = (char)vf_int('A', 'Z'); }
    for(int k = 0; k < 3; k++) num[k] = (char)vf_int('1', '9');
    num[3] = 0; strcpy(rank, "3"); rank[0] = (char)vf_int('1', '9'); strcpy(dimText, "4,5"); dimText[0] = (char)vf_int('1', '9'); strcpy(ms, "100"); ms[0] = (char)vf_int('1', '9');
    vf_doc[0] = doc0; vf_doc[1] = doc1;
    vf_docResult[files - 1] = bad == 3 ? 1 : 0;
    vf_printIds = 1;
    char a0[] = "demo", a1[] = "0", a2[] = "1", a3[] = "x", *argv[] = {a0, a1, files == 2 ? a2 : NULL, NULL, NULL};
    if(bad == 4) argv[files] = a3;
    int r = demo_main(1 + files, argv);
    vf_assert(vf_openFiles == 0 && vf_parserLive == 0, "files are closed");
    if(bad) { vf_assert(r != 0, "failure is reported"); vf_assert(vf_outLen > 0, "with a message"); vf_witness("failure"); return; }
    vf_assert(r == 0, "success is reported");
    vf_assert(count("NodeId: ") == files, "every node once");
    for(int f = 0; f < files; f++) {
        static char b[700], t[400], c[700];
        /* numbered as they appear: file 0 has two, a new one in file 1 is the third */
        int ns = f == 0 ? own(0) : same ? swap ? 2 : 1 : 3;
        cat(t, ns, idText(f));
        t[255] = 0;
        line(b, "NodeId: ", t, " BrowseName: "); line(c, b, bn[f] , " DisplayName: "); line(b, c, dn[f], "\n");
        int at = find(b, 0, (int)vf_outLen);
        vf_assert(at >= 0, "node id, browse name and display name");
        int end = find("NodeId: ", at + 1, (int)vf_outLen); if(end < 0) end = (int)vf_outLen;
        int k = f ? OBJ : cls;
        if(f == 0 && k == OBJ) inNode(at, end, "\teventNotifier: ", num, "\n", "event notifier");
        if(f == 0 && k <= VAR) inNode(at, end, "\tparentNodeId: ", "i=85", "\n", "parent");
        if(f == 0 && k == VAR) {
            inNode(at, end, "\tdatatype: ", other == 2 ? "ns=2;i=7" : "ns=1;i=7", "\n", "data type"); inNode(at, end, "\tvalueRank: ", rank, "\n", "value rank");
            if(dims) inNode(at, end, "\tarrayDimensions: ", dimText, "\n", "array dimensions"); inNode(at, end, "\tminimumSamplingInterval: ", ms, "\n", "sampling interval");
        }
        inNode(at, end, "\treftype: i=", k < OBJT ? "47" : "45", k < OBJT ? " target: i=85\n" : " target: i=58\n", "hierarchical reference");
        inNode(at, end, "\treftype: i=37", "", f ? " target: i=80\n" : other == 2 ? " target: ns=2;i=78\n" : " target: ns=1;i=78\n", "other reference");
        if(more) { inNode(at, end, "\treftype: i=37", "", " target: i=79\n", "second reference of a type"); inNode(at, end, "\treftype: i=35", "", " target: i=86\n", "second hierarchical reference"); }
    }
    if(files == 2) vf_witness("two files");
}

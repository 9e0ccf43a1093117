/* A load that fails says so, tells the server's log why, changes nothing but the namespace table, and does not stand in the way of later ones. */
#include "bdoc.h"
enum { GOOD, NOSERVER, NOPATH, MISSING, MALFORMED, TRUNCATED, CYCLE, UNKNOWNREF, N_KINDS };
static const char *UNK[] = {"ns=1;i=16", "i=30001", "i=99", "ns=1;s=HasComponent"};
static int unk;
static int kind[STEPS], step, ids[STEPS], at;
static void doc(void) {
    char a[16], b[16];
    int k = kind[step], d = ids[step];
    docBegin(1);
    S("Aliases", END); S("Alias", "Alias", "HasComponent", END); T("i=47"); E(); E();
    S("UADataType", "NodeId", nid(a, 1, 8), "BrowseName", "1:T", END);
    parentRef("i=45", "i=22");
    S("Definition", "Name", "T", END); S("Field", "Name", "m", "DataType", "i=12", END); E(); E(); E();
    if(k == MALFORMED && at == 0) { closeAll(); return; }
    S("UAVariable", "NodeId", nid(a, 1, 9), "BrowseName", "1:v", "DataType", "i=12", END);
    S("References", END); ref("HasComponent", 0, "i=85"); ref("i=37", 1, "i=78"); E();
    S("Value", END); EL("String", "text"); 
    if(k == MALFORMED && at == 1) { closeAll(); return; }
    E(); E();
    S("UAObject", "NodeId", nid(a, 1, d), "BrowseName", "1:o", END);
    S("References", END);
    if(k == CYCLE) ref("i=47", 0, nid(b, 1, 7)); else ref("i=35", 0, "i=85");
    if(k == UNKNOWNREF) ref(UNK[unk], at, "i=78");
    E(); E();
    if(k == CYCLE) { S("UAObject", "NodeId", nid(b, 1, 7), "BrowseName", "1:p", END); parentRef("HasComponent", at ? a : nid(b, 1, 6)); E(); }
    if(k == CYCLE && !at) { S("UAVariable", "NodeId", nid(b, 1, 6), "BrowseName", "1:p", END); parentRef("i=46", nid(a, 1, d)); E(); }
    E();
}
void vf_main(void) {
    int good = 0, fail = 0;
    vf_doc[0] = doc;
    for(step = 0; step < STEPS; step++) {
        int k = kind[step] = vf_choose(0, N_KINDS - 1);
        at = k == MALFORMED || k == CYCLE || k == UNKNOWNREF ? vf_choose(0, 1) : 0;
        if(k == UNKNOWNREF) unk = vf_choose(0, 3);
        ids[step] = step; if(k == UNKNOWNREF || k == GOOD) ids[step] = vf_int(0, 5);
        for(int j = 0; j < step; j++) if(kind[j] == GOOD) vf_assume(ids[j] != ids[step]);
        vf_docResult[0] = k == MALFORMED ? 1 : k == TRUNCATED ? 2 : 0;
        int nodes = vf_nSrv, refs = vf_nSrvRefs, errors = vf_srvLog.n[2], calls = vf_nAddCalls;
        const UA_DataTypeArray *types = vf_server.config.customDataTypes; size_t nTypes = types ? types->typesSize : 0;
        bool r = k == NOSERVER ? NodesetLoader_loadFile(NULL, "0", NULL) : k == NOPATH ? NodesetLoader_loadFile(&vf_server, NULL, NULL) : k == MISSING ? NodesetLoader_loadFile(&vf_server, "x", NULL) : vf_load(0);
        vf_assert(vf_openFiles == 0 && vf_parserLive == 0, "files and parsers are closed");
        vf_assert(vf_outLen == 0, "nothing on the console");
        if(k == GOOD) {
            vf_assert(r, "a good file loads");
            vf_assert(vf_srvLog.n[2] == errors, "no error is logged");
            UA_NodeId n = UA_NODEID_NUMERIC(vf_nsMap[0], NID(ids[step])), t = UA_NODEID_NUMERIC(vf_nsMap[0], 18), v = UA_NODEID_NUMERIC(vf_nsMap[0], 19);
            vf_assert(vf_srvFind(&n) >= 0 && vf_srvFind(&t) >= 0 && vf_srvFind(&v) >= 0, "its nodes are there");
            vf_assert(NodesetLoader_getCustomDataType(&vf_server, &t) != NULL, "its type is there");
            vf_assert(vf_nSrv == nodes + (good ? 1 : 3), "each once");
            if(fail) vf_witness("a good file behind a bad one");
            good++;
        } else {
            vf_assert(!r, "failure is reported");
            vf_assert(vf_nSrv == nodes && vf_nSrvRefs == refs && vf_nAddCalls == calls, "no node and no reference is added");
            vf_assert(vf_server.config.customDataTypes == types && (!types || types->typesSize == nTypes), "no data type is registered");
            if(k > NOPATH) {
                vf_assert(vf_srvLog.n[2] > errors, "an error is logged");
                vf_assert(vf_srvLog.level == UA_LOGLEVEL_ERROR && vf_srvLog.cat == UA_LOGCATEGORY_USERLAND && vf_srvLog.ctx == vf_srvLogger.context, "in the server's log");
            }
            if(good) vf_witness("a bad file behind a good one");
            fail++;
        }
        vf_witness(k == CYCLE ? "cycle" : k == UNKNOWNREF ? "unknown reference type" : k == MALFORMED ? "malformed" : k == NOPATH ? "no path" : "other");
    }
    bEnd();
}

/* P22: the built-in logger. */
#include "doc.h"
#include "InternalLogger.h"
static int d;
static void doc(void) {
    char a[16];
    S("UANodeSet", END); nsUris(1);
    S("UAObject", "NodeId", nid(a, 1, d), "BrowseName", "1:a", END);
    S("References", END); ref("ns=1;i=900", 1, "i=85"); E();
    E(); E();
}
static int contains(const char *s) { return strstr(vf_out, s) != NULL; }
void vf_main(void) {
    int what = vf_choose(0, 6);
    static const char *LV[] = {"Debug", "Warning", "Error"};
    if(what < 3) {
        NodesetLoader_Logger *g = InternalLogger_new();
        vf_assert(g && g->log, "a logger");
        int n = vf_int(-99, 99), c = vf_int(33, 126), lv = what;
        char s[3] = {(char)c, 'x', 0};
        int form = vf_choose(0, 4);
        switch(form) {
        case 0: g->log(g->context, (enum NodesetLoader_LogLevel)lv, "plain"); vf_assert(contains("plain"), "the message"); break;
        case 1: g->log(g->context, (enum NodesetLoader_LogLevel)lv, "a%sb", s);
                { char *p = strstr(vf_out, "xb"); vf_assert(p && p[-1] == (char)c && p[-2] == 'a', "string argument"); } break;
        case 2: g->log(g->context, (enum NodesetLoader_LogLevel)lv, "v=%d.", n);
                { char *p = strstr(vf_out, "v="); vf_assert(p != NULL, "number"); int neg = p[2] == '-', v = 0; for(p += 2 + neg; *p >= '0' && *p <= '9'; p++) v = v * 10 + (*p - '0'); vf_assert(*p == '.' && (neg ? -v : v) == n, "number argument"); } break;
        case 3: g->log(g->context, (enum NodesetLoader_LogLevel)lv, "<%.*s>%s|", 1, s, "tail"); 
                { char *p = strstr(vf_out, ">tail|"); vf_assert(p && p[-1] == (char)c && p[-2] == '<', "precision and second argument"); } break;
        case 4: g->log(g->context, (enum NodesetLoader_LogLevel)lv, "%%%c", c); { size_t k = vf_outLen; vf_assert(k > 2 && vf_out[k - 1] == '\n' && vf_out[k - 2] == (char)c && vf_out[k - 3] == '%', "percent sign and character"); } break;
        }
        for(int i = 0; i < 3; i++) vf_assert(!contains(LV[i]) == (i != lv), "the level is named");
        vf_assert(vf_outLen > 0 && vf_out[vf_outLen - 1] == '\n' && strchr(vf_out, '\n') == vf_out + vf_outLen - 1, "one line");
        vf_witness("direct");
        InternalLogger_delete(g);
    } else if(what == 6) {
        /* the caller's own logger, with and without a context: it gets every message, the console none */
        static int c0;
        vf_logger.context = vf_choose(0, 1) ? &c0 : NULL;
        NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
        int n = vf_choose(1, 3), w = 0;
        d = vf_int(0, 9);
        for(int i = 0; i < n; i++) switch(vf_int(0, 2)) {
        case 0: vf_assert(!vf_import(l, 9, NULL), "missing file"); w++; break;
        case 1: vf_assert(!NodesetLoader_importFile(l, NULL), "no context"); w++; break;
        case 2: vf_docResult[1] = 1; vf_assert(!vf_import(l, 1, NULL), "malformed"); w++; break;
        }
        vf_assert(vf_log.count[NODESETLOADER_LOGLEVEL_ERROR] == w, "one message per failure, to the caller's logger");
        vf_assert(vf_outLen == 0, "nothing on the console");
        vf_witness("own logger");
        NodesetLoader_delete(l);
    } else {
        NodesetLoader *l = NodesetLoader_new(NULL, NULL);
        d = vf_int(0, 9);
        if(what == 3) { vf_assert(!vf_import(l, 9, NULL), "missing file"); vf_assert(contains("Error") && contains("file open error"), "logged on the console"); vf_witness("missing file"); }
        else if(what == 4) { vf_doc[0] = doc; vf_assert(vf_import(l, 0, NULL), "imports"); vf_assert(vf_outLen == 0, "silent"); vf_assert(!NodesetLoader_sort(l), "unresolved"); 
            char *p = strstr(vf_out, "NodeId("); vf_assert(p && p[7] == 'i' && p[8] == (char)('0' + d) && p[9] == ')', "the message names the node"); vf_witness("unresolved"); }
        else { vf_assert(!NodesetLoader_importFile(l, NULL), "no context"); vf_assert(contains("Error"), "logged"); vf_witness("misuse"); }
        NodesetLoader_delete(l);
    }
    vf_assert(vf_live == 0, "released");
}

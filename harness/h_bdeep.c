/* Data types derived from each other over many levels, with names of any length. */
#include "bdoc.h"
enum { P_STRUCT, P_UNION, P_ENUM, P_OPTIONSET, P_DOUBLE, P_NUMBER, P_STRING, P_RANGE, N_PARENTS };
static const char *PID[] = {"i=22", "i=12756", "i=29", "i=12755", "i=11", "i=26", "i=12", "i=884"};
static const int MEMBER[] = {UA_TYPES_BYTE, UA_TYPES_INT64, UA_TYPES_STRING, UA_TYPES_INT16};
static const char *MEMBERID[] = {"i=3", "i=8", "i=12", "i=4"};
static const int LENGTH[] = {1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
static int par, levels, order, len, bare, opt, two;
static char longName[304], browse[308], fieldName[304];
static char ids[20][12], fn[20][4];
static const char *id(int l) { char *s = ids[l]; memcpy(s, "ns=1;i=", 7); s[7] = (char)('1' + l / 10); s[8] = (char)('0' + l % 10); s[9] = 0; return s; }
static const char *fname(int l) { if(l == levels - 1) return fieldName; fn[l][0] = 'F'; fn[l][1] = (char)('a' + l); fn[l][2] = 0; return fn[l]; }
static int fields(void) { return par == P_STRUCT || par == P_UNION || par == P_RANGE; }
/* a level without a definition of its own */
static int empty(int l) { return !fields() || l == bare; }
static void type(int l) {
    S("UADataType", "NodeId", id(l), "BrowseName", l == levels - 1 ? browse : "1:X", END);
    parentRef("i=45", l ? id(l - 1) : PID[par]);
    if(!empty(l)) {
        if(par == P_UNION) S("Definition", "Name", "X", "IsUnion", "true", END); else S("Definition", "Name", "X", END);
        S("Field", "Name", fname(l), "DataType", MEMBERID[l % 4], "IsOptional", opt && l == 0 ? "true" : "false", END); E();
        E();
    } else if(par == P_UNION) { S("Definition", "Name", "X", "IsUnion", "true", END); E(); }
    E();
}
static void doc(void) { docBegin(1); if(order) for(int l = levels; l--;) type(l); else for(int l = 0; l < levels; l++) type(l); E(); }
static void doc2(void) { docBegin(1); E(); }
void vf_main(void) {
    par = vf_choose(PLO, PHI);
    levels = vf_choose(1, LEVELS);
    order = vf_choose(0, 1);
    bare = vf_choose(-1, fields() ? 0 : -1);
    opt = par == P_STRUCT && bare ? vf_choose(0, 1) : 0;
    len = LENGTH[levels <= 2 ? vf_choose(0, (int)(sizeof(LENGTH) / sizeof(int)) - 1) : 3];
    int c = vf_int('a', 'z');
    for(int i = 0; i < len; i++) { longName[i] = (char)(i % 7 ? 'n' : c); fieldName[i] = (char)(i % 5 ? 'f' : c); }
    longName[len] = 0; fieldName[len] = 0;
    memcpy(browse, "1:", 2); memcpy(browse + 2, longName, (size_t)len + 1);
    vf_doc[0] = doc; vf_doc[1] = doc2;
    vf_assert(vf_load(0), "loads");
    if(vf_choose(0, 1)) { vf_assert(vf_load(1), "a later file"); vf_witness("later file"); }
    for(int l = 0; l < levels; l++) {
        UA_NodeId i = UA_NODEID_NUMERIC(vf_nsMap[0], (UA_UInt32)(10 + l));
        const UA_DataType *t = NodesetLoader_getCustomDataType(&vf_server, &i);
        vf_assert(t != NULL && UA_NodeId_equal(&t->typeId, &i), "every level is known");
        vf_assert(t->typeName && strcmp(t->typeName, l == levels - 1 ? longName : "X") == 0, "names");
        if(fields()) {
            unsigned n = 0;
            if(par == P_RANGE) { vf_assert(t->membersSize >= 2 && strcmp(t->members[0].memberName, "Low") == 0 && strcmp(t->members[1].memberName, "High") == 0, "members of the standard type"); n = 2; }
            for(int k = 0; k <= l; k++) {
                if(empty(k)) continue;
                vf_assert(n < t->membersSize, "members of all levels");
                const UA_DataTypeMember *m = &t->members[n++];
                vf_assert(m->memberName && strcmp(m->memberName, fname(k)) == 0, "name of a member");
                vf_assert(m->memberType == &UA_TYPES[MEMBER[k % 4]] && m->isOptional == (opt && k == 0) && !m->isArray, "type of a member");
            }
            vf_assert(t->membersSize == n, "no further members");
            vf_assert(t->typeKind == (par == P_UNION ? UA_DATATYPEKIND_UNION : opt ? UA_DATATYPEKIND_OPTSTRUCT : UA_DATATYPEKIND_STRUCTURE), "kind");
        } else switch(par) {
        case P_ENUM: vf_assert(t->typeKind == UA_DATATYPEKIND_ENUM && t->memSize == 4 && t->membersSize == 0 && t->pointerFree, "enumeration"); break;
        case P_OPTIONSET: vf_assert(t->typeKind == UA_DATATYPEKIND_STRUCTURE && t->membersSize == 2, "option set"); break;
        default: {
            const UA_DataType *b = &UA_TYPES[par == P_DOUBLE ? UA_TYPES_DOUBLE : par == P_STRING ? UA_TYPES_STRING : UA_TYPES_VARIANT];
            vf_assert(t->typeKind == b->typeKind && t->memSize == b->memSize && t->membersSize == 0, "represented like the built-in type"); }
        }
    }
    if(levels == LEVELS) vf_witness("deep");
    bEnd();
}

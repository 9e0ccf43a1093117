/* P11: element text does not depend on how the XML parser chops it up. */
#include "doc.h"
enum { DISP, DESC, INV, URI, ALIAS_, TARGET, VAL, NW };
static int where, len, split, c[6], noise, loc;
static char buf[8];
#ifdef FILLER
static int fill;
#endif
/* hands the text over in pieces; bit i of split = cut after byte i */
static void text(const char *t) {
    size_t n = strlen(t), s = 0;
    for(size_t i = 0; i < n; i++)
        if(i + 1 == n || (split >> i & 1)) { TN(t + s, i + 1 - s); s = i + 1; }
}
static void gap(void) { if(noise) { T("\n"); T("  "); } }
static void doc(void) {
    S("UANodeSet", END); gap();
    S("NamespaceUris", END); gap(); S("Uri", END); if(where == URI) text(buf); else T("urn:a"); E(); gap(); E(); gap();
    S("Aliases", END); gap();
    S("Alias", "Alias", "Al", END); if(where == ALIAS_) text("i=4567"); else T("i=86"); E(); gap();
    E(); gap();
#ifdef FILLER
    { static char big[1 << 20]; memset(big, 'x', sizeof big - 1); big[(1 << 20) - fill] = 0;
      S("UAView", "NodeId", "ns=1;i=8", "EventNotifier", big, END); E(); }
#endif
    S(where == INV ? "UAReferenceType" : "UAVariable", "NodeId", "ns=1;i=1", "BrowseName", "1:a", END); gap();
    if(loc) S("DisplayName", "Locale", "en", END); else S("DisplayName", END);
    if(where == DISP) text(buf); else T("dn");
    E(); gap();
    if(where == DESC) { if(loc) S("Description", "Locale", "de", END); else S("Description", END); text(buf); E(); gap(); }
    if(where == INV) { if(loc) S("InverseName", "Locale", "fr", END); else S("InverseName", END); text(buf); E(); gap(); }
    S("References", END); gap();
    S("Reference", "ReferenceType", "i=35", END); if(where == TARGET) text("i=4567"); else T(where == ALIAS_ ? "Al" : "i=85"); E(); gap();
    E(); gap();
    if(where == VAL) { S("Value", END); gap(); S("String", END); text(buf); E(); gap(); E(); gap(); }
    E(); gap();
    E();
}
static void check(const char *s) {
    vf_assert(s != NULL, "the text is there");
    vf_assert((int)strlen(s) == len, "all of the text");
    for(int i = 0; i < len; i++) vf_assert(s[i] == (char)c[i], "the text itself");
    vf_witness("text");
}
void vf_main(void) {
#ifdef FILLER
    where = DISP; len = LEN;
#else
    where = vf_choose(0, NW - 1);
    len = vf_choose(1, LEN);
#endif
    if(where == ALIAS_ || where == TARGET) { if(len != LEN) vf_end_path(); len = 6; }
    split = vf_choose(0, (1 << (len - 1)) - 1);
#ifdef FILLER
    fill = vf_choose(FILLER, FILLER + 11);
#else
    noise = vf_choose(0, 1);
    loc = where < URI ? vf_choose(0, 1) : 0;
#endif
    for(int i = 0; i < len && i < 6; i++) c[i] = where == VAL ? vf_int(33, 126) : vf_int(1, 255);
    for(int i = 0; i < len && i < 6; i++) buf[i] = (char)c[i];
    NodesetLoader *l = NodesetLoader_new(&vf_logger, NULL);
    vf_doc[0] = doc;
    vf_assert(vf_import(l, 0, NULL), "well-formed document imports");
    vf_assert(NodesetLoader_sort(l), "sorts");
    vf_collect(l);
    NL_Node *n = vf_findNum(vf_nsMap[0], 1);
    vf_assert(n != NULL, "the node");
    switch(where) {
    case DISP: check(n->displayName.text); vf_assert(loc ? vf_streq(n->displayName.locale, "en") : n->displayName.locale == NULL, "locale"); break;
    case DESC: check(n->description.text); vf_assert(loc ? vf_streq(n->description.locale, "de") : n->description.locale == NULL, "locale"); break;
    case INV: check(((NL_ReferenceTypeNode *)n)->inverseName.text); vf_assert(loc ? vf_streq(((NL_ReferenceTypeNode *)n)->inverseName.locale, "fr") : ((NL_ReferenceTypeNode *)n)->inverseName.locale == NULL, "locale"); break;
    case URI: check(vf_nsUri[0]); break;
    case VAL: {
        NL_Value *v = ((NL_VariableNode *)n)->value;
        vf_assert(v && v->data && v->data->type == DATATYPE_PRIMITIVE, "the value");
        check(v->data->val.primitiveData.value); break; }
#ifndef FILLER
    default: vf_assert(n->hierachicalRefs && vf_isNum(&n->hierachicalRefs->target, 0, 4567), "the id written in the text"); vf_witness("id text");
#endif
    }
    if(where != DISP) vf_assert(vf_streq(n->displayName.text, "dn"), "other texts are unaffected");
    NodesetLoader_delete(l);
}

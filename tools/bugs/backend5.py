bb("bv-enum-many", "P29", "Numbers of enumeration values with several underscores in the symbol",
 "an enumeration symbol with an underscore followed by a digit",
 [(V, "    const char *enumSepPos = strrchr(string, '_');\n", "    const char *enumSepPos = strpbrk(string, \"_\");\n    while (enumSepPos && enumSepPos[1] && !strchr(\"-0123456789\", enumSepPos[1]))\n        enumSepPos = strchr(enumSepPos + 1, '_');\n")],
 CATCH + r"""
static void f(const struct VfAdd *a) { CHECK(*(const UA_Int32 *)val(a)->data == 7); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", "E", "i=29", DEF("E", "<Field Name=\"Mode_3_A\" Value=\"7\"/>"))
        VAR("ns=1;i=5", "ns=1;i=2", "-1", "<Int32>Mode_3_A_7</Int32>") TAIL));
    CHECK(seen == 1); done();
    return 0;
}""")
bb("bv-union-last", "P31", "The last field of a union is not taken over if it is a structure",
 "a union whose selected last field is a structure",
 [(V, "            setScalar(memberData, memberType, data, customTypes, serverContext);\n        }\n    }\n    // Overwrite", "            if (switchField < type->membersSize || memberType->typeKind < CONVERSION_TABLE_SIZE)\n                setScalar(memberData, memberType, data, customTypes, serverContext);\n        }\n    }\n    // Overwrite")],
 CATCH + r"""
struct U { UA_UInt32 sw; UA_Int32 x; };
static void f(const struct VfAdd *a) { const struct U *u = (const struct U *)val(a)->data; CHECK(u->sw == 2 && u->x == 9); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 DT("ns=1;i=3", "P", "i=22", DEF("P", FIELD("X", "i=6")))
        DT("ns=1;i=2", "U", "i=12756", "<Definition Name=\"U\" IsUnion=\"true\">" FIELD("A", "i=6") FIELD("B", "ns=1;i=3") "</Definition>")
        VAR("ns=1;i=5", "ns=1;i=2", "-1", EXT("i=9", "U", "<SwitchField>2</SwitchField><B><X>9</X></B>")) TAIL));
    CHECK(seen == 1); done();
    return 0;
}""")
bb("bv-opt-absent", "P31", "An absent optional member takes the room of its content",
 "an absent optional member followed by another member",
 [(V, "                            : m->isOptional ? sizeof(void *)\n                                            : memberType->memSize;\n", "                            : m->isOptional && memberType->memSize > 4 ? sizeof(void *)\n                                            : memberType->memSize;\n")],
 CATCH + r"""
struct S { UA_Int16 *a; UA_Int16 *b; };
static void f(const struct VfAdd *a) { const struct S *s = (const struct S *)val(a)->data; CHECK(!s->a && s->b && *s->b == 4); }
int demo(void) {
    watch(5, f);
    CHECK(bload(HEAD NS1 DT("ns=1;i=2", "S", "i=22", DEF("S", "<Field Name=\"L\" DataType=\"i=4\" IsOptional=\"true\"/><Field Name=\"M\" DataType=\"i=4\" IsOptional=\"true\"/>"))
        VAR("ns=1;i=5", "ns=1;i=2", "-1", EXT("i=9", "S", "<M>4</M>")) TAIL));
    CHECK(seen == 1); done();
    return 0;
}""")

# What run.py runs for each property. tier: quick (both tiers), quick-only, thorough.
CORE = dict(mods=["core"], env=["sax.c"])
COMMON_ASSUMPTIONS = []
def R(name, harness, scope="", **kw):
    d = dict(CORE); d.update(name=name, harness=harness, scope=scope); d.update(kw); return d
def RB(name, harness, scope="", **kw):
    return R(name, harness, scope, **{**dict(mods=["core", "backend"], env=["sax.c", "ua_types_model.c", "ua_server_model.c"], repo_defs=["-DUSE_CLEANUP_CUSTOM_DATATYPES=1"]), **kw})
Q = lambda s: '"%s"' % s
D = lambda **k: k
ARENA = dict(mods=["src/CharAllocator.c"], repo_defs=["-Dcalloc=ar_calloc", "-Dmalloc=ar_malloc", "-Dmemcpy=ar_memcpy", "-Dmemmove=ar_memcpy", "-Dfree=vfh_free"], heap=[])
CHECKS = {
 "P01": dict(runs=[
   R("blocks", "h_arena.c", "4 requests, sizes 0..3, initial region 1..4", defs=D(OPS=4, SZ=3)),
   R("blocks5", "h_arena.c", "5 requests, sizes 0..4, initial region 1..4", defs=D(OPS=5, SZ=4), tier="thorough", max_time=800),
 ]),
 "P02": dict(runs=[
   R("sizes", "h_arena_sz.c", "3 requests, every size within 2^16 of 0, 2^62, 2^63 and 2^64, region size 257..2^16, every allocation may fail", env=[], **ARENA, defs=D(OPS=3)),
   R("sizes4", "h_arena_sz.c", "4 requests, same sizes", env=[], **ARENA, defs=D(OPS=4), tier="thorough", max_time=800),
 ]),
 "P03": dict(runs=[
   R("inverse", "h_order.c", "3 objects, symbolic distinct ids, one inverse HasComponent each with symbolic target", defs=D(K=3, KLO=1, KHI=1, CMAX=0, REFTYPE=Q("i=47"))),
   R("ways", "h_order.c", "2 nodes of all 8 classes, every way of declaring a parent", defs=D(K=2, KLO=0, KHI=4, CMAX=7, REFTYPE=Q("i=35"))),
   R("parentid", "h_order.c", "3 objects with ParentNodeId or inverse references", defs=D(K=3, KLO=1, KHI=3, KNOT=2, CMAX=0, REFTYPE=Q("i=47"))),
   R("forward", "h_order.c", "3 variables/objects, forward references", defs=D(K=3, KLO=2, KHI=2, CMAX=0, REFTYPE=Q("i=46"))),
   R("avl", "h_order.c", "6 unrelated nodes, every order of ids", defs=D(K=6, KLO=0, KHI=0, CMAX=0, REFTYPE=Q("i=46"))),
   R("both", "h_order.c", "2 objects, every way of declaring a parent including ParentNodeId next to a forward reference", defs=D(K=2, KLO=0, KHI=5, CMAX=0, REFTYPE=Q("i=35"))),
   R("string", "h_order.c", "2 objects with string ids, every way of declaring a parent", defs=D(IDK=1, K=2, KLO=0, KHI=5, CMAX=0, REFTYPE=Q("i=35"))),
   R("string3", "h_order.c", "3 objects with string ids, inverse references", defs=D(IDK=1, K=3, KLO=1, KHI=1, CMAX=0, REFTYPE=Q("i=47"))),
   R("both3", "h_order.c", "an object with ParentNodeId and a forward reference, 2 objects with an inverse one", defs=D(K=3, K0=5, KLO=1, KHI=1, CMAX=0, REFTYPE=Q("i=47")), tier="thorough", max_time=800),
   R("mixed", "h_order.c", "3 nodes, 2 classes, every way of declaring a parent", defs=D(K=3, KLO=0, KHI=4, CMAX=1, REFTYPE=Q("i=35")), tier="thorough", max_time=800),
   R("inverse4", "h_order.c", "4 objects, one inverse reference each", defs=D(K=4, KLO=1, KHI=1, CMAX=0, REFTYPE=Q("i=47")), tier="thorough", max_time=800),
   R("avl7", "h_order.c", "7 unrelated nodes, every order of ids", defs=D(K=7, KLO=0, KHI=0, CMAX=0, REFTYPE=Q("i=46")), tier="thorough", max_time=800),
 ]),
 "P04": dict(runs=[
   R("inverse", "h_order.c", "3 objects, inverse references", defs=D(P04=1, K=3, KLO=1, KHI=1, CMAX=0, REFTYPE=Q("i=47"))),
   R("ways", "h_order.c", "2 nodes, every way", defs=D(P04=1, K=2, KLO=0, KHI=4, CMAX=1, REFTYPE=Q("i=35"))),
   R("forward", "h_order.c", "3 objects, forward references", defs=D(P04=1, K=3, KLO=2, KHI=2, CMAX=0, REFTYPE=Q("i=46"))),
   R("parentid", "h_order.c", "3 objects, inverse references or ParentNodeId only", defs=D(P04=1, K=3, KLO=1, KHI=3, KNOT=2, CMAX=0, REFTYPE=Q("i=47"))),
   R("both", "h_order.c", "2 objects, also with ParentNodeId next to a forward reference", defs=D(P04=1, K=2, KLO=0, KHI=5, CMAX=0, REFTYPE=Q("i=35"))),
   R("string", "h_order.c", "3 objects with string ids, inverse references", defs=D(P04=1, IDK=1, K=3, KLO=1, KHI=1, CMAX=0, REFTYPE=Q("i=47"))),
   R("string2", "h_order.c", "2 objects with string ids, every way", defs=D(P04=1, IDK=1, K=2, KLO=0, KHI=5, CMAX=0, REFTYPE=Q("i=35"))),
   R("mixed", "h_order.c", "3 nodes, every way of declaring a parent", defs=D(P04=1, K=3, KLO=0, KHI=4, CMAX=0, REFTYPE=Q("i=35")), tier="thorough", max_time=800),
 ]),
 "P05": dict(runs=[
   R("dup", "h_dup.c", "3 declarations, symbolic ids, numeric and string, 2 classes", defs=D(K=3, CMAX=1)),
   R("held", "h_dup.c", "3 declarations, any of them with a reference whose type is declared later", defs=D(K=3, CMAX=1, HELD=1)),
   R("dup4", "h_dup.c", "4 declarations, 3 classes", defs=D(K=4, CMAX=2), tier="thorough", max_time=800),
 ]),
 "P06": dict(runs=[
   R("one", "h_reftypes.c", "2 custom types, one user before/between/after", defs=D(P06=1, T_=2, BLO=6, UMAX=1, SECOND=1)),
   R("string", "h_reftypes.c", "reference types with string ids", defs=D(IDK=1, P06=1, T_=2, BLO=6, UMAX=0, SECOND=1)),
 ]),
 "P07": dict(runs=[
   R("derived", "h_reftypes.c", "2 custom types from 10 bases or from each other, one user before/between/after", defs=D(P07=1, T_=2, BLO=0, UMAX=0, SECOND=0)),
   R("string", "h_reftypes.c", "reference types with string ids", defs=D(IDK=1, P07=1, T_=2, BLO=6, UMAX=0, SECOND=0)),
   R("builtin", "h_builtin.c", "every built-in numeric reference type 31..129"),
   R("derived3", "h_reftypes.c", "3 custom types", defs=D(P07=1, T_=3, BLO=0, UMAX=1, SECOND=0), tier="thorough", max_time=800),
   R("order", "h_reftypes.c", "subtype declared before its supertype", defs=D(P07=1, T_=2, BLO=6, UMAX=0, SECOND=0, ANYORDER=1, FINDING=1), finding="P07-supertype-after-subtype"),
 ]),
 "P08": dict(runs=[
   R("ns", "h_ns.c", "9 places an index can occur, 0..3 or 0..12 Uris, symbolic one/two digit index, symbolic server indexes"),
 ]),
 "P09": dict(runs=[
   R("alias", "h_alias.c", "2 aliases with symbolic names of 1..2 letters, also of the form of an id, 6 places of use, numeric and string ids"),
   R("many", "h_wide.c", "every number 1..40 of aliases, symbolic names of the ids they stand for", defs=D(WIDE=4, LO=1, HI=40), samples=2, max_steps=200000000),
   R("alias3", "h_alias.c", "3 aliases", defs=D(NA=3), tier="thorough", max_time=800),
 ]),
 "P13": dict(runs=[
   R("refs", "h_refs.c", "3 references of 5 kinds of types, both directions, symbolic targets, 2 node classes", defs=D(NR=3, CMAX=1)),
   R("classes", "h_refs.c", "2 references, all 8 node classes", defs=D(NR=2, CMAX=7)),
   R("many", "h_wide.c", "every number 0..40 of references of a node, symbolic string ids", defs=D(WIDE=3, LO=0, HI=40), samples=2, max_steps=200000000),
   R("string", "h_refs.c", "2 references to string ids", defs=D(IDK=1, NR=2, CMAX=1)),
   R("held", "h_refs.c", "3 references of 3 custom types, two declared later", defs=D(NR=3, CMAX=1, TLO=3, THI=5)),
   R("refs4", "h_refs.c", "4 references", defs=D(NR=4, CMAX=0), tier="thorough", max_time=800),
 ]),
 "P19": dict(runs=[
   R("two", "h_iso.c", "two loaders with the same alias and 0..2 custom types in the other one"),
   R("cap", "h_capacity.c", "305 aliases; 112 custom reference types (hierarchical, not, alternating); picks around the old limits", samples=3),
 ]),
 "P10": dict(runs=[
   R("attr", "h_attr.c", "8 classes, all / all but one / one attribute, 3 orders, foreign attributes, symbolic values of 0..2 bytes", defs=D(ROT=1)),
   R("attr6", "h_attr.c", "same, 8 orders", defs=D(ROT=6), tier="thorough", max_time=800),
 ]),
 "P11": dict(runs=[
   R("split", "h_text.c", "7 kinds of text of 1..4 symbolic bytes (ids: 6 bytes), every way of cutting them", defs=D(LEN=4)),
   R("region", "h_text.c", "text of 3 bytes that straddles the end of the first 1 MiB arena region at every offset, every cut", defs=D(LEN=3, FILLER=36), max_steps=30000000),
   R("split6", "h_text.c", "1..6 bytes", defs=D(LEN=6), tier="thorough", max_time=800),
 ]),
 "P12": dict(runs=[
   R("unknown", "h_unknown.c", "unknown subtrees of 7 shapes at each of the positions of a document using every construct"),
 ]),
 "P17": dict(runs=[
   R("tree", "h_value.c", "4 kinds of values, element trees of depth 2 and width 2, 2 names, symbolic text", defs=D(DEPTH=1, WIDTH=2, NAMES=1, TXT=3)),
   R("names", "h_value.c", "chains of depth 3 with names that also occur as markup", defs=D(DEPTH=2, WIDTH=1, NAMES=5, TXT=2)),
   R("text", "h_value.c", "values with a text of three arbitrary bytes", defs=D(DEPTH=0, WIDTH=1, NAMES=0, TXT=4)),
   R("list", "h_wide.c", "lists of every length 1..70", defs=D(WIDE=0, LO=1, HI=70), samples=2, max_steps=200000000),
   R("members", "h_wide.c", "elements with every number 1..70 of children", defs=D(WIDE=1, LO=1, HI=70), samples=2, max_steps=200000000),
   R("members300", "h_wide.c", "elements with 1..600 children", defs=D(WIDE=1, LO=1, HI=600, STEP=13), samples=2, max_steps=200000000, tier="thorough", max_time=800),
   R("deep", "h_value.c", "trees of depth 3, width 2", defs=D(DEPTH=2, WIDTH=2, NAMES=1, TXT=1), tier="thorough", max_time=800),
 ]),
 "P18": dict(runs=[
   R("def", "h_def.c", "0..2 fields of 4 forms, symbolic numbers and names, flags absent/true/false", defs=D(NF=2)),
   R("many", "h_wide.c", "every number 1..70 of fields", defs=D(WIDE=2, LO=1, HI=70), samples=2, max_steps=200000000),
   R("many600", "h_wide.c", "1..600 fields", defs=D(WIDE=2, LO=1, HI=600, STEP=13), samples=2, max_steps=200000000, tier="thorough", max_time=800),
   R("def3", "h_def.c", "0..3 fields", defs=D(NF=3), tier="thorough", max_time=800),
 ]),
 "P20": dict(runs=[
   R("enc", "h_encoding.c", "2 nodes, one with a further encoding reference: 6 browse names, 4 types, both directions, symbolic targets", defs=D(NO=2)),
   R("string", "h_encoding.c", "nodes and data types with string ids", defs=D(IDK=1, NO=1)),
 ]),
 "P21": dict(runs=[
   R("views", "h_many.c", "every number of views 1..45", defs=D(LO=0, HI=0, NLO=1, NHI=45, STEP=1, NEAR=0)),
   R("types", "h_many.c", "95..205 nodes of 4 classes (95..103 and every 17th)", defs=D(LO=1, HI=4, NLO=95, NHI=205, STEP=17, NEAR=8), samples=2, max_steps=60000000),
   R("unknown", "h_many.c", "95..205 nodes waiting for a reference type", defs=D(LO=1, HI=2, UNKNOWN=1, NLO=95, NHI=205, STEP=17, NEAR=8), samples=2, max_steps=60000000),
   R("alltypes", "h_many.c", "every number 1..310 of nodes of 4 classes", defs=D(LO=1, HI=4, NLO=1, NHI=310, STEP=1, NEAR=0), samples=2, max_steps=60000000, tier="thorough", max_time=800),
   R("methods", "h_many.c", "995..2005 methods", defs=D(LO=5, HI=5, NLO=995, NHI=2005, STEP=101, NEAR=8), samples=2, max_steps=90000000, tier="thorough", max_time=800),
   R("objects", "h_many.c", "9999..20005 objects", defs=D(LO=6, HI=6, NLO=9999, NHI=20005, STEP=5002, NEAR=3), samples=2, max_steps=900000000, tier="thorough", max_time=800),
 ]),
 "P16": dict(runs=[
   R("files", "h_parser.c", "every file size 0..300 and 11 sizes around the chunk borders; unopenable file, parser creation failure, parse error at every byte, error at the end", env=[]),
   R("files4", "h_parser.c", "every file size 0..2100", env=[], defs=D(FMAX=2100), tier="thorough", max_time=800),
 ]),
 "P22": dict(runs=[
   R("log", "h_log.c", "3 levels, 5 format strings with symbolic arguments, 3 failures of a loader without logger"),
 ]),
 "P23": dict(runs=[
   R("ext", "h_ext.c", "1..2 extensions, element trees of depth 3 with names that occur as markup, symbolic text", defs=D(NAMES=2, KIDS=1)),
   R("ext2", "h_ext.c", "trees of width 2, 4 names", defs=D(NAMES=3, KIDS=2), tier="thorough", max_time=800),
 ]),
 "P24": dict(runs=[
   R("calls", "h_misuse.c", "every sequence of 3 of 11 calls", defs=D(OPS=3)),
   R("calls4", "h_misuse.c", "every sequence of 4 of 11 calls", defs=D(OPS=4), tier="thorough", max_time=800),
 ]),
 "P25": dict(runs=[
   R("files", "h_multi.c", "two files with equal or swapped namespace tables, same or no alias, symbolic ids and targets, sorted together or separately"),
   R("string", "h_multi.c", "same with string ids", defs=D(IDK=1)),
   R("held", "h_held.c", "a reference type and up to two users over three files, sorting after any file", defs=D(K=3)),
   R("incremental", "h_incr.c", "three nodes over three files, symbolic ids and targets, sorting after any file", defs=D(K=3)),
   R("incstring", "h_incr.c", "three nodes with string ids over three files", defs=D(IDK=1, K=3)),
 ]),
 "P14": dict(runs=[
   R("events", "h_events.c", "25 contexts, every pair of start tags with any name / end tags / texts, sorted or not", defs=D(P14=1, NE=2, VLO=1, VHI=1, TRUNC=0)),
   R("truncated", "h_events.c", "same, document breaks off; one event", defs=D(P14=1, NE=1, VLO=1, VHI=3, TRUNC=1)),
   R("content", "h_life.c", "8 node classes, every pair (and tripled) of 17 kinds of content", defs=D(P14=1)),
   R("one", "h_events.c", "one event, 2 attribute sets and one attribute with any name and value", defs=D(P14=1, NE=1, VLO=0, VHI=1, TRUNC=0, SYMATTR=1, VALN=1)),
   R("events3", "h_events.c", "every triple", defs=D(P14=1, NE=3, VLO=1, VHI=1, TRUNC=0), tier="thorough", max_time=850),
 ]),
 "P15": dict(runs=[
   R("events", "h_events.c", "25 contexts, every pair of start tags with any name / end tags / texts; empty, malformed and odd attributes", defs=D(NE=2, VLO=2, VHI=2, TRUNC=0)),
   R("content", "h_life.c", "8 node classes, every pair (and tripled) of 17 kinds of content", defs=D()),
   R("attr", "h_events.c", "one event with one attribute of any name and value of 2 bytes", defs=D(NE=1, VLO=1, VHI=1, TRUNC=0, SYMATTR=1, VALN=2)),
   R("attr3", "h_events.c", "same, value of 3 bytes, with and without further attributes", defs=D(NE=1, VLO=0, VHI=2, TRUNC=0, SYMATTR=1, VALN=3), tier="thorough", max_time=850),
   R("noattr", "h_events.c", "no attributes", defs=D(NE=2, VLO=0, VHI=0, TRUNC=0)),
   R("truncated", "h_events.c", "document breaks off", defs=D(NE=2, VLO=3, VHI=3, TRUNC=1)),
   R("events3", "h_events.c", "every triple", defs=D(NE=3, VLO=2, VHI=2, TRUNC=0), tier="thorough", max_time=850),
 ]),
 "P26": dict(runs=[
   RB("num", "h_bnum.c", "8 integer types, numbers of 1..4 symbolic digits and of 3 symbolic digits behind the leading digits of 2^15, 2^16, 2^31, 2^32, 2^53, 2^63 and 2^64; both signs, scalar and array", defs=D(ND=4)),
   RB("plain", "h_bplain.c", "Boolean in its four spellings, String of 1..6 arbitrary bytes, Float and Double with 6 concrete texts, and every builtin type with no text or an element instead; scalar and array", defs=D(LEN=6)),
 ]),
 "P27": dict(runs=[
   RB("any", "h_bbase64.c", "texts of 0..2 arbitrary bytes, scalar and array", defs=D(LEN=2)),
   RB("groups", "h_bbase64.c", "texts of 4, 7 and 8 characters: symbolic characters of one class, 0..2 pads, one arbitrary byte anywhere", defs=D(LEN=2, STRICT=1)),
   RB("any3", "h_bbase64.c", "texts of 0..3 arbitrary bytes", defs=D(LEN=3), tier="thorough", max_time=800),
   RB("groups12", "h_bbase64.c", "texts of up to 12 characters", defs=D(LEN=3, STRICT=1), tier="thorough", max_time=800),
 ]),
 "P28": dict(runs=[
   RB("texts", "h_bcomp.c", "LocalizedText: children present, empty, absent, in both orders, or of another shape; symbolic contents; scalar and array", defs=D(KLO=0, KHI=0)),
   RB("names", "h_bcomp.c", "QualifiedName: same, in three namespaces", defs=D(KLO=1, KHI=1)),
   RB("ids", "h_bcomp.c", "NodeId, Guid, StatusCode: same", defs=D(KLO=2, KHI=4)),
   RB("dates", "h_bcomp.c", "DateTime with 0, 1, 3, 6 and 7 digits of fraction; symbolic digits", defs=D(KLO=5, KHI=5)),
   RB("others", "h_bcomp.c", "5 types without conversion, with text or with an element inside", defs=D(KLO=6, KHI=6)),
 ]),
 "P32": dict(runs=[
   RB("each", "h_blayout.c", "structures and unions of one member of every builtin type (symbolic id), of custom structure, union and enumeration types, arrays and optional ones", defs=D(M=1, ULO=0, UHI=1)),
   RB("struct2", "h_blayout.c", "structures of 2 members of 6 builtin types that cover all sizes and alignments, and of the other forms; member types declared before and after; first member inherited", defs=D(M=2, ULO=0, UHI=0)),
   RB("union2", "h_blayout.c", "unions of 2 such members", defs=D(M=2, ULO=1, UHI=1)),
   RB("struct3", "h_blayout.c", "structures of 3 members", defs=D(M=3, ULO=0, UHI=0), tier="thorough", max_time=800),
   RB("union3", "h_blayout.c", "unions of 3 members", defs=D(M=3, ULO=1, UHI=1), tier="thorough", max_time=800),
 ]),
 "P33": dict(runs=[
   RB("structs", "h_btypes.c", "a structure with a member of symbolic type, array dimension and optional flag, and a second type derived from it or using it; numeric and string ids, encodings before and after", defs=D(PLO=0, PHI=0)),
   RB("all", "h_btypes.c", "same with unions, enumerations, option sets, subtypes of each built-in type, of Number, of Duration, Range and ApplicationType", defs=D(PLO=1, PHI=8)),
   RB("deep", "h_bdeep.c", "chains of 1..6 types below 8 standard ones in both file orders, names of 1..300 characters, an optional member, a level without members, with and without a later file", defs=D(PLO=0, PHI=7, LEVELS=6)),
 ]),
 "P34": dict(runs=[
   RB("structs", "h_bbad.c", "two structures: members of unknown type, of the structure itself, of the other one, as scalar, array or optional, and values of them", defs=D(PLO=0, PHI=0)),
   RB("unions", "h_bbad.c", "same with a union", defs=D(PLO=2, PHI=2), tier="thorough", max_time=800),
   RB("parents", "h_bbad.c", "same with an unknown or abstract supertype", defs=D(PLO=3, PHI=4), tier="thorough", max_time=800),
   RB("selfparent", "h_bbad.c", "same with the type as its own supertype", defs=D(PLO=1, PHI=1)),
   RB("members", "h_bcap.c", "254..257 members, also with 200 inherited ones", defs=D(MEMBERS=1)),
   RB("types", "h_bcap.c", "1, 97..101 and 198..202 further types, with and without an array of the application", defs=D(MEMBERS=0), max_steps=60000000),
 ]),
 "P29": dict(runs=[
   RB("enum", "h_benum.c", "own, derived and standard enumeration types; symbols of 1..3 characters, numbers of 1..3 symbolic digits, both signs, scalar and array; no text or an element instead", defs=D(LEN=3)),
   RB("enum4", "h_benum.c", "4 characters and digits", defs=D(LEN=4), tier="thorough", max_time=800),
 ]),
 "P30": dict(runs=[
   RB("first", "h_bsv.c", "two members; the first of 9 forms, the second a number", defs=D(FORMS="{0,1,2,3,4,5,6,7,8}", FIRST=0)),
   RB("second", "h_bsv.c", "two members; the first a text, the second of every form", defs=D(FORMS="{1}", FIRST=-1)),
   RB("pairs", "h_bsv.c", "two members of all pairs of 13 forms", defs=D(FORMS="{0,1,2,3,4,5,6,7,8,9,10,11,12}", FIRST=-1), tier="thorough", max_time=850),
 ]),
 "P31": dict(runs=[
   RB("opt", "h_bsv.c", "two members; the first optional (number, text, structure, array) or a union, the second a number", defs=D(FORMS="{3,7,9,10,11,12}", FIRST=0)),
   RB("opt2", "h_bsv.c", "an optional text and a member of every form", defs=D(FORMS="{11}", FIRST=-1)),
 ]),
 "P35": dict(runs=[
   RB("attr", "h_battr.c", "8 classes; symbolic browse name, display name, description, inverse name with and without locale; booleans in 5 spellings; numbers 0..255, value ranks -3..3, 0..3 array dimensions up to 2^32-1, data types, extension"),
 ]),
 "P36": dict(runs=[
   RB("parent", "h_bparent.c", "4 instance classes; 0..2 inverse references of 4 types to 3 nodes, ParentNodeId, a forward reference of the parent, in both file orders; type definition absent, standard or own"),
 ]),
 "P37": dict(runs=[
   RB("refs", "h_brefs.c", "a node of any class with 2 further references of 6 types (2 own ones, declared before or after, hierarchical or not), both directions, symbolic numeric or string targets; encodings with one or both directions written", defs=D(NR=2, FULL=0)),
   RB("full", "h_brefs.c", "same, all combinations", defs=D(NR=2, FULL=1), tier="thorough", max_time=850),
 ]),
 "P38": dict(runs=[
   RB("hier", "h_bhier.c", "chains of up to 3 own types below 7 standard ones, over the server, an earlier file and the file itself (0..2 each); 0 or 101 siblings; symbolic choice of the type a node before or behind uses; a type that is its own supertype", defs=D(MAXL=3, WIDE=0)),
   RB("wide", "h_bhier.c", "same with 101 siblings at the server", defs=D(MAXL=3, WIDE=1), tier="thorough", max_time=800),
 ]),
 "P39": dict(runs=[
   RB("ns", "h_bns.c", "one or two files with 8 (second file 7) different namespace tables, also with the same Uri twice and empty ones; symbolic namespace indexes in the file and symbolic indexes the server hands out; numeric and string ids of five node classes", defs=D(BOTH=0)),
 ]),
 "P40": dict(runs=[
   RB("fail", "h_bfail.c", "all pairs of loads of 8 kinds: good, no server, no path, missing file, malformed at 2 places, truncated, cycle, unknown reference type; symbolic ids", defs=D(STEPS=2)),
   RB("fail3", "h_bfail.c", "all sequences of three", defs=D(STEPS=3), tier="thorough", max_time=800),
 ]),
 "P41": dict(runs=[
   RB("chain", "h_bretry.c", "chains of 6 objects and variables, each the parent of the next, in both file orders", defs=D(NN=6, CMAX=1, CHAIN=1, REFUSE=0)),
   RB("refuse", "h_bretry.c", "2 nodes of 4 classes, one possibly below the other, each refused 0..10 times for a reason of the server", defs=D(NN=2, CMAX=3, CHAIN=0, REFUSE=1)),
   RB("many", "h_bmany.c", "98..103 nodes refused 0..2 times", max_steps=60000000),
   RB("chain10", "h_bretry.c", "chains of 10", defs=D(NN=10, CMAX=1, CHAIN=1, REFUSE=0), tier="thorough", max_time=800),
 ]),
 "P42": dict(runs=[
   RB("multi", "h_bmulti.c", "two files, optionally with a third one and with the first one's types repeated; types of the first used in 8 roles by the second; equal or swapped namespace tables, numeric or string ids, scalar or array value with symbolic content"),
 ]),
 "P43": dict(runs=[
   RB("scalar", "h_bmem.c", "values of two structures of 8 members (arrays, optional members, unions, nested structures, texts, names, ids) with one change at any element: left out, repeated, text for content, content for text, empty, an extra element, another name, 2 arbitrary bytes", defs=D(LISTS=0, WHICH=-1)),
   RB("builtin", "h_bmem.c", "scalars and arrays of 8 built-in types with such a change, elements behind the value included", defs=D(LISTS=0, WHICH=2)),
   RB("crossed", "h_bmem.c", "a value of any of 11 kinds, scalar or array, for a variable of any of 21 data types (unknown, abstract, malformed and absent ones included) and either rank", defs=D(LISTS=0, WHICH=3)),
   RB("list", "h_bmem.c", "scalars and arrays of two such values", defs=D(LISTS=1, WHICH=-1), tier="thorough", max_time=800),
 ]),
 "P45": dict(runs=[
   RB("types", "h_bany.c", "a nodeset of the type nodes, unchanged or with one change: an element left out, repeated or renamed, a text or attribute replaced by up to 2 arbitrary bytes or another id, number or list, an attribute left out", defs=D(PART=0, BYTES=2)),
   RB("instances", "h_bany.c", "the same for object and variable types, objects, variables, methods and views, texts of up to 1 arbitrary byte", defs=D(PART=1, BYTES=1)),
   RB("instances2", "h_bany.c", "the same with up to 2 arbitrary bytes", defs=D(PART=1, BYTES=2), tier="thorough", max_time=800),
   RB("both", "h_bany.c", "the same for the whole document", defs=D(PART=2, BYTES=1), tier="thorough", max_time=800),
 ]),
 "P44": dict(runs=[
   R("dump", "h_dump.c", "one or two files with a node of each class, numeric, string and long ids (254..257 and 264 characters), symbolic names and attributes; malformed and missing file", defs=D(FIND=0), mods=["core", "backends/stdout/examples/main.c", "backends/stdout/examples/dump.c"], repo_defs=["-Dmain=demo_main"], replay_heap_leaks=False),
   R("extensions", "h_dump.c", "a node with extensions", defs=D(FIND=1), finding="P44-extensions", max_time=8, mods=["core", "backends/stdout/examples/main.c", "backends/stdout/examples/dump.c"], repo_defs=["-Dmain=demo_main"], replay_heap_leaks=False),
   R("dimensions", "h_dump.c", "a variable with array dimensions", defs=D(FIND=2), finding="P44-dimensions", mods=["core", "backends/stdout/examples/main.c", "backends/stdout/examples/dump.c"], repo_defs=["-Dmain=demo_main"], replay_heap_leaks=False),
   R("namespaces", "h_dump.c", "two files with different or swapped namespace tables", defs=D(FIND=3), finding="P44-namespaces", mods=["core", "backends/stdout/examples/main.c", "backends/stdout/examples/dump.c"], repo_defs=["-Dmain=demo_main"], replay_heap_leaks=False),
   R("cycle", "h_dump.c", "unknown reference type, two nodes that are each other's parent", defs=D(FIND=4), finding="P44-unsorted", mods=["core", "backends/stdout/examples/main.c", "backends/stdout/examples/dump.c"], repo_defs=["-Dmain=demo_main"], replay_heap_leaks=False),
 ]),
}

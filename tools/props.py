"""The property table: properties.jsonl and MANIFEST.json are generated from it (tools/gen.py)."""
CORE5 = "The 5 stable tests only exercise the character arena; the parser tests (which need open62541) load a fixed handful of files."
P = {}
DESIGN = {
 "P01": "request kinds, sizes and initial region are solver variables; oracle: a shadow copy of every live block (content, disjointness, zero fill). Tests: fixed requests.",
 "P02": "sizes are 64-bit solver variables, allocation is a stand-in that records sizes and may fail; oracle: block lies inside a region large enough. Overflow cannot be met by sampling.",
 "P03": "node ids, reference targets are solver variables, class/declaration kinds forked; oracle: position of each node against each predecessor computed by the harness from the same variables.",
 "P04": "as P03; oracle: acyclicity by repeated removal in the harness, compared with the return value for every assignment.",
 "P05": "ids (type and value) are solver variables; oracle: first index with an equal id.",
 "P06": "position, supertypes and used type are variables; oracle: sort result iff the type used is declared.",
 "P07": "supertypes and used type are variables; oracle: recursive definition of hierarchical over the harness's own table of the standard's types.",
 "P08": "written index and callback results are variables; oracle: table lookup in the harness.",
 "P09": "alias names and used names are symbolic letters; oracle: first equal name, else own reading of the id.",
 "P10": "attribute values symbolic, subsets/orders forked; oracle: value written or the table of defaults in the harness.",
 "P11": "text bytes symbolic, cuts forked; oracle: the uncut text. The region run slides the text over the end of the 1 MiB arena region.",
 "P12": "element names symbolic; oracle: the same document without the unknown subtree.",
 "P13": "targets symbolic, types/directions/classes forked; oracle: multiset of written references.",
 "P14": "event sequences as P15; oracle: count of live blocks after deletion is zero, no invalid free.",
 "P15": "names of elements and attributes, values and texts symbolic; oracle: the engine's memory model (bounds, lifetime, initialisation) and step bound.",
 "P16": "own stubs for file and parser; failure positions are solver variables; oracle: bytes seen by the parser, result.",
 "P17": "tree shape forked, names and text symbolic; oracle: harness's own tree.",
 "P18": "flags, numbers, names; oracle: field by field from the same variables.",
 "P19": "second loader's content, number of types/aliases; oracle: results unchanged, everything kept.",
 "P20": "browse names forked, targets symbolic; oracle: expected list.",
 "P21": "number of nodes is a solver variable; oracle: visit count per node.",
 "P22": "arguments symbolic; oracle: expected output text captured from stdout.",
 "P23": "element trees forked, text symbolic; oracle: expected callback sequence.",
 "P24": "call sequence forked by solver variables; oracle: memory model, counts.",
 "P26": "digits are solver variables behind concrete leading digits at each border; oracle: the number computed by the harness.",
 "P27": "text bytes are solver variables; oracle: an independent decoder in the harness.",
 "P28": "contents are solver variables, presence/order forked; oracle: part by part from the same variables.",
 "P25": "ids, targets, tables symbolic; oracle: single-file result computed by the harness.",
}
def prop(id, title, statement, over, text, why, files, mech, level_note, na=None, design=None):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level_note=level_note, na=na, design=design or DESIGN.get(id))

prop("P01", "Arena blocks are disjoint, zeroed and stay valid",
 "Every block the string arena hands out, whether freshly allocated or extended, starts zero filled, keeps what was written to it and never overlaps another live block, whatever the sequence and sizes of requests. Only the newest block may be extended, and extending keeps its previous content.",
 ["inputs", "histories"], "all request sequences (allocate, extend) and all sizes, for any initial region size",
 "The five allocator tests make a dozen fixed requests; overlap depends on how request sizes meet region borders over a whole history.",
 ["src/CharAllocator.c", "src/CharAllocator.h"], [("bump allocation, growth by doubling, extend-or-move", "src/CharAllocator.c")],
 "every sequence of up to 4 (thorough 5) requests with symbolic sizes 0..4 and regions 1..4 bytes; the code is uniform in the sizes beyond that")
prop("P02", "Arena survives huge sizes and failing allocations",
 "For any requested size up to the largest representable one, and whichever underlying memory allocations fail, the arena either returns a block of at least the requested size or reports failure. It never hands out a block that is smaller than requested and stays usable and destroyable after a failure.",
 ["inputs", "fault_sequences"], "all sizes, all initial sizes, every choice of failing allocations",
 "No test requests a huge size or makes an allocation fail; the overflow needs sizes next to the word size.",
 ["src/CharAllocator.c"], [("size computations and their guards", "src/CharAllocator.c")],
 "3 (thorough 4) requests, sizes within 2^16 of 0, 2^62, 2^63 and 2^64; allocations are modelled by their sizes")
prop("P03", "Sorted nodes come after everything they hierarchically depend on",
 "After sorting, every loaded node is handed out exactly once, in the list of its own node class, and after each loaded node that one of its hierarchical references makes its predecessor (the target of an inverse reference, the source of a forward reference). A node that declares no reference to a parent but a parent attribute comes after that parent.",
 ["inputs"], "all graphs of nodes, ids, reference directions, parent attributes and declaration orders",
 CORE5 + " The order depends on the whole graph and on the balancing of a tree keyed by node id.",
 ["src/Sort.c", "src/Nodeset.c", "src/nodes/NodeContainer.c", "src/NodesetLoader.c"],
 [("topological sort over an AVL tree of node ids", "src/Sort.c"), ("edges from hierarchical references and ParentNodeId", "src/Sort.c Sort_addNode")],
 "graphs of 2..4 nodes with symbolic ids and targets (any graph shape over them), 6..7 unrelated nodes for the id tree; ids are numeric")
prop("P04", "Cyclic hierarchies are rejected, acyclic ones never",
 "Sorting reports failure exactly when the hierarchical references and parent attributes of the loaded nodes form a cycle. It terminates in both cases.",
 ["inputs"], "all graphs of hierarchical references",
 CORE5 + " The one cyclic file that is tested is a single shape.",
 ["src/Sort.c", "src/NodesetLoader.c", "src/Nodeset.c"], [("loop detection when nodes remain after all sources are emitted", "src/Sort.c Sort_start")],
 "graphs of 2..3 nodes with symbolic ids and targets, including self references, references to absent nodes and duplicate edges")
prop("P05", "Of nodes with the same id the first one wins",
 "When several loaded nodes carry the same node id, the sorted result contains exactly the one that was declared first, with its own class and attributes, and every other id exactly once. Ids are the same only if namespace, identifier type and identifier all agree.",
 ["inputs"], "all combinations of ids (numeric and string), classes and declaration orders",
 CORE5 + " Whether duplicates are noticed depends on where they sit in the id tree.",
 ["src/Sort.c", "src/Nodeset.c"], [("search_node and the already-declared check", "src/Sort.c")],
 "3 (thorough 4) declarations with symbolic numeric or one-letter string ids; nodes whose references all have known types")
prop("P06", "Unresolvable reference types make sorting fail, nothing else does",
 "A node that references through a type the loader knows, or can learn from the loaded files in whatever order they declare it, is sorted normally. If some type can never be classified sorting terminates and reports failure.",
 ["inputs"], "all placements of custom reference types before, between or after their users and supertypes",
 CORE5 + " No test has a reference type without a known supertype.",
 ["src/NodesetLoader.c", "src/Nodeset.c", "src/InternalRefService.c"], [("nodes with unknown references are held back until sort", "src/NodesetLoader.c, src/Nodeset.c")],
 "2 custom types, symbolic supertypes and one user node at any position")
prop("P07", "Reference types are classified by their supertype",
 "Every built-in reference type, and every custom reference type that derives directly or over other custom types from one, counts as hierarchical exactly if it is a subtype of HierarchicalReferences. References are delivered in the hierarchical or the non-hierarchical list of their node accordingly.",
 ["inputs", "configurations"], "all built-in types, all derivations of custom types and positions of their users",
 CORE5 + " Two or three types of the standard are sampled by the files.",
 ["src/InternalRefService.c", "src/NodesetLoader.c", "src/Nodeset.c"], [("table of hierarchical types, extended while parsing", "src/InternalRefService.c")],
 "all built-in types with numeric ids 31..129; 2 (thorough 3) custom types; a subtype declared before its custom supertype is a known finding")
prop("P08", "Namespace indexes are translated everywhere they occur",
 "Each namespace URI of a file is announced once, in order, to the caller's callback with the caller's context, and every id and browse name that uses the n-th declared namespace carries the index the callback returned for it. Index 0 and indexes the file does not declare are left as written.",
 ["inputs", "configurations"], "all namespace tables, callback results and places where an index can be written",
 "The tests use files whose namespace order mostly matches the server's.",
 ["src/NamespaceList.c", "src/Nodeset.c", "src/NodesetLoader.c"], [("translateNodeId, translateBrowseName", "src/Nodeset.c"), ("namespace list", "src/NamespaceList.c")],
 "9 places of use, tables of 0..3 and 0..12 URIs, symbolic written and returned indexes")
prop("P09", "Aliases resolve to the id they were declared with",
 "Wherever an alias may be written in place of a node id (types and targets of references, data types of variables, variable types and fields), a declared alias name stands for the id declared with it (the first declaration of that name wins). Anything else is read as the written id, and a text that is neither an alias nor an id yields the null id.",
 ["inputs"], "all alias tables, names and places of use",
 CORE5 + " Aliases that are prefixes of each other, duplicated or unused need specific names.",
 ["src/AliasList.c", "src/Nodeset.c"], [("alias lookup before parsing an id", "src/Nodeset.c alias2Id"), ("alias table", "src/AliasList.c")],
 "2 (thorough 3) aliases with symbolic names of 1..2 letters, 6 places of use, numeric and string ids")
prop("P10", "Node attributes arrive as written, absent ones with defaults",
 "Each attribute of each node class reaches the resulting node with the value written in the file, independent of the order of the attributes, and an absent one has its documented default. Attributes unknown to the class change nothing.",
 ["inputs"], "all subsets, orders and values of the attributes of the eight node classes",
 CORE5 + " Tests check a few attributes of a few nodes in one order.",
 ["src/Nodeset.c", "src/NodesetLoader.c"], [("attribute tables with defaults", "src/Nodeset.c")],
 "all attributes, all but one, or one; 3 (thorough 8) orders; foreign attributes; symbolic values of 0..2 bytes")
prop("P11", "Text does not depend on how the parser delivers it",
 "Display names, descriptions, inverse names, references, alias targets, namespace URIs and value texts have the same content however the XML parser splits their characters into pieces, and nothing is lost or added at the border of an internal memory region.",
 ["schedules", "inputs"], "all texts, all ways to cut them into callbacks, all fill levels of the internal memory",
 "libxml2 chooses the cuts (buffer borders, entities); the test files are too short to hit many.",
 ["src/NodesetLoader.c", "src/CharAllocator.c", "src/Nodeset.c"], [("collecting characters in the arena until the end tag", "src/NodesetLoader.c OnCharacters")],
 "7 kinds of text of up to 4 (thorough 6) symbolic bytes, every cut; one region border swept over every offset")
prop("P12", "Unknown elements are skipped without side effects",
 "Elements the loader does not know, with everything nested in them and even when nested elements have known names, do not change what is loaded from the rest of the document.",
 ["inputs"], "all unknown subtrees at all positions between known elements",
 "The test files contain two or three unknown elements at harmless places.",
 ["src/NodesetLoader.c"], [("unknown state with depth counter and remembered previous state", "src/NodesetLoader.c enterUnknownState")],
 "7 shapes of unknown subtrees with symbolic names at each position of a document that uses every construct (before an element's text or between elements)")
prop("P13", "Every reference is kept exactly once, with its data",
 "Each reference written at a node appears exactly once at that node, with its type, its target and its direction, in the list its type belongs to. The type definition of objects and variables is available as such.",
 ["inputs"], "all lists of references of all node classes",
 "Tests count references of a few nodes.",
 ["src/Nodeset.c", "src/NodesetLoader.c", "src/nodes/Node.c"], [("Nodeset_newReference, Nodeset_newReferenceFinish", "src/Nodeset.c")],
 "3 (thorough 4) references of 5 kinds of types, both directions and symbolic targets, all node classes with 2")
prop("P14", "All memory is released exactly once",
 "Whatever was parsed, whether loading or sorting succeeded or failed and whether the document was complete, deleting the loader releases every block that was allocated on its behalf, none of them twice.",
 ["inputs", "histories", "crash_points"], "all documents, complete or broken off anywhere, sorted or not",
 "Leak checkers only see the paths of the fixed files; error paths and odd nestings are not among them.",
 ["src/NodesetLoader.c", "src/Nodeset.c", "src/nodes/Node.c", "src/nodes/DataTypeNode.c", "src/Value.c", "src/Sort.c", "src/AliasList.c", "src/NamespaceList.c"],
 [("delete functions of each class of object", "src/nodes, src/Nodeset.c, src/Value.c")],
 "25 contexts followed by every sequence of 1..2 (thorough 3) further events with symbolic names and attributes, cut off anywhere; every node class with every pair of 17 kinds of content")
prop("P15", "No well-formed document corrupts memory",
 "Loading, sorting and deleting never read or write outside allocated memory, never use freed or uninitialised memory and always terminate, for any well-formed sequence of elements, attributes and texts, also if the document breaks off.",
 ["inputs", "crash_points"], "all well-formed documents, meaningful or not",
 "Tests only load sensible documents.",
 ["src/NodesetLoader.c", "src/Nodeset.c", "src/Value.c", "src/nodes/DataTypeNode.c", "src/InternalRefService.c", "src/Sort.c"],
 [("state machine of the SAX callbacks", "src/NodesetLoader.c")],
 "25 contexts followed by every sequence of 1..2 (thorough 3) further events with symbolic names and attributes, cut off anywhere; every node class with every pair of 17 kinds of content")
prop("P16", "The file is read completely and its errors are reported",
 "A file of any length is passed to the XML parser completely, in order and exactly once, its end is announced, and importing reports success exactly if the file could be opened, the parser could be created and no parse error occurred at any point. File and parser are always closed.",
 ["inputs", "fault_sequences"], "all file lengths, all positions of a parse error, failures of opening and of creating the parser",
 "No test has a file that fails half-way or sits on a read buffer border.",
 ["src/Parser.c", "src/NodesetLoader.c"], [("push parser loop", "src/Parser.c Parser_run")],
 "11 lengths around the borders of the read buffer, an error at any byte (solver chosen)")
prop("P17", "Value trees mirror the XML of the value",
 "The value of a variable is delivered as a tree with one entry per XML element below the list and extension object wrappers, with its name, its children in order and its text as written (blank text counts as none), whatever the depth and even if element names coincide with markup of the nodeset itself.",
 ["inputs"], "all element trees and texts below a value",
 "A handful of values of the standard types is tested.",
 ["src/Value.c", "src/NodesetLoader.c"], [("context stack of the value parser", "src/Value.c")],
 "4 kinds of values, trees of depth 2 and width 2 and chains of depth 3 (thorough depth 3, width 2), 6 names, symbolic text of 1..3 bytes")
prop("P18", "Data type definitions are delivered as written",
 "The definition of a data type carries each field in order with its name, data type, value rank, numeric value and optional flag, and is marked as structure, union, enumeration or option set accordingly, with defaults for what is absent.",
 ["inputs"], "all definitions",
 "Tests compare a few definitions.",
 ["src/nodes/DataTypeNode.c", "src/Nodeset.c"], [("DataTypeNode_addDefinitionField and the Definition/Field attribute tables", "src/Nodeset.c")],
 "0..2 (thorough 3) fields of 4 forms with symbolic numbers and names, flags absent, true or false")
prop("P19", "Loaders are independent and have no hidden capacity limits",
 "Two loaders in one process never influence each other's results, and the number of aliases and custom reference types a file may declare is limited by memory only.",
 ["histories", "configurations"], "all interleavings of two loaders, all counts",
 "Every test uses one loader with small files.",
 ["src/InternalRefService.c", "src/AliasList.c", "src/NodesetLoader.c"], [("per-loader tables that grow", "src/InternalRefService.c, src/AliasList.c")],
 "two loaders, 0..2 custom types in the other one; 305 aliases and 112 custom types")
prop("P20", "Default binary encodings are found for exactly their data types",
 "The list of binary encoding relations delivered after loading contains exactly one entry per encoding reference of a node whose browse name is that of the default binary encoding, connecting the right source and target.",
 ["inputs"], "all nodes, browse names, reference types, directions and targets",
 "One file with encodings is tested.",
 ["src/Nodeset.c", "src/NodesetLoader.c"], [("Nodeset_newReferenceFinish, bidirectional reference list", "src/Nodeset.c")],
 "2 nodes, 6 browse names, 4 reference types, both directions, symbolic targets")
prop("P21", "Any number of nodes is kept and visited once",
 "Independent of their number, all nodes of a class are visited exactly once by the iteration over that class and counted correctly, across every growth of the internal lists.",
 ["inputs"], "all numbers of nodes per class",
 "The large standard nodeset is one number per class and only counted.",
 ["src/nodes/NodeContainer.c", "src/NodesetLoader.c", "src/Nodeset.c"], [("growing node containers", "src/nodes/NodeContainer.c")],
 "counts around each initial capacity and its first doubling, solver-chosen")
prop("P22", "The default logger prints the formatted message at its level",
 "A loader that is given no logger prints each of its messages with the severity prefix and with the arguments substituted into the format. A logger the caller provides gets every message and is not touched otherwise.",
 ["inputs", "configurations"], "all levels, formats, arguments and failing calls",
 "No stable test looks at log output.",
 ["src/PrintfLogger.c", "src/NodesetLoader.c", "src/InternalLogger.h"], [("vprintf over the variadic arguments", "src/PrintfLogger.c")],
 "3 levels, 5 formats with symbolic integer, string and character arguments")
prop("P23", "Extensions are handed to the caller's callbacks faithfully",
 "For every extension of a node the caller's callbacks receive start, one start and end per nested element with name and text in document order, and finish, in properly nested order and with the values the caller returned, even when nested elements are named like markup of the nodeset.",
 ["inputs"], "all extension contents",
 "One extension in one file is tested.",
 ["src/NodesetLoader.c", "include/NodesetLoader/Extension.h"], [("extension state of the SAX callbacks", "src/NodesetLoader.c")],
 "1..2 extensions, element trees of depth 3 with names that occur as markup, symbolic text")
prop("P24", "Any order of API calls is safe",
 "Import, sort, iteration, query of encodings and deletion may be called in any order and repeatedly, also before anything was imported and after a failure, without crash, and nodes delivered once are not delivered twice to the same class.",
 ["histories"], "all sequences of API calls",
 "Tests call the functions once in the intended order.",
 ["src/NodesetLoader.c", "src/Nodeset.c", "src/Sort.c"], [("lazy creation of the node set, sort state", "src/NodesetLoader.c, src/Sort.c")],
 "every sequence of 3 (thorough 4) of 11 calls")
prop("P25", "Several files load like one, each with its own tables",
 "When several files are imported into one loader, each file's namespace indexes and aliases are interpreted by that file's own tables, and sorting after any of the files yields the nodes of all files so far, with references across files resolved as if they had been in one file.",
 ["histories", "inputs"], "all pairs of files and points at which sorting happens",
 "One test imports two files with fixed content.",
 ["src/NodesetLoader.c", "src/Nodeset.c", "src/NamespaceList.c", "src/AliasList.c", "src/Sort.c"], [("per-file tables and incremental sort", "src/NodesetLoader.c NodesetLoader_importFile")],
 "two files with equal or swapped tables; three nodes over three files with symbolic ids and targets, sorted after any of them; a reference type and its users spread over three files")
# ---- open62541 backend ----
prop("P26", "Numbers, booleans and texts in values arrive unchanged",
 "The value a variable has at the server after loading is the one written in the nodeset, for every Boolean, integer (over the full range of its type), floating point number and text, as scalar and as array element; an element without text gives zero or the empty text.",
 ["inputs"], "all values of the scalar built-in types, as scalar or in arrays",
 "Integration tests compare a few small numbers.",
 ["backends/open62541/src/Value.c", "backends/open62541/src/import.c", "backends/open62541/src/conversion.h"], [("conversion table from text to typed memory", "backends/open62541/src/Value.c")],
 "numbers with up to 4 symbolic digits or 3 behind the leading digits of each power of two that bounds a type; texts of up to 6 arbitrary bytes; floating point: 6 concrete texts")
prop("P27", "ByteString values are base64 decoded exactly",
 "A ByteString value is the decoding of its base64 text; text that is not complete, correct base64 never leads to invented bytes or memory errors.",
 ["inputs"], "all texts in ByteString values",
 "One short text is tested.",
 ["backends/open62541/src/nodeset_base64.h", "backends/open62541/src/Value.c"], [("unbase64", "backends/open62541/src/nodeset_base64.h")],
 "all texts of up to 2 (thorough 3) bytes; texts of 4, 7, 8 (thorough 12) characters with symbolic characters of one class, all paddings and one arbitrary byte anywhere")
prop("P28", "Values of structured built-in types arrive with all their parts",
 "LocalizedText, QualifiedName, NodeId, Guid, StatusCode and DateTime values arrive with the parts that are written, whatever their order, with namespace indexes translated to the server's; absent parts are null, and values without conversion are null. No form of the XML makes the import fail.",
 ["inputs"], "all values of the structured built-in types",
 "Integration tests use complete, well-formed values only.",
 ["backends/open62541/src/Value.c", "backends/open62541/src/ServerContext.c", "backends/open62541/src/conversion.h"], [("setLocalizedText, setQualifiedName, setNodeId, setGuid, setDateTime", "backends/open62541/src/Value.c")],
 "each part present, empty, absent or of another shape, both orders, scalar and second array element, three namespaces, symbolic digits and characters; the calendar is a linear stand-in")
prop("P29", "Enumeration values arrive as their number",
 "A value of an enumeration type, whether written as symbol_value or as the bare number, arrives at the server as that number in a value of the enumeration type, for every symbol (underscores included), for own, derived and standard enumerations, scalar and array; an element without text gives 0.",
 ["inputs"], "all symbols and numbers",
 "One enumeration with two simple symbols is tested.",
 ["backends/open62541/src/Value.c", "backends/open62541/src/DataTypeImporter.c"], [("getEnumValuePos, setPrimitiveValue", "backends/open62541/src/Value.c")],
 "symbols and numbers of up to 3 (thorough 4) symbolic characters, both signs",
 design="symbol characters and digits are solver variables; oracle: the number computed from the same variables.")
prop("P30", "Structure values arrive with every member in its place",
 "In a value of a structure type every member that is written arrives at its place in the structure's layout with the written content, independent of the order in which members are written, and every member that is not written or empty is zero; this holds for scalar, array, nested structure, union and enumeration members, for inherited members, and for every element of an array of structures.",
 ["inputs"], "all structure types and values",
 "Integration tests use a handful of fixed types, always complete values in order.",
 ["backends/open62541/src/Value.c", "src/Value.c", "backends/open62541/src/import.c"], [("setStructure, setArray: offset arithmetic", "backends/open62541/src/Value.c")],
 "two members, 9 (thorough: all pairs of 12) forms of members, each written, empty or absent, both orders, scalar or second element of an array, member inherited; symbolic contents",
 design="contents are solver variables, shape forked; oracle: the harness walks the layout the type declares and compares each member.")
prop("P31", "Optional members and unions arrive as written",
 "In values of structures with optional fields an optional member is present exactly if it is written, with its content; in values of unions exactly the field selected by the switch field is set, for scalar, structure and array fields. A switch field of 0, beyond the fields, or missing gives the null union.",
 ["inputs"], "all values of structures with optional fields and of unions",
 "Unions are tested with two fixed values, optional members not at all.",
 ["backends/open62541/src/Value.c"], [("setUnion, optional branch of setStructure", "backends/open62541/src/Value.c")],
 "as P30 with optional numbers, texts and structures, unions with 4 fields and switch field 0..5",
 design="as P30, with pointers for optional members and the switch field.")
prop("P32", "Imported structures and unions are laid out like in C",
 "The memory layout registered for an imported structure or union (size, place of each member, whether it contains pointers) is the one a C compiler gives the corresponding struct, so applications can use generated or hand written C types with it: for every combination of member types, arrays, optional members, inherited members, and types declared later in the file.",
 ["inputs", "configurations"], "all structure and union definitions",
 "Integration tests check the layout of a few types whose members all have the same alignment.",
 ["backends/open62541/src/DataTypeImporter.c", "backends/open62541/src/padding.h"], [("padding and size computation, order of initialisation", "backends/open62541/src/DataTypeImporter.c, padding.h")],
 "structures and unions of 1..2 (thorough 3) members of every builtin type and of custom structures, unions, enumerations, arrays, optional members",
 design="member types are solver variables; oracle: sizeof/alignof/offset rules evaluated by the harness on C types.")
prop("P33", "Data types of a nodeset are known to the server as declared",
 "After loading, every data type of the nodeset is registered with its id, name, id of its binary encoding, kind (structure, structure with optional fields, union, enumeration, or that of the built-in type it is derived from), and its members in order behind the inherited ones, each with name, type, array and optional flag; members of abstract types are variants. The registration does not depend on the order of types in the file and stays valid after the loader is gone.",
 ["inputs"], "all data types, supertypes, definitions, numeric and string ids, encodings",
 "Integration tests look at a few types with numeric ids.",
 ["backends/open62541/src/DataTypeImporter.c", "backends/open62541/src/import.c", "backends/open62541/src/customDataType.c"], [("DataTypeImporter_addCustomDataType, initMembers", "backends/open62541/src/DataTypeImporter.c"), ("getParentType: mapping to the representing built-in type", "backends/open62541/src/import.c")],
 "two types, 9 kinds of supertypes, symbolic built-in supertypes and member types, second type derived from or using the first, numeric or string ids, 0..2 encodings declared before or after",
 design="type ids are solver variables, shapes forked; oracle: expected description built by the harness.")
prop("P34", "Any data type definition can be loaded safely",
 "Definitions that cannot be represented (unknown member types, a structure containing itself directly or through others, a type that is its own supertype, more than 255 members), empty ones, and any number of types, with or without types the application registered itself, never hang or crash the import, do not disturb other types and values, and never touch the application's own arrays.",
 ["inputs", "histories"], "all definitions and numbers of data types",
 "No test contains such definitions.",
 ["backends/open62541/src/DataTypeImporter.c", "backends/open62541/src/import.c", "backends/open62541/src/customDataType.c"], [("dependency resolution, capacity of the type array", "backends/open62541/src/DataTypeImporter.c")],
 "two types with every combination of unknown, own and other's member types, scalar, array, optional, with values; 254..257 members, also with 200 inherited ones; up to 103 types",
 design="shapes and counts forked by solver variables; oracle: memory model, step bound, unaffected neighbour types and values.")
prop("P35", "Nodes have the attributes of the nodeset at the server",
 "Every node is created at the server with the node id, browse name, display name, description, inverse name, abstract, symmetric, executable and historizing flags, event notifier, access levels, value rank, array dimensions, data type and sampling interval that are written in the nodeset, with the defaults of the specification for those that are not, for every node class.",
 ["inputs"], "all attribute values of all eight node classes",
 "Integration tests read a few attributes with common values.",
 ["backends/open62541/src/import.c", "backends/open62541/src/conversion.h", "src/Nodeset.c"], [("handle*Node functions and their default values", "backends/open62541/src/import.c")],
 "8 classes; symbolic names and locales, 5 spellings of booleans, numbers 0..255, ranks -3..3, 0..3 dimensions up to 2^32-1",
 design="texts and numbers are solver variables, presence is forked; oracle: attribute by attribute comparison with what the harness wrote, at the server model. WriteMask and the Value of a VariableType are not transferred by the loader and not claimed.")
prop("P36", "Nodes are added below a parent the nodeset declares",
 "Every node is added to the server below one of the parents its nodeset names, with the type of the reference that leads to that parent: the one named by ParentNodeId if it is usable, below the supertype for types; if only ParentNodeId is given, with the type of the parent's forward reference, wherever in the file it is. Objects and variables get the type definition written and none otherwise, so that the server picks its default.",
 ["inputs"], "all combinations of ParentNodeId, inverse and forward references and positions in the file",
 "Integration tests contain nodes with one parent, declared in the common way only.",
 ["backends/open62541/src/import.c", "src/Sort.c", "backends/open62541/src/RefServiceImpl.c"], [("getParentId, getHierachicalInverseReference", "backends/open62541/src/import.c"), ("reference to a parent taken from ParentNodeId", "src/Sort.c")],
 "4 classes; 0..2 inverse references of 4 types to 3 nodes, ParentNodeId or not, forward reference of the parent, both orders in the file; type definition absent, standard or own",
 design="choices are solver variables; oracle: the set of declarations the harness wrote (reference of the added node must be one of them, ParentNodeId preferred).")
prop("P37", "All references of the nodeset exist at the server",
 "After loading, the server has every reference the nodeset declares between existing nodes, of the declared type and in the declared direction, whatever the type (standard or own, hierarchical or not, declared before or after its use), the classes of the nodes and the side it is written on, and it has no reference the nodeset does not declare.",
 ["inputs"], "all references",
 "Integration tests browse a few nodes and only look for presence.",
 ["backends/open62541/src/import.c", "src/Nodeset.c", "src/Sort.c"], [("addNonHierachicalRefs, addHierachicalRefs, addRefs", "backends/open62541/src/import.c")],
 "a node of any class with two further references of 6 types in both directions, symbolic numeric or string targets; encodings written on one or both sides",
 design="types, directions and targets are solver variables; oracle: reference set of the server model against the declared set, both inclusions.")
prop("P38", "Reference types are classified by the whole type hierarchy",
 "Whether a reference makes a node the child of another, gives its type definition, or is an ordinary one is decided by the place of its reference type below HierarchicalReferences or HasTypeDefinition, equally for standard types, types the server already has (of the application or of earlier files, in any depth and number) and types of the file itself declared before or behind their use.",
 ["inputs", "histories"], "all hierarchies of reference types, divided over server and files",
 "Integration tests use one custom hierarchical type directly below a standard one.",
 ["backends/open62541/src/RefServiceImpl.c", "src/Nodeset.c"], [("browsing of the server's hierarchy, addnewRefType", "backends/open62541/src/RefServiceImpl.c"), ("lookupUnknownReferences", "src/Nodeset.c")],
 "chains of up to 3 own types below 7 standard ones, divided over server, earlier file and file; 0 or (thorough) 101 sibling types; supertypes are declared in front of subtypes (see finding P07-supertype-after-subtype)",
 design="position and the type used are solver variables; oracle: the harness knows below which standard type the chain hangs; observed as parent, type definition or reference at the server.")
prop("P39", "Namespace indexes at the server are the server's",
 "Every namespace index that reaches the server (in node ids, browse names, parents, reference types, type definitions, data types and values) is the index the server assigned to the Uri the file's own table has at that place, for every file, also if tables differ between files, name a Uri twice or contain an empty one.",
 ["inputs", "histories"], "all namespace tables and indexes the server may assign",
 "Integration tests use one or two namespaces, registered in the order of the file.",
 ["backends/open62541/src/ServerContext.c", "backends/open62541/src/import.c", "src/NamespaceList.c", "src/Nodeset.c"], [("ServerContext_translateToServerIdx, NodesetLoader_BackendOpen62541_addNamespace", "backends/open62541/src/ServerContext.c, import.c")],
 "one or two files, 8 tables of 1..4 entries, symbolic indexes in the file and at the server, numeric and string ids",
 design="file indexes and server indexes are solver variables; oracle: table lookup in the harness.")
prop("P40", "A failed load is reported and changes nothing",
 "Loading returns false and adds no node, reference or data type if server or path is missing, the file cannot be opened or is malformed or cut off, its hierarchy is cyclic or it uses an unknown reference type; the reason is logged as error in the server's log, everything is released, and other files can be loaded before and after with their usual result.",
 ["inputs", "fault_sequences", "histories"], "all sequences of successful and failing loads",
 "Integration tests load one missing file.",
 ["backends/open62541/src/import.c", "src/NodesetLoader.c", "src/Parser.c"], [("NodesetLoader_loadFile", "backends/open62541/src/import.c")],
 "all pairs (thorough: triples) of 8 kinds of loads, two places of each fault, symbolic ids",
 design="kinds and ids are solver variables; oracle: number of nodes, references, calls and log entries at the server model before and after.")
prop("P41", "Nodes the server refuses at first are added later, once",
 "A node that cannot be added when its turn comes, because its parent is of a class that is added later or the server refuses it for a reason of its own, is added as soon as the server takes it (within ten attempts), exactly once, with parent, value and references, whatever the number of refused nodes; other nodes are not affected.",
 ["histories", "fault_sequences"], "all chains of parents over node classes and all patterns of refusals",
 "One integration test has one node that needs a second attempt.",
 ["backends/open62541/src/import.c", "src/nodes/NodeContainer.c"], [("secondChanceAddNodes", "backends/open62541/src/import.c")],
 "chains of 6 (thorough 10) objects and variables in both file orders; two nodes refused 0..10 times; 98..103 refused nodes",
 design="classes and numbers of refusals are solver variables; oracle: the server model's record of calls.")
prop("P42", "Data types of earlier nodesets are usable and stay valid",
 "A later nodeset can use the data types of an earlier one as type of values and of members (scalar, array, optional), as supertype, enumeration or union, whatever its namespace table; types and values loaded before keep their descriptions unchanged, also if the same types are loaded again, and cleaning up releases the types of all nodesets.",
 ["histories", "inputs"], "all uses of types across files",
 "One integration test loads two files with one structure.",
 ["backends/open62541/src/import.c", "backends/open62541/src/DataTypeImporter.c", "backends/open62541/src/customDataType.c", "backends/open62541/src/Value.c"], [("chain of type arrays, findCustomDataType", "backends/open62541/src/customDataType.c, DataTypeImporter.c")],
 "two or three files, 8 roles, equal or swapped namespace tables, numeric or string ids, symbolic contents",
 design="contents are solver variables, roles and tables forked; oracle: values and descriptions built by the harness.")
prop("P43", "Loading values into a server is memory safe whatever their XML looks like",
 "However the XML of a variable's value differs from its data type — elements left out, repeated, renamed, empty, with children in place of text or text in place of children, in members that are structures, unions, arrays, optional or built-in types — the file is loaded, the variable and the ones behind it are added once, and no memory is corrupted or left behind after loading and closing the server.",
 ["inputs"], "all values that do not match their type",
 "The integration tests load values that match.",
 ["backends/open62541/src/Value.c", "backends/open62541/src/import.c", "src/Value.c"], [("setStructure, setUnion, setArray, RawData", "backends/open62541/src/Value.c")],
 "two structures of 8 members of all representations (about 75 elements), one of 9 changes at any element, new names of 8, two arbitrary bytes of text; thorough: also in arrays",
 design="place and kind of the change are solver variables, text bytes symbolic; oracle: bounds and lifetime of every memory access in the engine, leak count zero after the server's types are freed, both variables added once, the next value exact.")
prop("P44", "The demo program prints what is in its files",
 "parserDemo prints every node of the nodeset files it is given once, with node id, browse name, display name, the attributes it lists (parent, event notifier, data type, value rank, array dimensions, sampling interval) and every reference other than to its type definition as they are in the files; namespaces are told apart by their Uri across files, ids of any length do no harm, and a file that is missing, malformed, has unknown reference types or cannot be sorted ends the program with a message and a status other than zero.",
 ["inputs", "histories"], "all files and their combinations",
 "The program has no test.",
 ["backends/stdout/examples/main.c", "backends/stdout/examples/dump.c"], [("main, dumpNode, addNamespace", "backends/stdout/examples/main.c, dump.c")],
 "one or two files, a node of each class with two or four references, numeric and string ids up to 264 characters, malformed and missing files; symbolic names and attributes; outside the four known findings one namespace, no extensions, no array dimensions and sortable files",
 design="names and attribute values are solver variables, the rest forked; main is renamed and called by the harness, standard output is captured; oracle: the lines expected, wherever they are inside the node's block.")
prop("P45", "Loading any nodeset into a server is memory safe and ends",
 "Whatever a well-formed nodeset says - elements or attributes left out, repeated, renamed or with any text, ids that are malformed, unknown, of the wrong kind or used twice, types that refer to each other in any way - loading it into a server ends with success or failure, no memory is corrupted, every data type the server is given has complete members that lie inside its memory, and after closing the server nothing is left behind.",
 ["inputs"], "all documents",
 "The integration tests load a few dozen correct files.",
 ["backends/open62541/src/import.c", "backends/open62541/src/DataTypeImporter.c", "backends/open62541/src/Value.c", "backends/open62541/src/RefServiceImpl.c", "backends/open62541/src/customDataType.c", "src/NodesetLoader.c", "src/Nodeset.c"], [("NodesetLoader_loadFile", "backends/open62541/src/import.c")],
 "a document with every node class (about 80 elements and 110 attributes) and one change at any place, text of up to one or two arbitrary bytes or 13 other ids, numbers and lists",
 design="place and kind of the change are forked, text bytes symbolic; oracle: bounds, lifetime and initialisation of every memory access in the engine, an end within the instruction limit, leak count zero.")

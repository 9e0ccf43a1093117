FIX = [
 ("64 bit and large unsigned", "P26"), ("values whose elements do not have", "P28"), ("enumeration values whose symbol", "P29"),
 ("members that follow an absent", "P30"), ("fractions of a second", "P28"), ("values of structures with optional", "P31"),
 ("union values with a wrong", "P31"), ("incomplete base64", "P27"), ("a value of a type without conversion", "P28"),
 ('booleans written as "1" arrive', "P26"),
 ('members of an abstract type written', "P33"), ("subtypes of Number, Integer", "P34"), ("structure members of type DataValue", "P32"),
 ("imported structures and unions are not laid", "P32"), ("structures with unknown members", "P34"), ("structures with an empty definition", "P34"),
 ("structures with more than 255", "P34"), ("subtypes of structures with optional", "P33"), ("ids of data types with string", "P33"),
 ("data types are written beyond", "P34"), ("a reference type that is its own supertype", "P38"), ("only 100 direct subtypes", "P38"),
 ("data types with a string NodeId as parent", "P33"), ("encodings of data types are referenced", "P37"), ("array dimensions of variable types", "P35"),
 ("nodes with several parents", "P36"), ("reference types lose their IsAbstract", "P35"), ("ParentNodeId in front of the parent", "P36"),
 ("array dimensions above", "P35"), ("variable types of other value ranks", "P35"),
 ("a value element behind a list", "P43"), ("a data type field without name", "P45"), ("an empty Uri in the namespace", "P39"), ("type definitions by a reference type that is declared later", "P38"), ("references derived from References directly", "P38"), ("ParentNodeId of nodes with forward", "P03"), ("nodes are added with the type of a reference", "P36"),
]
# repaired once, but the files are examples, which are left as they are
KNOWN = [
 dict(id="P44-extensions", property="P44", what="parserDemo leaves the extension interface of its file context uninitialised: a node with an Extensions element makes it call through garbage (main.c, handler)"),
 dict(id="P44-dimensions", property="P44", what="parserDemo prints the value rank as array dimensions of a variable (dump.c, dumpNode)"),
 dict(id="P44-namespaces", property="P44", what="parserDemo gives all namespaces index 1: nodes of different namespaces look alike and those with equal ids get lost (dump.c, addNamespace)"),
 dict(id="P44-unsorted", property="P44", what="parserDemo ignores that nodes cannot be sorted: it prints nothing and reports success for cycles and unknown reference types (main.c, NodesetLoader_sort)"),
]

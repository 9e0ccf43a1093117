#!/usr/bin/env python3
"""rewrites known_findings.json: known findings, and the fix commits of /repo (not run by any check)"""
import json, subprocess, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = [  # subject prefix -> property
 ('booleans written as "1" are taken', "P18"), ("sorting again or importing", "P24"), ("ParentNodeId contradicting", "P04"), ("namespace indices of a second file", "P25"),
 ("browse names containing a colon", "P10"), ("default logger prints", "P22"), ("using a loader before", "P24"), ("truncated documents", "P16"),
 ("a node with only a ParentNodeId", "P03"), ("reference types with references of unknown", "P06"), ("HasChild, HasOrderedComponent", "P07"),
 ("hierarchical reference types overflow", "P19"), ("an element named Extension", "P23"), ("value elements in unexpected", "P15"),
 ("surplus values and the node", "P14"), ("nodes that are never emitted", "P14"), ("strings of NodeIds owned", "P14"), ("Definition element on a node", "P15"),
 ("new data type fields are left", "P18"), ("HasEncoding reference on a node without", "P20"), ("aliases of string NodeIds", "P14"),
 ("an alias element without", "P09"), ("a nodeset with more than 300", "P19"), ("arena size computations", "P02"),
 ("the first declaration of an id is kept", "P05"),
]
try:
    import fixmap_backend; FIX += fixmap_backend.FIX
except ImportError: pass
known = [dict(id="P07-supertype-after-subtype", property="P07",
  what="a custom reference type that is declared before its custom hierarchical supertype is classified as non-hierarchical (subtype first in the file, HasSubtype reference inverse at the subtype)")]
try:
    import fixmap_backend; known += fixmap_backend.KNOWN
except (ImportError, AttributeError): pass
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], capture_output=True, text=True).stdout.splitlines()]
fixed = []
for h, s in log:
    s = s[5:]
    if s.startswith("parserDemo "): continue   # reverted
    p = [q for k, q in FIX if s.startswith(k)]
    assert p, s
    fixed.append("fixed: property=%s %s %s" % (p[0], h, s))
json.dump(dict(known=known, fixed=fixed), open(H + "/known_findings.json", "w"), indent=1)
print(len(fixed))

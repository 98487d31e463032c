#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md (between the markers) from the properties, the checks, the findings and the planted bugs."""
import glob, json, os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "tools"))
import checks
ORACLE = {
"P01": "plain slicing and naive search on the flat text; every source type is built from every division of the text",
"P02": "an index into the flat text, moved by the scalar definition of each cursor operation",
"P03": "splicing on byte vectors; the reported region must cover every changed byte, with the rest equal on both sides",
"P04": "a byte loop per scan; the vector code is executed as SSE2 IR (the AVX2 variants are unreachable: cpuid reports none)",
"P05": "scanner definitions over byte slices (string, nested and plain comment, identifier, number, blanks); tokens, position and return value are compared",
"P06": "spans: first at 0, contiguous, non-empty except the end token, on character boundaries, last at the end of the text",
"P07": "lexing the edited text from scratch with a fresh session; whole token lists are compared",
"P08": "an independent recogniser over the token kinds decides validity; leaves are compared with the lexed tokens one by one",
"P09": "parsing the edited text from scratch with a fresh session; trees (kinds, lengths, nesting) and diagnostics (kind, offset) are compared",
"P10": "a model of the parser state (token index, sink, errors) as plain vectors; a failed speculation must equal never having run it",
"P11": "a reference climbing parser that brackets by precedence and associativity; trees are compared as bracketings",
"P12": "a recursive walk of the model tree: preorder, offsets, leaf at offset, parents, siblings, cursor moves",
"P13": "structural equality of the copy with the model it was built from, and disjointness from the source arena (which is dropped first)",
"P14": "every block is filled and re-read after all others; exact byte accounting of the global allocator between two runs of the same sequence",
"P15": "a record of the last committed tree; reading it after any sequence must give its content (freed memory is a memory violation in the engine)",
"P16": "scalar definition: count line breaks and UTF-16 units up to the offset, and back",
"P17": "a map from normalised paths to contents",
"P18": "a map from file to its latest symbols; every query is answered by filtering it",
"P19": "a walk of the model tree listing symbols, containers, ranges and name occurrences",
"P20": "a reference renderer of the snippet (line, column, gutter, carets) over characters; positions by the scalar definition of P16; HTML is unescaped and compared",
"P21": "an unescaping reader that rejects anything not well formed; serde_json for the JSON exports, read field by field",
"P22": "concatenation of the segments against the source; style lookup by trying every dotted prefix",
"P23": "a reference printer working on character counts, one pass, with the documented group rule",
"P24": "the value that was written; strings are compared character by character",
"P25": "a walk of the model tree filtered by role and byte length",
"P26": "transitive closure, degree sums and depth by definition; overlap tests on every pair of rectangles",
"P27": "a table of what each line is (request, notification, malformed) and what reply is due; replies are parsed with serde_json",
"P29": "a list of folders; containment by path components; module search over the set of existing files (the existence test `statx` is a stand-in)",
"P30": "a reference editor over character vectors; the screen is read back by interpreting the control sequences written (keys and screen are stood in for by a guarded hook)",
"P31": "a reference rule selection that builds the document and renders it with the printer of P23; filters over the list of comments",
"P32": "the definitions of containment, intersection, union and matrix application written out",
"P34": "a list of names and contents, and the rule by which a write changes it",
"P36": "the fields the error was built from; the report of the translated message",
"P37": "a small model of a parser: a list of tokens, a position, a list of tree parts, a list of errors",
"P35": "the same documents, rules and values built by hand",
"P33": "the value that was written, field by field",
}
seeds = {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m["needs"]))
known = [l.strip() for l in open(V + "/known_findings.txt") if l[0] != "#"]
o = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    o.append("### %s %s" % (i, p["title"]))
    if i not in checks.CHECKS:
        o.append("Not applicable: " + checks.NOT_APPLICABLE.get(i, "") + "\n")
        continue
    c = checks.CHECKS[i]
    o.append("Oracle: %s.\n" % ORACLE.get(i, "see the harness"))
    for x in c["harnesses"]:
        o.append("- `%s/%s`: %s" % (x["crate"], x["name"], x["bound"]))
    o.append("\nOutside: %s." % c["outside"])
    for k in known:
        m = re.match(r"(fixed|finding): property=(\S+) (\S+) (.*)", k)
        if m and m.group(2) == i:
            o.append(("Repaired (%s): %s." if m.group(1) == "fixed" else "Known finding (`%s`): %s.") % (m.group(3).replace("harness=", ""), m.group(4)))
    for n, w in seeds.get(i, []):
        o.append("Planted: `%s` (needs %s)." % (n, w.rstrip(".")))
    o.append("")
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- properties -->", "<!-- end properties -->"
s = s[: s.index(a) + len(a)] + "\n" + "\n".join(o) + s[s.index(b):]
open(p, "w").write(s)

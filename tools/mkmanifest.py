"""Regenerates MANIFEST.json from the table below (kept here so that properties.jsonl and the claims stay in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TXT = 'Text templates with undetermined bytes (about 720 in the quick tier); each path stands for the whole product of its byte classes; texts outside the templates are not covered. What the domain cannot express is undecided, never reported.'
CLAIMS = {
 'P01': ('byte-class partitioned abstract interpretation against a reference reading of RFC 8259', TXT),
 'P02': ('byte-class partitioned abstract interpretation with bounds obligations at every access', TXT),
 'P03': ('byte-class partitioned abstract interpretation against a reference reading of RFC 8259', TXT),
 'P04': ('byte-class partitioned abstract interpretation against a reference reading of RFC 8259', TXT),
 'P10': ('byte-class partitioned abstract interpretation of parsing and writing, the written bytes read back by the reference', TXT),
 'P18': ('byte-class partitioned abstract interpretation against a reference reading of RFC 8259', TXT),
 'P27': ('byte-class partitioned abstract interpretation with a progress bound on every path', TXT + ' Also lives of documents with files that end early, full devices and short transfers, and container operations.'),
 'P11': ('relational abstract interpretation of the write path', 'Every path of the writing code from the harness is followed with symbolic block sizes and results of write; violations are reported only on paths analysed without approximation, what the domain cannot decide is listed as undecided in the evidence.'),
 'P12': ('relational abstract interpretation of the read path', 'Every path of parsing a file is followed with symbolic file size and results of open, fstat and read; violations are reported only on exact paths.'),
 'P13': ('typestate analysis of descriptors inside a relational abstract interpretation', 'Every path of Parse(file) and Write from entry to return or exception.'),
 'P14': ('case-splitting abstract interpretation of the access functions', 'Every pair of asked and held kind, every accessor and lookup; exact on the current tree.'),
 'P15': ('abstract interpretation over lazily decided documents against a reference', 'Every documented type; containers up to 3 elements (1 inside others of these), all kinds and absences; deviations on approximated paths are undecided.'),
 'P16': ('abstract interpretation of two operations against one reference', 'As P15; a deviation of only one of the two operations is a violation.'),
 'P17': ('abstract interpretation of serializing with comparison of the built values', 'As P15; every allocation may fail.'),
 'P05': ('abstract interpretation of the parse entry with the value parser as a nondeterministic stub', 'Every placement of newlines, blanks and other bytes up to the bound, every stopping place and status of the value parser; the position inside a value is the one the value parser leaves in the cursor.'),
 'P07': ('abstract interpretation of the held document over one call from every prior state', 'Parse (buffer and file), SerializeFrom, Write, DeserializeTo and Validate from the states with and without a document; every sequence follows by induction over one call.'),
 'P06': ('conditional constant propagation through the message conversion', 'Decided for every enumerator of the public enumeration; a conversion that is not a table or switch over constants is reported as undecided.'),
 'P08': ('exception-flow fixpoint over the call graph and def-use tracking of the failure status', 'Covers every allocation reachable from the instantiated public operations; which status arrives is followed through locals and returns, not through other memory.'),
 'P20': ('interprocedural modification (pointer-derivation) analysis', 'Context- and field-sensitive, flow-insensitive; virtual calls go to every candidate of the same shape.'),
 'P25': ('call-graph cycle analysis with affine depth arguments and dominating guards', 'The parser cycles are bounded by a constant and the bound times unoptimised frame sizes fits the stack; cycles over the finished document are bounded by its nesting.'),
 'P09': ('heap-block typestate in an abstract interpretation of whole lives of a document', 'Lives of a document and of objects of every documented shape in the listed orders, one failing allocation or file operation on a path (two in part of the thorough tier).'),
 'P21': ('abstract interpretation of one operation from every height-balanced shape against a reference map', 'Every shape up to 9 elements (12 thorough), every position, pairs of operations, elements taken over from another map; longer histories by induction as far as the shapes reach.'),
 'P22': ('element-slot typestate in an abstract interpretation of one operation from every state', 'Every length up to 9 (13 thorough), every position, arguments that are elements of the array itself, one failing allocation or element construction on a path; elements move without throwing.'),
 'P23': ('abstract interpretation of one string operation with undetermined characters against a reference', 'Lengths around every change of storage, six ways to reach each, one failing allocation on a path.'),
 'P19': ('effect analysis over the whole-program call graph (LLVM IR)', 'Exact for direct stores and calls; indirect calls over-approximated by arity. Assumes libc is thread-safe where POSIX says so.'),
 'P24': ('compile-pass and compile-fail witnesses', 'Decides the listed type shapes and configurations with clang and gcc; other shapes are not instantiated.'),
 'P26': ('call-graph reachability of locale-dependent conversions', 'Two known findings (strtod, snprintf) are listed; any other locale-dependent call is reported.'),
}
NA = {
 'P28': 'Accuracy of decimal conversion is a numerical property of the C library functions called; no static argument over this repository bounds it. The structural clause (format with 17 significant digits, conversion of exactly the token) is part of P10 and P04.',
 'P29': 'Running time is a quantitative runtime property; the analyses here bound neither allocator nor container cost.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
pending = 'Not claimed: no static check is in place for it yet.'
m = dict(version=1, setup_cmd='python3 check.py --setup',
  checks=[dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p, technique=t, level='other', level_note=n) for p, (t, n) in sorted(CLAIMS.items())],
  not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], pending)) for p in props if p['id'] not in CLAIMS],
  notes='No hooks in /repo. Static analysis only: every check reads /repo\'s current sources and decides from LLVM IR, the call graph or compiler verdicts; nothing of the library is executed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

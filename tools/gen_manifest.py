#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules that exist."""
import json, os, sys, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'numeric abstract interpretation (linear inequalities, loop invariants) of LLVM IR: every load bounded by its view',
 'C02': 'numeric abstract interpretation of LLVM IR: every store bounded by its view, with layout facts',
 'C03': 'numeric abstract interpretation of LLVM IR (linear inequalities, inferred loop invariants), linked by contracts proved at call sites',
 'C04': 'numeric abstract interpretation: output of every codec object within the declared bound, size formulas compared symbolically',
 'C05': 'conditional constant propagation of the codec factories over the finite configuration space, comparison of abstract object lists',
 'C06': 'effect analysis: members written by processing methods vs members re-initialised by reset, call-order dataflow',
 'C07': 'may-happen-in-parallel analysis: product of the synchronisation automata of the two threads extracted from LLVM IR (with unwind edges), access sets of concurrent segments intersected',
 'C08': 'typestate over the product of the synchronisation automata of the two threads extracted from LLVM IR with unwind edges (await, report, notify, join)',
 'C09': 'value graphs of the header writer and reader built from LLVM IR, composed and normalised (translation validation)',
 'C10': 'status-use dataflow on value graphs of all paths (LLVM IR), loop summaries of the chunk, point and section loops',
 'C11': 'call-graph reachability and ranking arguments searched for in loop summaries (value graphs of one generic round, LLVM IR)',
 'C12': 'exception-type escape analysis (fixpoint over the call graph) and value graphs with unwind edges of the exported functions: provenance and bounds of what is written',
 'C13': 'static value graphs of the message writer and reader (LLVM IR) compared with an independently built symbolic layout of the message, for every residue of the text lengths and both byte orders',
 'C14': 'value graphs of the copy and move operations built from LLVM IR: leaf-wise identity and pointer provenance',
 'C15': 'constant propagation of conversion tables (LLVM IR) and AST extraction (Python)',
 'C16': 'type and width analysis of size products over LLVM IR def-use chains',
 'C17': 'constant extraction from the type-checked program and constant propagation of the version gates',
    'C21': 'value graphs of the preprocessing and conversion functions (every path, one generic round per loop) compared with the metadata they publish',
 'C18': 'value graphs of each field encoder and decoder step built from LLVM IR, composed and normalised by term rewriting',
 'C19': 'item-trace extraction of section writers and readers per mode, trace comparison',
 'C20': 'status-use dataflow over the converters and item provenance',
}
NA = {
 'C19': 'relates two programs: what the streaming writer leaves behind over a history of values (run in progress, palette built so far, mode committed on earlier chunks) and what the reader consumes. Deciding it needs a relational invariant between the state of the writer and the bytes already emitted for every value sequence; the domain here (linear inequalities over one run) cannot express it, and comparing the syntax of writer and reader would judge how they are written, not what they do. What a non-relational analysis can decide of it is claimed elsewhere: bounds of the reader (C01, C02), of the collector and the stage buffer (C03, C04)',
 'C20': 'the converters cannot be analysed here: their translation units include mcap and cxxopts headers that are fetched at configure time and are not in this sandbox, so no type-checked program or IR of them exists; status checks judged on unresolved text would not be sound. The parts that compile (conversions and metadata) are covered by C13 and C21',
 'C22': 'the error bound is a statement about floating-point rounding of run-time values; no sound numeric abstract domain for the double-rounded quantisation is available here, so a static verdict would not be honest',
 'C23': 'the equality of the SIMD and scalar results is floating-point semantics of two instruction sets for all inputs; it needs a solver or execution, not dataflow',
 'C24': 'compression ratio and speed are run-time quantities that depend on the data and the machine; nothing in the source bounds them',
}
checks = []; na = []
for i in range(1, 25):
    p = 'C%02d' % i
    f = os.path.join(V, 'rules', p.lower() + '.py')
    if os.path.exists(f):
        src = open(f).read(); note = ''; lvl = 'other'
        for n in ast.parse(src).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'EXPLAIN': note = ast.literal_eval(n.value)
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'LEVEL': lvl = ast.literal_eval(n.value)
        checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p, technique='static analysis: ' + TECH[p], level=lvl, level_note=note))
    else: na.append(dict(property=p, reason=NA.get(p, 'no check has been built for it yet')))
json.dump(dict(version=1, setup_cmd='python3 engine/build.py', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')

#!/usr/bin/env python3
"""regenerates /verif/MANIFEST.json from the list of checks below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = 'deductive verification: Verus contracts on functions cut from the current source'
X = '; the same contracts executed on the compiled code find the failing input'
C = {
 'A01': 'Every integer folder, divmod_s, the width and shift helpers are under contract: for all widths and all operand values the folded value, its type and the unfolded cases are proved. The contracts of std arithmetic (max, min, overflowing_*, unsigned_abs) and of the Value constructors are assumed; constants are assumed to arrive in port order.',
 'A02': 'ConstInt (with its representation invariant), its constructors, readings, deserialisation and get_log_width are proved for all 8-bit widths and all 64-bit values. Error texts are opaque; derived PartialEq is trusted.',
 'A03': 'All conversion folders, the logic folders and the three float folders (generic over the float operation) are proved over an uninterpreted float type with the IEEE facts the code relies on assumed; which float primitive each op selects and float-to-text are checked by execution only (bounded).',
 'E01': 'EnvelopeHeader::read and ::write are proved against the documented ten-byte layout, for every byte source and sink obeying the std Read/Write contract, with round-trip as a lemma.',
 'M01': 'All operations of the symbol, variable and link tables are proved to keep a representation invariant and to refine the lexical-scoping view, so every history is covered. indexmap and Vec-as-stack contracts are assumed; documented preconditions (a region is not opened twice at once, a node is not bound twice, counters below their integer limits).',
}
EXTRA = os.path.join(ROOT, 'tools', 'manifest_more.py')
NA = {}
if os.path.exists(EXTRA): exec(open(EXTRA).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read and build /repo as it is', 'source_commits': []},
     'checks': [{'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --thorough', 'evidence_file': f'evidence/{i}.json',
                 'technique': V + X, 'level': 'proof', 'level_note': C[i]} for i in ids if i in C],
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'no check registered yet')} for i in ids if i not in C],
     'notes': 'See DESIGN.md. Each check verifies the functions of the property cut from /repo on every run, then executes the same contracts on the compiled code.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

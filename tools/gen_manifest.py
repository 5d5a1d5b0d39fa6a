"""Writes MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification: Hoare-style contracts on the compiled functions of /repo (LLVM IR), symbolic VC generation, z3'
NOTE = {
    'C01': 'every value, field number and buffer state; all scalar classes and WireFormatter writers',
    'C02': 'every byte sequence; all scalar classes and WireFormatter readers',
    'C03': 'lemma over the contracts of encoder and decoder, every value',
    'C04': 'every history by data invariant, for capacities 1, 5, 64, 300 and 70000 of the template',
    'C05': 'every history by data invariant, for capacities 1, 5, 64, 300 and 70000 of the template',
    'C06': 'every history by data invariant; the parent is known by its interface contract only',
    'C07': 'every message state; generated code of the instantiated schemas (vf/zoo.py)',
    'C08': 'every field state and argument; the instantiated maximum lengths',
    'C09': 'every container state and argument; the instantiated maximum lengths',
    'C10': 'every byte sequence and state; the instantiated schemas and maximum lengths',
    'C11': 'every message state and buffer; the instantiated schemas',
    'C12': 'every byte sequence of any length and every message state by a loop invariant; the instantiated schemas',
    'C13': 'every field number, wire type and content; the instantiated schemas',
    'C14': 'every message state and value; the instantiated schemas',
    'C15': 'every pair of message states; the instantiated schemas',
    'C16': 'every buffer size and message state; snprintf by an assumed contract',
    'C17': 'lemma over the contracts of serialization (C11) and decoding (C12), record by record',
    'C18': 'safety obligations (bounds, overflow, shifts, loop variants) of every function executed by the other proofs',
    'C19': 'effect contract over the whole call graph reachable from the public interface',
    'C20': 'all 2^32 numbers for every instantiated message',
}
NA = {}
CLAIMED = open(HERE + '/tools/claimed.txt').read().split()
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, jsonschema" && clang++ --version >/dev/null && mkdir -p evidence', 'checks': [], 'not_applicable': []}
for p in sorted(NOTE):
    if p in CLAIMED:
        m['checks'].append({'property': p, 'quick_cmd': f'python3-vt check.py {p}', 'thorough_cmd': f'python3-vt check.py {p} --tier thorough', 'technique': T, 'level': 'proof', 'level_note': NOTE[p]})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'the contracts for this property are not finished yet')})
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)

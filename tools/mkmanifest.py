"""Writes MANIFEST.json from the rules that exist and the properties that are listed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'analysis'))
import rules

TECH = {
    'C36': 'provenance dataflow over MIR (what the loop of the dialog carries from line to line, per outcome of decoding)',
    'C17': 'ownership dataflow over MIR (every drop, move and growth of a heap value that holds secret data)',
    'C21': 'serde writer/reader table extraction from the derived MIR and comparison',
    'C25': 'typestate dataflow over the file system calls in MIR',
    'C16': 'interprocedural taint dataflow over MIR from secrets to sinks',
    'C24': 'interprocedural panic reachability and index-bound obligations over MIR',
}
DEFAULT = 'interprocedural provenance and typestate dataflow over MIR'
NOTE = ('Decides the property on every path of the current source under the assumptions in DESIGN.md '
        '(library calls behave as modelled). Values the models do not describe are reported as '
        'undecided in the evidence, not as violations.')
NOTES = {}
NA = {
    'C32': 'The extension is not in the tree: equality with the output of another program is not a '
           'property of this source that a static analysis could decide.',
    'C33': 'Which copies of secrets libraries, the allocator and the compiler leave in memory is not '
           'visible in this source (the program\'s own copies are C17).',
    'C34': 'Equality of decode(generate(x)) with x for all x is a relation between run-time values over '
           'unbounded data; its static parts (same layout, inverse tables, full checksums) are C22 and C23.',
    'C35': 'The program does no locking of the file at all: the property does not hold by design '
           '(last writer wins) and asks about interleavings of processes, which no analysis of this '
           'source decides.',
}
PENDING = 'No check for it is registered.'
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in rules.RULES and i not in NA:
        c = 'python3 analysis/check.py ' + i
        checks.append({'property': i, 'quick_cmd': c, 'thorough_cmd': c, 'technique': TECH.get(i, DEFAULT),
                       'level': 'other', 'level_note': NOTES.get(i, NOTE),
                       'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': NA.get(i, PENDING)})
json.dump({'version': 1, 'setup_cmd': 'python3 analysis/extract.py --setup', 'checks': checks,
           'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

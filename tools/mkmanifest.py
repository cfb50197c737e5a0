"""Writes MANIFEST.json from the contracts that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(ROOT, 'tools', 'notes.py')).read())
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)['id']
    if not os.path.exists(os.path.join(ROOT, 'contracts', p.lower() + '.py')):
        na.append({'property': p, 'reason': 'contracts not written yet'})
        continue
    level, note = NOTE.get(p, ('proof', ''))
    checks.append({
        'property': p,
        'quick_cmd': './check %s --tier quick' % p,
        'thorough_cmd': './check %s --tier thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'contract-based deductive verification of the real '
        'functions (symbolic execution of instrumented source, loop '
        'invariants, z3), counterexamples replayed on the real code',
        'level': level,
        'level_note': note + ' ' + COMMON,
    })
json.dump({
    'version': 1,
    'setup_cmd': './check --selftest quick',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo: the verifier reads the source of /repo/ade '
    'on every run and instruments it in memory. See DESIGN.md.',
}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

"""Regenerate MANIFEST.json from the registered specifications (run by hand, committed)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'analyzer'))
import registry
NA = {
 'C33': 'Computational hardness over all adversaries: no static analysis of this source can decide it. The local conditions it needs here are C02, C05, C20 to C24.',
 'C34': 'Field and scalar arithmetic (variable-time double-and-add) lives in the arkworks dependency, whose source is not present; nothing in this repository decides the timing.',
 'C35': 'The arithmetic is implemented in the arkworks dependency, whose source is not present here; the analyses assume it.',
}
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.SPECS:
        s = registry.SPECS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 analyzer/check.py ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 analyzer/check.py ' + i,
            'technique': s.get('technique') or 'abstract interpretation of the Rust syntax tree (gated value flow with bit provenance) against a declarative specification',
            'level': 'other',
            'level_note': s['rule'] + (' Assumes: ' + '; '.join(s['assumptions']) + '.' if s['assumptions'] else '') +
                ' Trusted: the parser (syn), the interpreter and its models of std and arkworks. Code outside the modelled fragment is reported as UNDECIDED in the output and the evidence, never as an alarm.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check built yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 analyzer/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check parses /repo/crates on each run and decides from the source; nothing of the project is executed. No hooks in /repo.'},
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

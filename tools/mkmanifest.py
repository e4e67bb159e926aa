"""Writes MANIFEST.json: one check per property that has a harness."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
T = {
 'C01': 'property-based testing against an exact (80-bit) analytic model',
 'C02': 'property-based testing against a reference CSG model',
 'C03': 'property-based testing against an exact ray trace',
 'C04': 'property-based testing: algebraic laws and distribution tests',
 'C05': 'property-based testing: exact values and distribution tests',
 'C06': 'metamorphic property-based testing over thread counts and schedules; race detection under generated inputs',
 'C07': 'metamorphic property-based testing over seed windows and irrelevant edits',
 'C08': 'property-based testing against a reference binning',
 'C09': 'property-based testing: recomputation from single-history runs',
 'C10': 'property-based testing: parsed report against in-memory results; merge laws',
 'C11': 'property-based testing: exact totals and multinomial tests of outcomes',
 'C12': 'property-based testing against closed forms and an independent reference random walk',
 'C13': 'property-based testing against line integrals, surface tracking and an independent reference walk',
 'C14': 'property-based testing of an order relation over generated data and temperatures',
 'C15': 'property-based testing: file round trip, reference interpolation, fault injection',
 'C16': 'property-based testing against a reference statement of the rules; multinomial tests',
 'C17': 'property-based testing: kinematic invariants and an independent sampler',
 'C18': 'property-based testing against a reference bilinear interpolation',
 'C19': 'property-based testing: kinematic limits and an independent sampler',
 'C20': 'property-based testing: weighted averages, splitting and scaling relations',
 'C21': 'property-based testing against the derivative weight of traced flights',
 'C22': 'fuzzing by structured defect injection and byte mutation; accept/refuse oracle, sanitizers',
 'C23': 'property-based testing against branching-process moments and single-history accounting',
 'C24': 'fuzzing with generated whole inputs under sanitizers; balance invariants',
 'C26': 'metamorphic property-based testing over pairs of equivalent inputs',
 'C27': 'property-based testing: independence tests over generated seeds; exact joint distributions',
 'C25': 'property-based testing against reference temperature fields',
}
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists(f'{H}/harness/{i}.cpp'):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    checks.append({'property': i, 'quick_cmd': f'bash run.sh {i} quick', 'thorough_cmd': f'bash run.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json', 'technique': T[i], 'level': 'exploration',
        'level_note': 'generated cases with shrinking; the numbers of cases, of non-trivial ones and samples are in the evidence file, the oracle and its limits in DESIGN.md'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
    'notes': 'No hooks: every check uses the public classes of /repo/src or the command-line program. known_findings.txt lists repaired and unrepaired defects.'},
    open(H + '/MANIFEST.json', 'w'), indent=1)

"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'C01': 'ParamStore.tla and Exponent.tla', 'C02': 'ParamStore.tla and ParamExtreme.tla', 'C03': 'ParamStore.tla',
    'C04': 'ParamStore.tla (jets)', 'C05': 'ParamStore.tla (jets)', 'C06': 'ParamStore.tla',
    'C07': 'ParamStore.tla', 'C08': 'ObjectiveModel.tla', 'C09': 'ObjectiveModel.tla (Poly, Jet)',
    'C10': 'TwoParamModel.tla', 'C11': 'ConverterModel.tla', 'C12': 'SensitivityModel.tla',
    'C13': 'TermAlgebra.tla', 'C14': 'TaylorModel.tla (Series)', 'C15': 'OptimLoop.tla and OptimTrace.tla',
    'C16': 'Precond.tla', 'C17': 'EvalLog.tla and MinimizeModel.tla', 'C18': 'Masks.tla, MaskTrace.tla and CGModel.tla', 'C19': 'SparseMat.tla',
    'C20': 'ExpFam.tla (Sym)', 'C21': 'Regression.tla', 'C22': 'Priors.tla (Sym)', 'C23': 'DistMoments.tla (ParamStore, Sym)',
}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(V, 'harness', 'check_%s.py' % pid.lower())):
        checks.append({
            'property': pid,
            'quick_cmd': 'bin/check %s' % pid,
            'thorough_cmd': 'bin/check %s --tier thorough' % pid,
            'technique': 'TLA+ specification checked with TLC; its behaviours replayed on the implementation',
            'level': 'model_checking',
            'level_note': 'Specification: %s, exact rational arithmetic, invariants and action properties checked '
                          'by TLC on the explored suites; every explored transition is replayed through the public '
                          'interface and compared up to rounding. Trusted: TLC, the harness projection, and floating '
                          'point tolerance; inputs outside the enumerated catalogue and seeded generators are not '
                          'explored.' % NOTES.get(pid, 'see DESIGN.md')})
    else:
        na.append({'property': pid, 'reason': 'the specification for this property is still being built'})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

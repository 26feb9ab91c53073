#!/usr/bin/env python3
"""Writes MANIFEST.json from the property checks that exist."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'property-based testing (Hypothesis): '
TECHNIQUE = {
    'C01': 'round trip of generated tables through writer and reader, and differential against an independent encoder',
    'C02': 'differential against an independent SDDS encoder over generated files',
    'C03': 'metamorphic relation between reader options over generated files',
    'C04': 'generated headers against their model',
    'C05': 'fuzzing with structured damage of generated files (cuts, byte edits)',
    'C06': 'round trip and reference conversion over generated particle files',
    'C07': 'generated HDF5 files against their model',
    'C08': 'generated species, written files parsed independently',
    'C09': 'stateful (model-based) operation sequences',
    'C10': 'reference model in high precision and round trips over generated states',
    'C11': 'metamorphic relation between unit systems, repeated calls and command line',
    'C12': 'reference moments (exact rational arithmetic) and metamorphic relations over generated arrays',
    'C13': 'validity predicate and differential against LAPACK over generated matrices and beams',
    'C14': 'invariants of generated distributions for generated Twiss parameters',
    'C15': 'stateful (model-based) operation sequences and reference formulas',
    'C16': 'invariants of generated bunches, operation sequences, statistical tests with negligible error rate',
    'C17': 'reference potential (complex analytic form) and invariants of generated bunches',
    'C18': 'metamorphic relation over generated histories of the random generators',
    'C19': 'reference distribution functions and statistical tests with negligible error rate',
    'C20': 'reference rotation and sinusoidal motion over generated inputs',
    'C21': 'differential against independent quadrature over generated parameters',
    'C22': 'stateful (model-based) operation sequences',
    'C23': 'round trip of generated beamlines',
    'C24': 'reference matrices and metamorphic relations over generated lattices',
    'C25': 'grammar-based generation, differential against an independent expansion',
    'C26': 'generated expression trees against direct evaluation',
    'C27': 'generated lattices against an independent expansion',
    'C28': 'reference optics over generated inserts and parameter changes',
    'C29': 'reference computations and invariants over generated inputs',
    'C30': 'artists of drawn figures against the generated data',
    'C31': 'grammar-based generation, differential against an independent conversion',
}
NOTE = ('Random search with an explicit oracle over the generators described in DESIGN.md; holds on every case '
        'explored, which is no proof for the others.')
NOT_APPLICABLE = {
    'C32': 'The conversion needs the sirepo package (imported at module level by both modules), which is not installed '
           'in this sandbox and cannot be fetched; no input can be run through this code, so generated-input search '
           'cannot decide it here.',
}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    have = {os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(ROOT, 'props', 'c[0-9]*_*.py'))}
    manifest = dict(
        version=1, setup_cmd='python3 harness/deps.py',
        checks=[dict(property=i, quick_cmd='python3 check.py %s quick' % i,
                     thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
                     technique=TECH + TECHNIQUE[i], level='exploration', level_note=NOTE)
                for i in ids if i in have],
        not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not written yet'))
                        for i in ids if i not in have],
        notes='No hooks in /repo. Replay a violation with: python3 check.py ID --replay FILE')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()

#!/usr/bin/env python3
"""Writes known_findings.jsonl: one entry per repaired defect ("fixed: ...").  There are no unrepaired findings."""
import json
import os
import subprocess

REPO = '/repo'
PROPERTY = {
    'return plain numbers from square roots': 'C26',
    'take only numbers for numbers in rpn': 'C26',
    'save beamlines whose parameters are numpy': 'C23',
    'include sub-lines in transfer matrices': 'C24',
    'keep element parameters independent of case in copies': 'C22',
    'keep parameters called name or type': 'C23',
    'refuse a beta, an aperture and a cut-off of zero': 'C16 C17',
    'stop with an error when an SDDS header is truncated': 'C05',
    'refuse files that mention the SDDS identifier': 'C05',
    'refuse unknown definitions whose name': 'C05',
    'stop reading SDDS files that declare nothing': 'C05',
    'refuse SDDS headers with unknown text before': 'C05',
    'detect the end of an SDDS file from its data': 'C02 C03',
    'keep the read position right when SDDS pages are skipped': 'C03',
    'do not count header lines to find the start': 'C02',
    'handle integer &data fields': 'C02',
    'keep the page shape of SDDS data': 'C02',
    'keep SDDS columns aligned with their page': 'C02',
    'write SDDS columns and values in the type': 'C01',
    'compute gamma from beta * gamma': 'C10',
    'report kinematic results right on every call': 'C11',
    'accept step number 0': 'C07',
    'read elegant files that hold a single particle': 'C06',
    'leave the first particle alone': 'C12',
    'match a negative alpha': 'C14',
    'apply the cutoff, quiet and emittance': 'C17',
    'seed the generators of a bunch': 'C18',
    'give a bunch its own vertical beta': 'C16',
    'save and load beamlines': 'C23',
    'put element parameters into the transfer matrices': 'C24',
    'use the drift matrix for a quadrupole': 'C24',
    'ignore case in every lookup': 'C22',
    'read lte files with a final comment': 'C25',
    'expand repeated and quoted lines': 'C25',
    'substitute rpn variables': 'C25',
    'expand repeated and reversed lines of Sirepo': 'C27',
    'store the value when setting the aperture': 'C28',
    'parse Trace3D and TraceWin lattices completely': 'C31',
    'return ascii SDDS strings as text': 'C02',
    'scale the start of the elements': 'C29',
    'keep a character of a symbol': 'C29',
    'plot longitudinal phase space of files without': 'C30',
    'keep long axis labels': 'C30',
    'draw scatter plots with a current matplotlib': 'C30',
    'hand a single argument of 0': 'C19',
    'sample Halton points deterministically': 'C19',
    'match an alpha whose square vanishes': 'C14',
    'keep mirrored particles of a quiet bunch': 'C16 C17',
    'integrate decoherence without or with negative': 'C21',
    'find the extent of nonlinear bunches': 'C17',
    'keep interpolated samples inside': 'C19',
    'find the extent of KV bunches': 'C16',
    'ignore case when updating and removing': 'C22',
    'expand repetitions at the start of a repeated group': 'C25',
    'read nested brackets and white space': 'C25',
    'evaluate quadrupole matrices of a variable strength': 'C24',
    'end the name of a symbol before a letter': 'C29',
    'space contour levels of a constant positive': 'C30',
    'give every cavity of a Trace3D lattice': 'C31',
    'convert strengths for Warp at the energy': 'C32',
    'scale sextupole strengths for Warp': 'C32',
    'convert the parameters of all bends and sextupoles': 'C32',
    'define all elements in every Warp file': 'C32',
    'define the constants module': 'C11',
    'read Trace3D elements whose label': 'C31',
    'substitute the parameters of an element at once': 'C24',
    'keep quoted texts with colons or commas': 'C25',
    'write the charge of OPAL dumps as a number': 'C08',
    'keep the columns of particles with undefined': 'C08',
    'do not take parts of element names': 'C25',
    'refuse rpn words that only contain pi': 'C26',
    'refuse impossible string lengths': 'C05',
    'refuse negative row counts': 'C05',
    'ignore field lengths in binary': 'C02',
}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', REPO, 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True,
                     check=True).stdout.splitlines()
with open(os.path.join(root, 'known_findings.jsonl'), 'w') as f:
    for line in log:
        commit, subject = line.split(' ', 1)
        if not subject.startswith('fix: '):
            continue
        subject = subject[5:]
        found = [v for k, v in PROPERTY.items() if subject.startswith(k)]
        assert len(found) == 1, subject
        failed = 'did ' + subject[7:] if subject.startswith('do not ') else 'did not ' + subject
        for pid in found[0].split():
            f.write(json.dumps({'entry': 'fixed: property=%s %s %s' % (pid, commit, failed)}) + '\n')

#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from vt/specs.py."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from vt import specs
TV = ('symbolic execution of the produced machine code against the symbolically executed LLVM IR of the same source; '
      'z3 decides equality of all results for every input')
NOTE = ('For every program of the family and both targets, equality of exit status and output with C semantics is decided for '
        'all input values on all paths; outside: programs not in the family, and the few programs the solver does not settle in '
        'time (counted as undecided). Trusts clang for the meaning of C, the instruction semantics of vt/cpu.py and z3; every '
        'reported violation has been reproduced by running the real executable under qemu.')
BMC = ('bounded model checking (cbmc, SAT) of the real C functions with symbolic arguments and state; assertions over what '
       'they emit or return')
BMCNOTE = ('Decided for every value within the bounds listed in the evidence file, from the current source; nothing outside those '
           'bounds. Trusts cbmc and the harness; every reported violation has been reproduced by the natively compiled real code.')
NA = {
    'C22': 'The claim is about the whole 10000-line compiler executing on itself: symbolic execution of stage 1 and stage 2 over '
           'all source programs is out of reach of a solver, and a comparison of concrete runs would be sampling.',
    'C23': 'Memory safety of the whole compiler over all source texts: thousands of branches per input byte; beyond a handful of '
           'characters no solver finishes. The parts that can be encoded are claimed separately (C09, C15, C20).',
}
PENDING = 'No check has been built for it yet.'


def technique(s):
    return {'tv': TV, 'both': TV + '; and ' + BMC, 'bmc': BMC}[s.get('kind', 'tv')]


def note(s):
    return {'tv': NOTE, 'both': NOTE + ' The cbmc part: ' + BMCNOTE, 'bmc': BMCNOTE}[s.get('kind', 'tv')]


def main():
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
    props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        if p in specs.SPECS:
            s = specs.SPECS[p]
            c = 'python3-vt check.py --property ' + p
            checks.append({'property': p, 'quick_cmd': c, 'thorough_cmd': c + ' --tier thorough',
                           'technique': technique(s), 'level': s['level'], 'level_note': note(s)})
        else:
            na.append({'property': p, 'reason': NA.get(p, PENDING)})
    m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()

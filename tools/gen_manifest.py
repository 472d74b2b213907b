#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from sa/registry.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from sa import registry
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {
    'C40': 'optimality of the active-set solver is a runtime numerical fact about scipy.optimize.nnls; what the source decides (the arguments passed to it and what is done with its answer) is C05',
    'C41': 'the size of an interpolation error depends on the numbers in the template and response files; what the source decides (what is tabulated where, and how it is looked up) is C14 and C20',
    'C42': 'a numerical identity between a gridded and an exact projection; it holds up to an interpolation error that no static bound in reach covers; the algebra of the band shift is C11',
    'C43': 'the content of data files is not a property of the source; that the files named by the source exist and are read in the right columns is in C25, C22 and C26',
    'C44': 'needs a bound on rounding errors through splines and an active-set solver on runtime values',
}
T = 'interprocedural abstract interpretation of the source: '
TECH = registry.TECH
NOTE = registry.NOTE
BASE = ('Sound for the contexts listed in the evidence (argument kinds and flags; sizes and values symbolic) relative to the models of NumPy, SciPy and Astropy in sa/ and real arithmetic in place of floating point. '
        'Constructs the interpreter does not model give undecided obligations, which are counted in the evidence and never reported as violations. ')
doc = dict(version=1,
           setup_cmd='python3 -c "import sys; sys.dont_write_bytecode=True; import check; from sa import registry; [registry.tasks(p, \'quick\') for p in registry.PROPS]"',
           checks=[], not_applicable=[],
           notes='All checks share one abstract interpreter in sa/, which reads /repo/src/kcorrect/*.py at every run and executes nothing of it. '
                 'python3 check.py <id> --repo DIR analyses another checkout. No hooks were added to /repo.')
for p in props:
    i = p['id']
    if i in registry.PROPS:
        doc['checks'].append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                                  evidence_file='evidence/%s.json' % i, technique=T + TECH[i], level='other', level_note=BASE + NOTE[i]))
    else:
        doc['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check built yet')))
with open(os.path.join(here, 'MANIFEST.json'), 'w') as fp:
    json.dump(doc, fp, indent=1)
    fp.write('\n')
print(len(doc['checks']), 'checks', len(doc['not_applicable']), 'not applicable')

"""Writes the table of planted bugs into DESIGN.md.  usage: cattable.py CATCHLOG"""
import glob
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed at first, and what was added to the check for it
FIRST = {
    'c03-expand-dim-perm': 'layouts with several extra axes in other orders', 'c08-lognb-eval': 'free dispersion in the one-pass cases',
    'c22-skew': 'Markov tables watched', 'c07-compose-hess-t': 'blocks with i < j',
    'c08-compose-eval-l': 'compositions of several vectors', 'c16-stale-hess': 'fits that start with an old Hessian',
    'c20-default-tol': 'calls without a tolerance', 'c20-give-up': 'histories that reach the step limit', 'c22-reshape-mask': 'masks watched through reshapes',
    'c13-floor': 'replay with the function values the solver chose',
    'c10-eval-cache': 'evaluations elsewhere in several orders', 'c11-filter-cache': 'shorter matrices in between',
    'c17-cov-cache': 'errors asked for another Hessian before', 'c18-marginal-int': 'integer beside fractional marginals',
    'c21-category-float': 'int(), floor, round of symbolic values'}
FIRST.update(json.load(open(V + '/tools/first.json')) if os.path.exists(V + '/tools/first.json') else {})
log = {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+)\s+(C\d\d) (caught|MISSED)', l)
    if m:
        log[m[1]] = m[3]
out = ['| planted bug | property | what it breaks | now | missed at first; added |', '|--|--|--|--|--|']
for d in sorted(glob.glob(V + '/seeded/*')):
    b = os.path.basename(d)
    j = json.load(open(d + '/meta.json'))
    out.append('| %s | %s | %s | %s | %s |' % (b, j['property'], j['what_it_breaks'].split('. ')[0].replace('|', '/'),
                                               log.get(b, '?'), FIRST.get(b, '')))
s = open(V + '/DESIGN.md').read()
a, rest = s.split('<!-- table -->')[0], s.split('<!-- /table -->')[1]
open(V + '/DESIGN.md', 'w').write(a + '<!-- table -->\n' + '\n'.join(out) + '\n<!-- /table -->' + rest)

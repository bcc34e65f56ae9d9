"""check.py Cxx            decide property Cxx on /repo's working tree
   check.py Cxx --first    stop at the first violation
   check.py Cxx --replay F re-run a recorded counterexample on the real code"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(k, '1')

from vlib import patch as P            # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    args = sys.argv[2:]
    if '--thorough' in args:
        tier = 'thorough'
    if '--case' in args:
        only = args[args.index('--case') + 1]
    t0 = time.time()
    try:
        P.load()
    except Exception as e:
        print('cannot import maxlike from %s: %r' % (P.REPO, e))
        return 2
    from vlib import engine as G
    mod = importlib.import_module('checks.' + prop.lower())
    if '--replay' in args:
        return replay(G, mod, json.load(open(args[args.index('--replay') + 1])))
    cases = mod.cases(tier)
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    if only:
        cases = [c for c in cases if only in c.name]
    wall = 60 if tier == 'quick' else 420
    rs = G.run_all(prop, cases, seed, wall, jobs, 600 if tier == 'quick' else 3 * 3600, '--first' in args)
    return report(G, prop, mod, tier, seed, rs, time.time() - t0, '-v' in args)


def replay(G, mod, d):
    for c in mod.cases('quick') + mod.cases('thorough'):
        if c.name == d['case']:
            try:
                recs = G.run_concrete(c, d['point'])
            except Exception as e:
                print('raised %s: %s' % (type(e).__name__, e))
                return 1
            k, l, a, e, _ = recs[d['record']]
            cell = tuple(d['cell'])
            print('label', l, 'cell', cell)
            print('real code :', a[cell] if k != 'bool' else a)
            print('expected  :', d['detail'])
            return 0
    print('no such case')
    return 2


def report(G, prop, mod, tier, seed, rs, wall, verbose):
    tot = lambda k: sum(r[k] for r in rs)
    st = {k: sum(r['stats'][k] for r in rs) for k in ('queries', 'unsat', 'sat', 'unknown', 'time')}
    funcs = sorted(set(f for r in rs for f in r['functions']))
    und = [(r['case'], u) for r in rs for u in r['undecided']]
    mism = [(r['case'], u) for r in rs for u in r['mismatches']]
    if verbose:
        for r in sorted(rs, key=lambda r: -r['wall']):
            print('%-60s paths %-3d obl %-4d dis %-4d viol %d und %d mism %d  %.1fs (max q %.1f)' % (
                r['case'], r['paths'], r['obligations'], r['discharged'], len(r['violations']),
                len(r['undecided']), len(r['mismatches']), r['wall'], r['stats']['max']))
    viols = [v for r in rs for v in r['violations']]
    bounds = getattr(mod, 'BOUNDS', {})
    b = bounds.get(tier, bounds.get('quick')) if isinstance(bounds, dict) else bounds
    samples = [s for r in rs for s in r['samples'][:1]][:8]
    cov = dict(
        states=tot('paths'), transitions=tot('calls'),
        traces_validated_against_impl=tot('validated'),
        samples=samples or ['(none)'],
        cases=len(rs), branch_points_forked=tot('forks'), infeasible_paths=tot('infeasible'),
        obligations=tot('obligations'), discharged=tot('discharged'),
        discharged_structurally=tot('structural'), syntactically_equal=tot('trivial'),
        undecided=len(und), undecided_list=['%s: %s' % u for u in und][:60],
        encoding_mismatches=['%s: %s' % u for u in mism][:40],
        solver='z3 %s (QF_NRA)' % G.z3.get_version_string(),
        queries=st['queries'], queries_unsat=st['unsat'], queries_sat=st['sat'],
        queries_unknown=st['unknown'], solver_time_s=round(st['time'], 3),
        max_query_s=round(max([r['stats']['max'] for r in rs] or [0]), 3),
        functions_encoded=funcs, bounds=b,
        max_symbolic_inputs=max([r['vars'] for r in rs] or [0]),
        state_meaning='feasible symbolic paths of the harness through the real code',
        transition_meaning='entries into maxlike functions executed symbolically',
        case_names=[r['case'] for r in rs][:400],
        exhaustive=all(r['exhaustive'] for r in rs) and not und,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
                  'real arithmetic stands for float64 arithmetic (no rounding, overflow or nan)',
                  'exp/log/gammaln/arctan are represented by atoms with the algebraic laws stated in vlib/enc.py'],
              wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    seen = set()
    for r in rs:
        for fid, where in r['known']:
            if fid not in seen:
                seen.add(fid)
                print('KNOWN-FINDING: property=%s %s' % (prop, G.KNOWN[(prop, fid)]['what']))
    print('%s %s: %d cases, %d paths, %d obligations, %d discharged, %d undecided, %d mismatches, '
          '%d queries (%d unsat, %d sat, %d unknown), solver %.1fs, wall %.1fs' % (
              prop, tier, len(rs), tot('paths'), tot('obligations'), tot('discharged'), len(und),
              len(mism), st['queries'], st['unsat'], st['sat'], st['unknown'], st['time'], wall))
    for u in und[:200 if verbose else 6]:
        print('  undecided:', '%s: %s' % u)
    for u in mism[:200 if verbose else 6]:
        print('  encoding mismatch:', '%s: %s' % u)
    if viols:
        d = os.path.join(HERE, 'replay')
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(viols[:10]):
            p = os.path.join(d, '%s-%d.json' % (prop, n))
            with open(p, 'w') as f:
                json.dump(dict(v, property=prop), f, indent=1, default=str)
            print('  %s %s%s at %s: %s' % (v['case'], v['label'], v['cell'],
                                           str(v['point'])[:300], v['detail']))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())

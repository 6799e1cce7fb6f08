"""Stored rows and misfits belong together: every recorded run is re-read against the user-callback log."""
import numpy as np

from vlib import rec
from .common import Out, count, eqn, near, seeds

PROP = 'P01'
LEVEL = 'exploration'
RULE = ('distinct (layout, function style, components, bounds, prior, variance, method, stages, length, seed) '
        'configurations whose run was recorded and re-read row by row')
ASSUMPTIONS = ['parameter names are distinct; misfit functions return a number or a one-dimensional array',
               'all user functions used are deterministic, so a misfit can be recomputed from the stored row']
REQUIRE = {'rows': 5000, 'moves': 500, 'fullvector': 5000, 'continued': 5}


def cases(tier, seed):
    out = seeds(seed, count(tier, 400, 6000), 1)
    for c in out:
        c['kind'] = 'plain' if c['i'] % 4 else 'continued'
        if c['i'] % 5 == 2:
            c['kind'] = 'nomarker'
    return out


def check_rows(o, sc, chain, ss, lo, hi):
    for i in range(lo, hi):
        want = sc.misfit(sc.full(chain[i]))
        ok = near(ss[i], want, 1e-10) if sc.style == 'model' else eqn(ss[i], want)
        o.check(ok, 'rows', lambda: 'row {}: stored misfit {} but the misfit at {} is {}'.format(
            i, ss[i], sc.full(chain[i]), want))


def check_calls(o, sc, ev):
    fixed = np.flatnonzero(~sc.mask)
    for e in ev:
        if e[0] in ('ss', 'model'):
            th = e[1]
            ok = th.shape == (sc.nt,) and np.array_equal(th[fixed], sc.th0[fixed])
            o.check(ok, 'fullvector', lambda: 'user function called with {}; fixed entries {} must be {}'.format(
                th, fixed, sc.th0[fixed]))


def check_steps(o, sc, tr, offset, start):
    chain = tr.chain
    steps = tr.steps()
    o.check(len(steps) == len(chain) - 1 - offset, 'stepcount', 'steps observed {} rows {}'.format(len(steps), len(chain)))
    pts = [e for e in rec.group_model_events(tr.init, sc) if e[0] == 'ss']
    o.check(bool(pts) and all(np.array_equal(e[1][sc.par], start) for e in pts), 'initial',
            'the initial evaluation is not at the starting point {}'.format(start))
    for isimu, accept, evs, mk in steps:
        r = offset + isimu
        prev, row = chain[r - 1], chain[r]
        pts = [e[1][sc.par] for e in rec.group_model_events(evs, sc) if e[0] == 'ss']
        if np.array_equal(prev, row):
            o.hit('stays')
            continue
        o.check(any(np.array_equal(row, p) for p in pts), 'moves', lambda: 'row {} = {} is neither the previous row {} '
                'nor a point evaluated in that step {}'.format(r, row, prev, pts))
        o.check(accept, 'acceptflag', 'row {} moved in a step reported as rejected'.format(r))


def run(case):
    o = Out()
    sc = rec.gen(case['seed'], marker=case['kind'] != 'nomarker', **(dict(nsimu=[1300, 2400][case['i'] // 40 % 2]) if case['i'] % 40 == 7 else {}))
    fixed = np.flatnonzero(~sc.mask)
    tr = rec.run_scen(sc)
    chain, ss = tr.chain, tr.ss
    n = sc.opts['nsimu']
    o.check(chain.shape == (n, sc.ns) and ss.shape == (n, sc.nsos), 'shape', 'chain {} misfits {} for {} simulations'.format(
        chain.shape, ss.shape, n))
    if o.viol:
        return o.done()
    o.check(np.array_equal(chain[0], sc.th0[sc.par]), 'row0', 'row 0 is {} not the start {}'.format(chain[0], sc.th0[sc.par]))

    def final(res, ch):
        want = sc.full(ch[-1])
        o.check(np.array_equal(np.asarray(res['theta'], dtype=float), want), 'final',
                'final values {} expected {}'.format(res['theta'], want))

    check_rows(o, sc, chain, ss, 0, n)
    check_calls(o, sc, tr.ev)
    final(tr.res, chain)
    if case['kind'] == 'nomarker':
        pts = [e[1][sc.par] for e in rec.group_model_events(tr.ev, sc) if e[0] == 'ss']
        k = 0
        for i in range(1, n):
            if not np.array_equal(chain[i], chain[i - 1]):
                while k < len(pts) and not np.array_equal(pts[k], chain[i]):
                    k += 1
                o.check(k < len(pts), 'moves', 'row {} was not evaluated in order'.format(i))
    else:
        check_steps(o, sc, tr, 0, sc.th0[sc.par])
    # arrays handed to the user stay the user's
    for held, copy in sc.kept:
        o.check(np.array_equal(held, copy), 'kept', 'an array handed to the user function was changed later')
    if case['kind'] == 'continued':
        start = chain[-1].copy()
        n2 = n if case['i'] % 4 == 1 and 1 < n < 400 else 2 + case['i'] % 60
        tr.m.simulation_options.nsimu = n2
        tr2 = rec.run_scen(sc, m=tr.m, use_previous_results=True)
        o.hit('continued')
        o.check(tr2.chain.shape[0] == n + n2 - 1, 'shape2', 'continued chain has {} rows'.format(tr2.chain.shape[0]))
        if not o.viol:
            check_rows(o, sc, tr2.chain, tr2.ss, 0, n + n2 - 1)
            check_calls(o, sc, tr2.ev)
            final(tr2.res, tr2.chain)
            check_steps(o, sc, tr2, n - 1, start)
    o.sig = sc.ident() + case['kind']
    o.sample = dict(scenario=sc.describe(), rows=len(chain), evaluations=sum(e[0] == 'ss' for e in tr.ev),
                    moves=int((np.diff(chain, axis=0) != 0).any(1).sum()))
    return o.done()

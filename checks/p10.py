"""Continued runs: earlier rows kept, first new step from the last stored state, everything else as configured."""
import copy
import math

import numpy as np

from vlib import rec, shadow
from .common import Out, count, eqn, near, refused, seeds
from .p01 import check_calls, check_rows, check_steps
from .p03 import judge
from .deep import diff, snap

PROP = 'P10'
LEVEL = 'exploration'
RULE = 'distinct histories of one to three continuations (lengths, methods, variance sampling, priors, limits) re-read row by row'
ASSUMPTIONS = ['a continued run counts its adaptation interval from its own start and adapts to all rows, old and new',
               'without an initial covariance the proposal of a continued run starts at the documented default at the new start']
REQUIRE = {'continuations': 150, 'oldrows': 5000, 'rows': 5000, 'first_steps': 60, 'candidates': 1000, 'refusals': 4, 'decisions': 1000}
STREAM = ('first_steps', 'candidates', 'decisions')


def cases(tier, seed):
    out = seeds(seed, count(tier, 160, 2400), 10)
    for c in out:
        k, j = c['i'] % 8, c['i'] // 8
        w = {}
        if k == 0:
            w = dict(pstyle='default', pmode='nanmu', nsimu=60)
        elif k == 1:
            w = dict(updatesigma=True, nsos=2 + j % 2, nsimu=[17, 60, 150][j % 3], s2mode='array')
        elif k == 2:
            w = dict(bounds=['tight', 'onbound', 'mixed'][j % 3], nfix=1 + j % 2)
        elif k == 3:
            w = dict(updatesigma=True, style='model', nbatch=1 + j % 3)
        elif k == 4:
            w = dict(method=['am', 'dram'][j % 2], adaptint=[10, 20][j // 2 % 2] if j % 7 != 6 else 100, nsimu=60 if j % 7 != 6 else 1300, qfac=(-1, .5))
        elif k == 5:
            w = dict(qmode='none', updatesigma=j % 2 == 0)
        elif k == 6:
            w = dict(updatesigma=True, nsimu=17 if j % 4 != 3 else int(300 + 61 * j), qfac=(.5, 2), bounds='none', hole=None, pmode=['nanmu', 'flat'][j % 2], pstyle='default')
        elif k == 7:
            w = dict(nsimu=17, qfac=(.5, 2), bounds='none', hole=None, pmode=['nanmu', 'gauss'][j % 2])
        c['want'] = w
    for i in range(8):
        out.append(dict(kind='refuse', i=i, seed=rec.sub(seed, i, 1010)))
    return out


def run(case):
    o = Out()
    r = np.random.default_rng(case['seed'] + 17)
    if case['kind'] == 'refuse':
        sc = rec.gen(case['seed'])
        with rec.recording() as ev:
            m = sc.build()
            o.check(refused(lambda: m.run_simulation(use_previous_results=True)), 'refusals', 'continuing without an earlier run was not refused')
        o.check(not any(e[0] in ('ss', 'model') for e in ev), 'refusals', 'the misfit was evaluated before refusing')
        o.sig = sc.ident()
        return o.done()
    sc = rec.gen(case['seed'], **case['want'])
    many = case['i'] % 8 in (6, 7)
    if case['i'] % 8 == 6:      # configured variance far from what sampling gives: the first new step shows which one it uses
        sc.ms = dict(sigma2=float(sc.s2true * [1e4, 1e-3][case['i'] // 8 % 2]))
        sc.opts['updatesigma'] = True
    tr = rec.run_scen(sc)
    m = tr.m
    hist = [sc.opts['nsimu']]
    on = tr.s2 is not None
    for leg in range(12 if many else int(r.choice([1, 1, 2, 3]))):
        old = snap([tr.chain, tr.ss, tr.s2])
        n1 = len(tr.chain)
        n2 = int(r.choice([2, 3])) if many else int(r.choice([2, 3, 10, 40, 90, 160]))
        if case['i'] % 9 == 5 and not leg:
            n2 = 1
        elif case['i'] % 9 == 2 and not leg and not many and 1 < hist[0] < 300:
            n2 = hist[0]
        opts = dict(sc.opts, nsimu=n2)
        if leg and r.random() < .4 and 'RDR' not in opts and 'ntry' not in opts:
            opts['method'] = str(r.choice(['mh', 'am', 'dr', 'dram']))
        sc2 = copy.copy(sc)
        sc2.opts = opts
        sc2.ntry = opts.get('ntry', {'mh': 1, 'am': 1, 'ram': 1, 'dr': 2, 'dram': 2}[opts['method']])
        sc2.th0 = sc.full(old[0][-1])          # the default proposal is relative to the start
        m.simulation_options.define_simulation_options(**opts)
        tr = rec.run_scen(sc2, m=m, use_previous_results=True)
        o.hit('continuations')
        hist.append(n2)
        if not o.check(tr.chain.shape == (n1 + n2 - 1, sc.ns) and tr.ss.shape == (n1 + n2 - 1, sc.nsos)
                       and (tr.s2 is not None) == on and (not on or tr.s2.shape == tr.ss.shape), 'shapes',
                       'after continuing {} rows by {} simulations the chains have {} {} {} rows'.format(
                           n1, n2, tr.chain.shape, tr.ss.shape, None if tr.s2 is None else tr.s2.shape)):
            break
        for what, a, b in (('chain', old[0], tr.chain), ('misfit', old[1], tr.ss), ('variance', old[2], tr.s2)):
            if a is not None:
                d = diff(a, np.array(b[:n1]))
                o.hit('oldrows', n1)
                if d:
                    o.bad('continuing changed the earlier {} rows: {}'.format(what, d))
        check_rows(o, sc, tr.chain, tr.ss, n1 - 1, n1 + n2 - 1)
        check_calls(o, sc, tr.ev)
        check_steps(o, sc2, tr, n1 - 1, old[0][-1])
        for e in tr.ev:
            if e[0] in ('ss', 'model'):
                o.check(shadow.inside(sc, e[1][sc.par]), 'limits', 'misfit evaluated outside the limits at {}'.format(e[1]))
            elif e[0] == 'prior':
                o.check(eqn(e[2].reshape(-1), sc.mu[sc.par]) and eqn(e[3].reshape(-1), sc.sig[sc.par]), 'prior_args',
                        'after continuing the prior is called with mu {} sigma {}'.format(e[2], e[3]))
        if o.viol:
            break
        dec = []
        for s in shadow.walk(tr, offset=n1 - 1):
            if not s.parsed:
                continue
            if s.i == 1:
                o.hit('first_steps')
            st = s.stages[0]
            if st['ss'] is not None:
                lp = shadow.logpost(sc, st['ss'][2], st['obs'], s.s2)
                d = lp - s.old_lp
                acc = s.accept and len(s.stages) == 1
                if math.isnan(d) or lp == -math.inf:
                    o.check(not acc, 'nonfinite', 'step {}: candidate without posterior accepted'.format(s.i))
                else:
                    dec.append((s.i, math.exp(min(0., d)), st['u'], acc))
                if s.nomatch:
                    o.bad('step {} after continuing: candidate matches no outcome of the last adaptation'.format(s.i))
                elif not s.ambiguous:
                    o.check(shadow.same_draw(st['obs'], s.old, st['z'], s.factors[0]), 'candidates',
                            lambda: 'step {} after continuing {} rows: candidate {} is not {} plus normals {} with covariance {}'.format(
                                s.i, n1, st['obs'], s.old, st['z'], (s.factors[0].T @ s.factors[0]).tolist()))
        judge(o, dec)
        res = tr.res
        o.check(near(np.asarray(res['theta'], float), sc.full(tr.chain[-1]), 0), 'final', 'final values {}'.format(res['theta']))
        o.check(eqn(np.asarray(res['prior']['mu'], float), sc.mu), 'reported', 'prior mean reported {} expected {}'.format(res['prior']['mu'], sc.mu))
        if on:
            for isimu, a, evs, mk in tr.steps():
                o.check(eqn(mk[5], tr.s2[n1 - 1 + isimu]), 'variance', 'step {}: variance in use differs from the stored one'.format(isimu))
        if o.viol:
            break
    o.sig = sc.ident() + str(hist)
    o.sample = dict(scenario=sc.describe(), legs=hist, rows=len(tr.chain))
    return o.done()

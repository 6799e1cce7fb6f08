"""Proposals: every evaluated candidate against the recorded normals and the reference proposal covariance."""
import math

import numpy as np
from scipy import stats

from vlib import rec, shadow
from .common import Out, count, near, seeds

PROP = 'P05'
LEVEL = 'exploration'
RULE = 'distinct configurations whose evaluated candidates and reported covariances were compared with the reference'
ASSUMPTIONS = ['any square root of the reference covariance is accepted',
               'where the chain covariance is singular within rounding, any of the documented outcomes (use, regularise, keep) '
               'is accepted; burn-in rejection ratios exactly at a threshold may go either way',
               'if candidates cannot be attributed to recorded normals, whitened candidates are tested for unit covariance (6 sigma) and normal shape']
REQUIRE = {'candidates': 5000, 'adaptations': 200, 'reported': 200, 'ev_adapt': 100, 'ev_up': 3, 'ev_down': 3, 'ev_ram': 300}
STREAM = ('candidates', 'ev_ram')


def cases(tier, seed):
    out = seeds(seed, count(tier, 420, 6000), 5)
    for c in out:
        w = {}
        k = c['i'] % 10
        if k in (0, 1, 2):
            w = dict(method=['am', 'dram'][c['i'] // 10 % 2], adaptint=[5, 10, 20, 33, 50, 1, 2][c['i'] // 20 % 7],
                     nsimu=[150, 250, 400][k], burnin=False, bounds=['none', 'wide'][k % 2], qfac=(-1, .5))
        elif k in (3, 4):
            w = dict(method=['am', 'dram'][c['i'] // 10 % 2], adaptint=[5, 10, 20, 1][c['i'] // 20 % 4], nsimu=250, burnin=True,
                     qfac=[(-9, -6), (4, 6), (-1, 1)][c['i'] // 10 % 3])
            if c['i'] // 40 % 2:        # rates passing slowly through the thresholds
                w.update(adaptint=[33, 40, 60, 90][c['i'] // 80 % 4], nsimu=600, bounds='none', hole=None, startspread=.5,
                         qfac=[(-7, -4), (3, 6)][c['i'] // 10 % 2], opts=dict(burnintime=600, burnin_scale=[1.25, 1.5][c['i'] // 20 % 2]))
        elif k == 5:
            w = dict(method=['am', 'dram'][c['i'] // 10 % 2], adaptint=10, nsimu=250, adaptflags=True, npar=3)
        elif k == 6:
            w = dict(qmode='none', nsimu=60)
            if c['i'] // 10 % 3 == 0:
                w['tiny'] = True
            elif c['i'] // 10 % 3 == 1:
                w['narrow'] = True
        elif k == 7:
            w = dict(method=['am', 'dram'][c['i'] // 10 % 2], adaptint=10, nsimu=250, opts=dict(initqcovn=[1, 3., 50][c['i'] // 10 % 3]))
        elif k == 8:
            w = dict(method=['am', 'dram'][c['i'] // 10 % 2], adaptint=10, nsimu=400, opts=dict(lastadapt=[10, 95, 100, 205][c['i'] // 10 % 4]))
        elif k == 9 and c['i'] // 10 % 2:
            w = dict(method='ram', adaptflags=False, nsimu=[60, 150, 400][c['i'] // 20 % 3], adaptint=[None, None, 5][c['i'] // 20 % 3], ntry=[1, 2, 1, 3][c['i'] // 20 % 4],
                     qfac=[(-3, 0), (-1, 1), (1, 4)][c['i'] // 20 % 3], opts=dict(alphatarget=.4, etaparam=.6) if c['i'] // 60 % 2 else {})
        elif k == 9 and c['i'] // 20 % 3 == 0:        # the usual length and intervals
            w = dict(method=['am', 'dram'][c['i'] // 60 % 2], nsimu=[1300, 2400][c['i'] // 120 % 2], adaptint=100, qfac=(-1, .5), burnin=False)
        c['want'] = w
        c['kind'] = 'run'
    for i in range(count(tier, 24, 96)):
        out.append(dict(kind='white', i=i, seed=rec.sub(seed, i, 505)))
    return out


def run(case):
    return run_white(case) if case['kind'] == 'white' else run_run(case)


def run_run(case):
    o = Out()
    sc = rec.gen(case['seed'], **case['want'])
    tr = rec.run_scen(sc)
    ref = None
    for s in shadow.walk(tr):
        ref = s.ref
        if not s.parsed:
            o.hit('unparsed')
            continue
        if s.nomatch:
            z, e = s.stages[0]['z'], s.stages[0]['ss'][1][sc.par]
            if True:
                o.bad('step {}: candidate {} from {} matches none of the documented outcomes of the last adaptation'.format(s.i, e, s.old))
            continue
        if s.ambiguous:
            o.hit('undecided')
            continue
        for k, st in enumerate(s.stages):
            if st['obs'] is None:
                continue
            o.check(shadow.same_draw(st['obs'], s.old, st['z'], s.factors[k]), 'candidates',
                    lambda: 'step {} stage {}: candidate {} is not {} plus normals {} with covariance {} ({} adaptations so far: {})'.format(
                        s.i, k + 1, st['obs'], s.old, st['z'], (s.factors[k].T @ s.factors[k]).tolist(), ref.nadapt, ref.events[-3:]))
    if ref is None:
        return o.done()
    for e in ref.events:
        o.hit('ev_' + e)
    o.hit('adaptations', len(ref.events))
    # what the results say
    res = tr.res
    R = np.asarray(res['R'], dtype=float)
    cands = [ref.R] if ref.amb is None else [c.R for c in ref.amb]

    def samecov(A, B):
        d = np.sqrt(np.outer(np.diag(B), np.diag(B)))
        return A.shape == B.shape and bool(np.all(np.abs(A - B) <= 1e-6 * d + 1e-15 * float(np.abs(tr.chain).max())**2))
    okR = [c for c in cands if samecov(R.T @ R, c.T @ c)]
    o.check(bool(okR) or ref.amb is not None, 'reported', lambda: 'reported R gives covariance {} but the proposal in use is {} ({})'.format(
        (R.T @ R).tolist(), (cands[0].T @ cands[0]).tolist(), ref.events[-3:]))
    o.check(near(res['qcov'], R.T @ R, 1e-9, 1e-14 * float(np.abs(R.T @ R).max())), 'reported', 'reported qcov is not R\'R')
    want = ref.cov
    if want is None:
        o.check(res['cov'] is None and res['mean'] is None, 'reported', 'chain covariance reported although none was computed')
    else:
        sd2 = np.abs(tr.chain).max()**2
        o.check(res['cov'] is not None and near(np.atleast_2d(res['cov']), want, 1e-6, 1e-12 * sd2 + 1e-9 * float(np.abs(want).max())), 'reported',
                'reported chain covariance {} expected {}'.format(res['cov'], want))
        o.check(res['mean'] is not None and near(np.asarray(res['mean'], dtype=float).reshape(-1), ref.mean, 1e-7, 1e-9 * math.sqrt(sd2)), 'reported',
                'reported chain mean {} expected {}'.format(res['mean'], ref.mean))
    if okR and sc.ntry > 1:
        fac = sc.stage_factors(okR[0], ref.initial)
        got = [np.asarray(x, dtype=float) for x in res['RDR']]
        o.check(len(got) == sc.ntry and all(samecov(a.T @ a, b.T @ b) for a, b in zip(got, fac)), 'reported',
                'reported stage proposals {} expected {}'.format(got, fac))
    o.check(near(res['qcov_scale'], ref.scale, 1e-12), 'reported', 'reported scale {}'.format(res['qcov_scale']))
    o.sig = sc.ident()
    o.sample = dict(scenario=sc.describe(), adaptations=ref.events[:12], candidates=o.obs.get('candidates', 0))
    return o.done()


def run_white(case):
    """Distribution of candidates around the state, without looking at the random stream."""
    o = Out()
    sc = rec.gen(case['seed'], bounds='none', hole=None, style='ss_arr', method=['mh', 'am'][case['i'] % 2], nsimu=1500, adaptint=50,
                 ntry=1, npar=[1, 2, 3, 4, 6, 8][case['i'] // 2 % 6], qmode=['full', 'vec', 'none'][case['i'] % 3], burnin=False, startspread=.5)
    tr = rec.run_scen(sc)
    W = []
    for s in shadow.walk(tr):
        if s.ambiguous or not s.evals:
            continue
        R = s.factors[0]
        if np.linalg.cond(R) > 1e6:
            continue
        W.append(np.linalg.solve(R.T, s.evals[0][1][sc.par] - s.old))
    if len(W) > 200:
        W = np.array(W)
        n = len(W)
        z1 = W.mean(0) * math.sqrt(n)
        C = W.T @ W / n - np.eye(sc.ns)
        z2 = C * math.sqrt(n) / np.where(np.eye(sc.ns), math.sqrt(2), 1)
        L = (W[1:] * W[:-1]).mean(0) * math.sqrt(n)
        # the shape: every component, and the squared distance, against their distributions
        p = min([stats.kstest(W[:, j], 'norm').pvalue for j in range(sc.ns)] + [stats.kstest((W**2).sum(1), 'chi2', args=(sc.ns,)).pvalue])
        o.check(p > 1e-9, 'shape', 'whitened candidates are not normal (p = {:.2g})'.format(p))
        m = max(np.abs(z1).max(), np.abs(z2).max(), np.abs(L).max())
        o.check(m < 6.5, 'whitened', 'whitened candidates: mean z {} covariance z {} lag z {}'.format(z1, z2.tolist(), L))
    o.sig = sc.ident() + 'white'
    return o.done()

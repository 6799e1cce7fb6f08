"""Reported figures against the recorded steps, and reported settings against the configuration."""
import numpy as np

from vlib import rec, shadow
from .common import Out, count, eqn, near, seeds

PROP = 'P07'
LEVEL = 'exploration'
RULE = 'distinct configurations (and continued runs) whose reported figures were recomputed from the recorded steps'
ASSUMPTIONS = ['steps whose candidates cannot be attributed to stages are counted only in the total']
REQUIRE = {'figures': 800, 'stagecounts': 60, 'oob_counts': 60, 'settings': 1000, 'same_length': 5, 'again': 10}
STREAM = ('stagecounts', 'oob_counts')


def cases(tier, seed):
    out = seeds(seed, count(tier, 400, 6000), 7)
    for c in out:
        w = {}
        k = c['i'] % 6
        if k == 0:
            w = dict(bounds='tight', qfac=(0, 3), method='dram')
        elif k == 1:
            w = dict(bounds='mixed', qfac=(0, 3), method='dr', ntry=2 + c['i'] // 6 % 5)
        elif k == 2:
            w = dict(bounds='onbound', method=['mh', 'am'][c['i'] // 6 % 2])
        elif k == 5 and c['i'] // 6 % 8 == 0:
            w = dict(nsimu=[1300, 2400][c['i'] // 48 % 2])
        c['want'] = w
        c['cont'] = c['i'] % 5 == 0
    return out


def figures(o, sc, tr, nsimu, offset, R0=None, theta_start=None):
    res = tr.res
    nrej = oob = still = 0
    byst = np.zeros(max(sc.ntry, 1), dtype=int)
    clear = True
    for s in shadow.walk(tr, offset=offset, R0=R0, theta_start=theta_start):
        if not s.accept:
            nrej += 1
            o.check(np.array_equal(s.old, s.new), 'kept', 'step {} moved although rejected'.format(s.i))
        elif np.array_equal(s.old, s.new) and any(np.array_equal(e[1][sc.par], s.old) for e in s.evals):
            still += 1      # a candidate equal to the state
        if not s.parsed:
            clear = False
            continue
        if s.accept:
            byst[len(s.stages) - 1] += 1
        elif s.stages[-1]['ss'] is None:
            oob += 1
    moved = int((np.diff(tr.chain[offset:], axis=0) != 0).any(1).sum())
    o.check(nrej == nsimu - 1 - moved - still, 'figures', '{} steps kept the state but {} were flagged rejected'.format(
        nsimu - 1 - moved - still, nrej))
    o.check(near(res['total_rejected'], nrej / nsimu, 1e-12), 'figures', 'total rejection rate {} but {} of {} rejected'.format(
        res['total_rejected'], nrej, nsimu))
    if clear:
        o.check(near(res['rejected_outside_bounds'], oob / nsimu, 1e-12), 'oob_counts',
                'out-of-bounds rate {} but {} of {}'.format(res['rejected_outside_bounds'], oob, nsimu))
    if sc.ntry > 1:
        ia = np.asarray(res['iacce'])
        o.check(ia.shape == (sc.ntry,) and ia.sum() + nrej == nsimu, 'figures', 'stage counts {} and {} rejections for {} simulations'.format(
            ia, nrej, nsimu))
        if clear and ia.shape == (sc.ntry,):
            want = byst.copy()
            want[0] += 1      # the starting point
            o.check(np.array_equal(ia, want), 'stagecounts', 'stage acceptance counts {} but observed {}'.format(ia, want))
    o.check(res['nsimu'] == nsimu, 'figures', 'nsimu reported {} expected {}'.format(res['nsimu'], nsimu))


def settings(o, sc, tr):
    res, names = tr.res, sc.expected_names()

    def chk(what, ok, got, want):
        o.check(ok, 'settings', lambda: 'reported {} is {} expected {}'.format(what, got, want))
    chk('names', list(res['names']) == [names[i] for i in sc.par], res['names'], [names[i] for i in sc.par])
    chk('allnames', list(res['allnames']) == names, res['allnames'], names)
    chk('parind', np.array_equal(np.asarray(res['parind']), sc.par), res['parind'], sc.par)
    lim = np.asarray(res['limits'], dtype=float)
    chk('limits', lim.shape == (2, sc.ns) and eqn(lim[0], sc.lo[sc.par]) and eqn(lim[1], sc.hi[sc.par]), lim, (sc.lo[sc.par], sc.hi[sc.par]))
    so = res['simulation_options']
    chk('method', so['method'] == sc.opts['method'], so['method'], sc.opts['method'])
    chk('ntry', so['ntry'] == sc.ntry, so['ntry'], sc.ntry)
    ai = 0 if sc.opts['method'] in ('mh', 'dr') else (sc.opts.get('adaptint') or (1 if sc.opts['method'] == 'ram' else 100))
    chk('adaptint', so['adaptint'] == ai, so['adaptint'], ai)
    on = bool(sc.opts['updatesigma']) or 'N0' in sc.ms
    chk('updatesigma', bool(so['updatesigma']) == on, so['updatesigma'], on)
    for k in ('burnintime', 'qcov_adjust', 'burnin_scale'):
        if k in sc.opts:
            chk(k, so[k] == sc.opts[k], so[k], sc.opts[k])
    pr = res['prior']
    chk('prior mean', eqn(np.asarray(pr['mu'], float), sc.mu), pr['mu'], sc.mu)
    chk('prior sigma', eqn(np.asarray(pr['sigma'], float), sc.sig), pr['sigma'], sc.sig)
    ms = res['model_settings']
    chk('nsos', ms['nsos'] == sc.nsos, ms['nsos'], sc.nsos)
    chk('nbatch', ms['nbatch'] == sc.nbatch, ms['nbatch'], sc.nbatch)
    chk('N', near(np.asarray(ms['N'], float), sc.N(), 1e-12), ms['N'], sc.N())
    chk('N0', near(np.asarray(ms['N0'], float), sc.N0(), 1e-12), ms['N0'], sc.N0())
    chk('S20', near(np.asarray(ms['S20'], float), sc.S20(), 1e-12), ms['S20'], sc.S20())
    if sc.ntry > 1:
        ds = np.asarray(sc.opts.get('drscale', np.array([5., 4., 3.])), float)
        chk('drscale', eqn(np.asarray(res['drscale'], float), ds), res['drscale'], ds)
    R = np.asarray(res['R'], float)
    chk('qcov', near(res['qcov'], R.T @ R, 1e-9, 1e-13 * float(np.abs(R.T @ R).max())), res['qcov'], R.T @ R)
    if sc.opts['method'] in ('mh', 'dr'):
        R0 = sc.R0()
        chk('R', near(R.T @ R, R0.T @ R0, 1e-9, 1e-12 * float(np.abs(R0.T @ R0).max())), R, R0)
    oc = np.atleast_2d(np.asarray(res['original_covariance'], float))
    oc = np.diag(oc.ravel()) if min(oc.shape) == 1 else oc
    chk('original_covariance', oc.shape == (sc.nt, sc.nt) and near(oc[np.ix_(sc.par, sc.par)], sc.qcov0(), 1e-12), oc, sc.qcov0())
    q = np.asarray(res['qcovorig'], float)
    chk('qcovorig', q.shape == (sc.nt, sc.nt) and near(q[np.ix_(sc.par, sc.par)], res['qcov'], 1e-12), q, res['qcov'])
    chk('chain rows', len(tr.chain) == len(tr.ss) and (tr.s2 is None or len(tr.s2) == len(tr.chain)), len(tr.ss), len(tr.chain))


def run(case):
    o = Out()
    sc = rec.gen(case['seed'], **case['want'])
    tr = rec.run_scen(sc)
    n = sc.opts['nsimu']
    figures(o, sc, tr, n, 0)
    settings(o, sc, tr)
    if case['cont']:
        n2 = n if case['i'] // 5 % 2 and 1 < n < 400 else 30 + case['i'] % 40      # also of the length of the first run
        o2 = dict(sc.opts, nsimu=n2)
        tr.m.simulation_options.define_simulation_options(**o2)
        start = tr.chain[-1].copy()
        tr2 = rec.run_scen(sc, m=tr.m, use_previous_results=True)
        figures(o, sc, tr2, n2, n - 1)
        o.hit('continued')
        o.hit('same_length', n2 == n)
    elif case['i'] % 5 == 1 and n < 400:      # again from the start on the same object: the figures are of the second run only
        tr2 = rec.run_scen(sc, m=tr.m)
        figures(o, sc, tr2, n, 0)
        settings(o, sc, tr2)
        o.hit('again')
    o.sig = sc.ident()
    o.sample = dict(scenario=sc.describe(), total_rejected=tr.res['total_rejected'], outside=tr.res['rejected_outside_bounds'],
                    iacce=str(tr.res.get('iacce')))
    return o.done()

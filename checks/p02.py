"""Limits: every callback argument and stored row is inside, and the candidates discarded unevaluated are
exactly those the recorded normals put outside."""
import math

import numpy as np
from scipy.stats import norm

from vlib import rec, shadow
from .common import Out, binom_z, count, refused, seeds

PROP = 'P02'
LEVEL = 'exploration'
RULE = 'distinct configurations with limits whose run was recorded and every candidate classified'
ASSUMPTIONS = ['candidates within rounding of a limit are not classified',
               'candidates never evaluated are reconstructed from the recorded normals, in runs where the evaluated '
               'ones are reproduced that way; otherwise the expected share of discarded candidates is tested (6 sigma)']
REQUIRE = {'callback_in_limits': 5000, 'refusals': 20, 'on_limit': 200, 'near_limit': 300}


def cases(tier, seed):
    out = seeds(seed, count(tier, 320, 5000), 2)
    modes = ['tight', 'mixed', 'onbound', 'tight']
    for c in out:
        c['kind'] = 'run'
        c['bounds'] = modes[c['i'] % 4]
        c['method'] = ['mh', 'dr', 'dram', 'am', 'dr', None][c['i'] % 6]
    n = len(out)
    for i in range(count(tier, 60, 600)):
        out.append(dict(kind='refuse', i=n + i, seed=rec.sub(seed, i, 202)))
    for i in range(count(tier, 12, 60)):
        out.append(dict(kind='edge', i=i, seed=rec.sub(seed, i, 204)))
    for i in range(count(tier, 24, 120)):
        out.append(dict(kind='near', i=i, seed=rec.sub(seed, i, 205)))
    for i in range(count(tier, 12, 60)):
        out.append(dict(kind='prob', i=i, seed=rec.sub(seed, i, 203)))
    return out


def run(case):
    return dict(near=run_near, run=run_run, refuse=run_refuse, prob=run_prob, edge=run_edge)[case['kind']](case)


def in_limits(o, sc, ev):
    lo, hi = sc.lo[sc.par], sc.hi[sc.par]
    for e in ev:
        if e[0] in ('ss', 'model', 'prior'):
            t = e[1] if e[0] == 'prior' else e[1][sc.par]
            o.check(bool(np.all((t >= lo) & (t <= hi))), 'callback_in_limits',
                    lambda: '{} called at {} outside [{}, {}]'.format(e[0], t, lo, hi))


def run_run(case):
    o = Out()
    want = dict(bounds=case['bounds'], qfac=(-1, 3))
    if case['method']:
        want['method'] = case['method']
    sc = rec.gen(case['seed'], **want)
    tr = rec.run_scen(sc)
    lo, hi = sc.lo[sc.par], sc.hi[sc.par]
    o.check(bool(np.all((tr.chain >= lo) & (tr.chain <= hi))), 'chains', 'stored samples outside [{}, {}]: {}'.format(
        lo, hi, tr.chain[~np.all((tr.chain >= lo) & (tr.chain <= hi), axis=1)][:3]))
    in_limits(o, sc, tr.ev)
    cls = []
    ok = tot = 0
    for s in shadow.walk(tr):
        if not s.parsed or s.ambiguous:
            continue
        for k, st in enumerate(s.stages):
            if st['match'] is not None:
                tot += 1
                ok += bool(st['match'])
            cls.append((s.i, k, st['pred'], st['pred_in'], st['obs'] is not None, st['tie']))
    if tot and ok < .98 * tot:
        o.hit('not_reconstructed')
    elif ok > 0 or (sc.opts['method'] in ('mh', 'dr') and not (sc.updatesigma and sc.ns == 1)):      # lone normals may belong to the variance
        for i, k, pred, pin, seen, tie in cls:
            if tie:
                continue
            o.check(pin == seen, 'in' if pin else 'out', lambda: 'step {} stage {}: candidate {} is {} [{}, {}] but was {}evaluated'.format(
                i, k + 1, pred, 'inside' if pin else 'outside', lo, hi, '' if seen else 'not '))
    # limits on the library's own record
    o.sig = sc.ident()
    o.sample = dict(scenario=sc.describe(), candidates=len(cls), outside=sum(not c[3] for c in cls))
    return o.done()


def run_prob(case):
    """Independent of the random-stream layout: share of steps that evaluated a candidate, known diagonal proposal."""
    o = Out()
    sc = rec.gen(case['seed'], bounds=['tight', 'onbound', 'mixed'][case['i'] % 3], method='mh', ntry=1, nsimu=800, qmode='vec',
                 style='ss_arr', npar=2 + case['i'] % 3, rdr=False)
    tr = rec.run_scen(sc)
    sd = np.sqrt(np.diag(sc.qcov0()))
    lo, hi = sc.lo[sc.par], sc.hi[sc.par]
    acc, p = [], []
    for isimu, a, evs, mk in tr.steps():
        old = tr.chain[isimu - 1]
        p.append(float(np.prod(norm.cdf((hi - old) / sd) - norm.cdf((lo - old) / sd))))
        acc.append(any(e[0] == 'ss' for e in evs))
    z = binom_z(acc, p)
    o.check(abs(z) < 6, 'share', 'evaluated {} of {} candidates, {:.1f} expected (z = {:.1f})'.format(
        sum(acc), len(acc), sum(p), z))
    in_limits(o, sc, tr.ev)
    o.sig = sc.ident() + 'prob'
    return o.done()


def run_edge(case):
    """Steps far below the spacing of floating point numbers: every candidate lies exactly on a limit, so it is inside."""
    o = Out()
    r = np.random.default_rng(case['seed'])
    k = 1 + case['i'] % 3
    nfix = case['i'] % 2
    th0 = np.round(r.normal(size=k), 3) * 10.**r.integers(0, 6, k)
    th0[th0 == 0] = 1.
    up = r.random(k) < .5
    pts = []

    def ss(q, data):
        pts.append(np.array(q[nfix:]))
        return float(((q[nfix:] - th0)**2).sum())
    m = rec.MCMC(rngseed=int(r.integers(1, 2**31)))
    m.data.add_data_set(np.arange(3.), np.arange(3.))
    m.model_settings.define_model_settings(sos_function=ss)
    n = 40
    m.simulation_options.define_simulation_options(nsimu=n, method=['mh', 'dr'][case['i'] // 2 % 2], waitbar=False, verbosity=0,
                                                   qcov=np.diag(np.append(np.ones(nfix), (np.abs(th0) * 1e-19)**2)))
    for _ in range(nfix):
        m.parameters.add_model_parameter('fixed', theta0=100., minimum=-1., maximum=101., sample=False)
    for i in range(k):
        lim = dict(maximum=th0[i]) if up[i] else dict(minimum=th0[i])
        if r.random() < .5:
            lim.setdefault('minimum', th0[i] - 1)
            lim.setdefault('maximum', th0[i] + 1)
        m.parameters.add_model_parameter('q%d' % i, theta0=th0[i], **lim)
    m.run_simulation()
    o.check(len(pts) >= n and all(np.array_equal(p, th0) for p in pts), 'edge', 'candidates on the limits {} were not all evaluated: '
            '{} evaluations in {} steps'.format(th0, len(pts), n))
    o.hit('on_limit', len(pts))
    res = m.simulation_results.results
    o.check(res['total_rejected'] == 0, 'edge', 'candidates on the limits {} were rejected (rate {})'.format(th0, res['total_rejected']))
    o.sig = 'edge|{}|{}'.format(th0, up)
    return o.done()


def run_near(case):
    """Steps of a few floating point numbers next to a limit: nothing beyond the limit is evaluated or stored, and what lies
    inside is."""
    o = Out()
    r = np.random.default_rng(case['seed'])
    k = 1 + case['i'] % 3
    th0 = np.round(r.normal(size=k), 3) * 10.**r.integers(-3, 6, k)
    th0[th0 == 0] = 1.
    up = r.random(k) < .5
    step = np.abs(th0) * 10.**r.uniform(-14, -6, k)
    pts = []

    def ss(q, data):
        pts.append(np.array(q))
        return 1.
    m = rec.MCMC(rngseed=int(r.integers(1, 2**31)))
    m.data.add_data_set(np.arange(3.), np.arange(3.))
    m.model_settings.define_model_settings(sos_function=ss)
    n = 150
    m.simulation_options.define_simulation_options(nsimu=n, method=['mh', 'dr'][case['i'] // 2 % 2], waitbar=False, verbosity=0, qcov=np.diag(step**2))
    lo, hi = np.where(up, -np.inf, th0), np.where(up, th0, np.inf)
    for i in range(k):
        m.parameters.add_model_parameter('q%d' % i, theta0=th0[i], minimum=lo[i], maximum=hi[i])
    m.run_simulation()
    ch = m.simulation_results.results['chain']
    for q in pts:
        o.check(bool(np.all((q >= lo) & (q <= hi))), 'near_limit', lambda: 'evaluated at {!r}, beyond the limit {!r}'.format(q.tolist(), th0.tolist()))
    o.check(bool(np.all((ch >= lo) & (ch <= hi))), 'near_limit', 'stored rows beyond the limits {!r}'.format(th0.tolist()))
    o.sig = 'near|{}|{}'.format(th0, up)
    return o.done()


def run_refuse(case):
    """Contradictory limits or a start outside its limits: refused, nothing sampled."""
    o = Out()
    r = np.random.default_rng(case['seed'])
    sc = rec.gen(case['seed'], bounds='wide', nsimu=20)
    k = int(r.choice(sc.par))
    mode = ['start_low', 'start_high', 'flipped', 'start_low', 'start_high', 'eps_low', 'eps_high', 'valid'][case['i'] % 8]
    w = float(np.exp(r.uniform(-6, 3)))
    if mode == 'start_low':
        sc.lo[k], sc.hi[k] = sc.th0[k] + w, sc.th0[k] + 2 * w + 1
    elif mode == 'start_high':
        sc.lo[k], sc.hi[k] = sc.th0[k] - 2 * w - 1, sc.th0[k] - w
    elif mode == 'eps_low':
        sc.lo[k] = np.nextafter(sc.th0[k], np.inf)
    elif mode == 'eps_high':
        sc.hi[k] = np.nextafter(sc.th0[k], -np.inf)
    elif mode == 'flipped':
        sc.lo[k], sc.hi[k] = sc.th0[k] + w, sc.th0[k] - w
    elif case['i'] // 8 % 2:      # an interval of a single value is no contradiction
        sc.lo[k] = sc.hi[k] = sc.th0[k]
    with rec.recording() as ev:
        m = sc.build()
        no = refused(m.run_simulation)
    calls = [e for e in ev if e[0] in ('ss', 'model')]
    if mode == 'valid':
        if o.check(not no, 'valid_accepted', 'valid limits [{}, {}] with start {} were refused'.format(sc.lo[k], sc.hi[k], sc.th0[k])):
            c = np.asarray(m.simulation_results.results['chain'])[:, list(sc.par).index(k)]
            o.check((c >= sc.lo[k]).all() and (c <= sc.hi[k]).all(), 'chains', 'the chain leaves the limits')
    else:
        o.check(no and not calls, 'refusals', '{} for parameter {} (limits [{}, {}], start {}): refused={}, evaluations={}'.format(
            mode, k, sc.lo[k], sc.hi[k], sc.th0[k], no, len(calls)))
    o.sig = sc.ident() + mode
    return o.done()

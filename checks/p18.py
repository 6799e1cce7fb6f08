"""Settings, data bookkeeping and the default misfit against a reference; inconsistent settings must be refused."""
import json
import os

import numpy as np

from vlib import rec
from .common import Out, count, eqn, near, refused
from .deep import diff, snap

PROP = 'P18'
LEVEL = 'exploration'
RULE = 'distinct (data layout, weights, model style), (settings forms, components, batches) and refusal configurations'
ASSUMPTIONS = ['an error variance prior without a prior weight is not generated (which default then applies is not documented)',
               'a refusal is any exit or exception raised before a result is reported']
REQUIRE = {'misfits': 3000, 'multicolumn': 30, 'calls': 3000, 'resolved': 600, 'reruns': 100, 'refusals': 100, 'accepted': 80, 'counts': 300, 'defaults': 60, 'omitted': 200}


def cases(tier, seed):
    out = [dict(kind='misfit', i=i, seed=rec.sub(seed, i, 18)) for i in range(count(tier, 130, 2500))]
    out += [dict(kind='settings', i=i, seed=rec.sub(seed, i, 1801)) for i in range(count(tier, 160, 3000))]
    out += [dict(kind='rerun', i=i, seed=rec.sub(seed, i, 1802)) for i in range(count(tier, 70, 900))]
    out += [dict(kind='refuse', i=i, seed=rec.sub(seed, i, 1803)) for i in range(count(tier, 120, 900))]
    out += [dict(kind='omit', i=i, seed=rec.sub(seed, i, 1805)) for i in range(count(tier, 110, 1500))]
    out += [dict(kind='counts', i=i, seed=rec.sub(seed, i, 1804)) for i in range(count(tier, 60, 600))]
    return out


def run(case):
    o = Out()
    r = np.random.default_rng(case['seed'])
    globals()['k_' + case['kind']](o, r, case['i'], case)
    o.sig = o.sig or '{}|{}'.format(case['kind'], case['seed'])
    return o.done()


def base(m, r, ns, start=None):
    th = r.normal(size=ns) if start is None else start
    for k in range(ns):
        m.parameters.add_model_parameter(name='t%d' % k, theta0=float(th[k]))
    return th


# ------------------------------------------------------------------------------------------------
def k_misfit(o, r, i, case):
    nb = int(r.choice([1, 2, 3, 4]))
    ns = int(r.choice([1, 2, 3]))
    m = rec.MCMC(rngseed=int(r.integers(1, 2**31)))
    B = []
    for b in range(nb):
        n = int(r.integers(1, 12))
        c = int(r.choice([1, 1, 2, 3]))
        x = r.normal(size=(n, 2)) if r.random() < .5 else r.normal(size=n)
        y = r.normal(size=(n, c)) if c > 1 or r.random() < .5 else r.normal(size=n)
        w = [1, None, float(np.exp(r.uniform(-3, 3))), int(r.integers(1, 9))][int(r.integers(0, 4))]
        if b and i % 5 and r.random() < .15:
            w = [0, 0.][i % 2]      # a data set that is to count for nothing
            o.hit('zero_weights')
        if r.random() < .2:
            x, y = np.asarray(x).tolist(), np.asarray(y).tolist()
        kw = {} if w is None else dict(weight=w)
        m.data.add_data_set(x, y, **kw)
        B.append((np.asarray(x, dtype=float).reshape(n, -1), np.asarray(y, dtype=float).reshape(n, -1), 1. if w is None else float(w)))
        o.hit('multicolumn', c > 1)
    flat, mutate = bool(i % 2), i % 3 == 0
    seen = []

    def resp(x, th, c):
        x = np.asarray(x, dtype=float)
        return np.column_stack([th.sum() * x[:, 0] + (k + 1) * np.cos(th[0] + x.sum(axis=1)) for k in range(c)])

    def model(x, th):
        t = np.array(th, dtype=float, copy=True)
        k = [b for b in range(nb) if eqn(np.asarray(x, dtype=float), B[b][0])]
        seen.append((t, k))
        if not k:
            o.bad('the model was evaluated with inputs of no batch')
            return np.zeros(1)
        c = B[k[0]][1].shape[1]
        Y = resp(x, t, c)
        if mutate:
            th[:] = 77.
        return Y[:, 0] if flat and c == 1 else Y
    th0 = base(m, r, ns)
    m.simulation_options.define_simulation_options(nsimu=40, waitbar=False, verbosity=0, method=['mh', 'am', 'dr', 'dram'][i % 4], updatesigma=bool(i % 5 == 0),
                                                   qcov=np.eye(ns) * .05)
    m.model_settings.define_model_settings(model_function=model, sigma2=5.)
    m.run_simulation()
    res = m.simulation_results.results
    ch, ss = np.asarray(res['chain']), np.asarray(res['sschain'])
    o.check(eqn(ch[0], th0), 'start', 'the chain does not start at the configured values')
    if not o.check(ss.shape == (40, nb), 'shapes', 'misfit chain of shape {} for {} batches'.format(ss.shape, nb)):
        return
    for a in range(len(ch)):
        ref = np.array([w * float(((y - resp(x, ch[a], y.shape[1]))**2).sum()) for x, y, w in B])
        o.check(near(ss[a], ref, 1e-9), 'misfits', lambda: 'row {}: misfits {} instead of {} (weights {})'.format(a, ss[a].tolist(), ref.tolist(), [b[2] for b in B]))
    # every batch is evaluated equally often, at the same points
    tot = {}
    for t, k in seen:
        o.hit('calls')
        for kk in k[:1]:
            tot.setdefault(kk, []).append((t + 0.).tobytes())
    o.check(len(tot) == nb and len(set(map(tuple, tot.values()))) == 1, 'batches', 'batches were not evaluated at the same points')
    N = [len(b[1]) for b in B]
    o.check(near(np.ravel(res['model_settings']['N']), np.array(N, dtype=float)), 'resolved', lambda: 'observation counts {} instead of {}'.format(res['model_settings']['N'], N))
    o.sample = dict(batches=[[list(b[0].shape), list(b[1].shape), b[2]] for b in B])


# ------------------------------------------------------------------------------------------------
def form(r, v, nsos):
    """One user form of a value (scalar) or of a vector with one entry per component; returns (given, expected)."""
    k = int(r.integers(0, 6))
    if k == 0:
        return float(v[0]), np.full(nsos, v[0])
    if k == 1:
        return int(np.ceil(v[0])), np.full(nsos, float(int(np.ceil(v[0]))))
    if k == 2:
        return [float(v[0])], np.full(nsos, v[0])
    if k == 3:
        return np.array([v[0]]), np.full(nsos, v[0])
    if k == 4:
        return [float(a) for a in v[:nsos]], v[:nsos].copy()
    return v[:nsos].copy(), v[:nsos].copy()


def setup_settings(r, i):
    nsos = int(r.choice([1, 2, 3, 4, 5]))
    nb = int(r.choice([1, nsos])) if nsos > 1 else int(r.choice([1, 2, 3]))
    ns = [int(r.integers(3, 20)) for _ in range(nb)]
    if r.random() < .3:
        ns = [ns[0]] * nb
    data = [(r.normal(size=n), r.normal(size=n)) for n in ns]
    N = np.array(ns, dtype=float) if nb == nsos else np.array([sum(ns)], dtype=float) if nsos == 1 else np.full(nsos, float(ns[0]))
    ms, ex = {}, dict(N=N, nsos=nsos, nbatch=nb)
    upd = bool(r.random() < .5)
    given = int(r.integers(0, 8))
    if given & 1:
        ms['sigma2'], ex['sigma2'] = form(r, np.exp(r.uniform(-3, 3, 5)), nsos)
    if given & 2:
        ms['N0'], ex['N0'] = form(r, np.exp(r.uniform(-1, 2, 5)) * (0. if i % 9 == 4 else 1.), nsos)
        if given & 4:
            ms['S20'], ex['S20'] = form(r, np.exp(r.uniform(-3, 3, 5)), nsos)
    ex.setdefault('N0', np.full(nsos, 1. if 'sigma2' in ms else 0.))
    ex['updatesigma'] = upd or 'N0' in ms
    ex.setdefault('sigma2', ex['S20'] if 'S20' in ms else np.ones(nsos))
    ex.setdefault('S20', ex['sigma2'])
    if r.random() < .4:
        opts = [[int(n) for n in ns], np.array(ns)]
        if nb == 1:
            opts += [int(ns[0])] + ([np.full(nsos, ns[0])] if nsos > 1 else [])
        else:
            opts += [int(sum(ns))] + ([int(ns[0])] if len(set(ns)) == 1 else [])
        ms['N'] = opts[int(r.integers(0, len(opts)))]
    if r.random() < .2:
        ms['nbatch'] = nb
    return nsos, nb, ns, data, ms, ex, upd


def build(r, nsos, data, ms, upd, nsimu=12, seed=None, method=None, **kw):
    m = rec.MCMC(rngseed=seed)
    for x, y in data:
        m.data.add_data_set(x, y)
    base(m, r, 2)
    o = dict(nsimu=nsimu, waitbar=False, verbosity=0, updatesigma=upd, qcov=np.eye(2) * .1, **kw)
    if method:
        o['method'] = method
    m.simulation_options.define_simulation_options(**o)
    m.model_settings.define_model_settings(sos_function=lambda th, d: np.array([(1 + k) * float((np.asarray(th)**2).sum()) for k in range(nsos)]), **ms)
    return m


def compare_settings(o, res, ex, what, key='resolved'):
    got = res['model_settings']
    for k in ('N', 'N0', 'S20') + (() if ex['updatesigma'] else ('sigma2',)):
        o.check(near(np.ravel(got[k]), np.ravel(ex[k]), 1e-12), key, lambda: '{}: {} resolves to {} instead of {}'.format(what, k, np.ravel(got[k]), np.ravel(ex[k])))
    o.check(int(got['nsos']) == ex['nsos'] and int(np.ravel(got['nbatch'])[0]) == ex['nbatch'], key, '{}: {} components, {} batches'.format(what, got['nsos'], got['nbatch']))
    o.check(bool(res['simulation_options']['updatesigma']) == ex['updatesigma'] and (res['s2chain'] is not None) == ex['updatesigma'], key,
            '{}: variance sampling is {}, expected {}'.format(what, res['simulation_options']['updatesigma'], ex['updatesigma']))
    if ex['updatesigma']:
        o.check(near(np.asarray(res['s2chain'])[0], ex['sigma2'], 1e-12), key, lambda: '{}: the variance chain starts at {} instead of {}'.format(
            what, np.asarray(res['s2chain'])[0], ex['sigma2']))


def k_settings(o, r, i, case):
    nsos, nb, ns, data, ms, ex, upd = setup_settings(r, i)
    before = snap(ms)
    method = [None, 'mh', 'am', 'dr', 'dram'][i % 5]
    kw = {}
    if i % 3 == 0:
        kw['adaptint'] = int(r.choice([7, 50]))
    if i % 4 == 0:
        kw['ntry'] = int(r.choice([1, 2, 3]))
    nsimu = [12, 12., np.int64(12)][i % 3]
    m = build(r, nsos, data, ms, upd, nsimu=nsimu, seed=case['seed'] % 2**31, method=method, **kw)
    m.run_simulation()
    res = m.simulation_results.results
    what = '{} components, {} batches of {}, given {}'.format(nsos, nb, ns, {k: str(v) for k, v in ms.items()})
    compare_settings(o, res, ex, what)
    o.check(diff(before, ms) is None, 'untouched', lambda: 'settings given by the user changed: {}'.format(diff(before, ms)))
    so = res['simulation_options']
    me = method or 'dram'
    o.check(so['method'] == me and int(so['nsimu']) == 12 and len(res['chain']) == 12, 'defaults', '{} with {} simulations'.format(so['method'], so['nsimu']))
    o.check(int(so['ntry']) == kw.get('ntry', {'mh': 1, 'am': 1, 'dr': 2, 'dram': 2}[me]), 'defaults', 'method {} uses {} tries, given {}'.format(me, so['ntry'], kw))
    o.check(int(so['adaptint']) == (kw.get('adaptint', 100) if me in ('am', 'dram') else 0), 'defaults', 'method {} adapts every {}, given {}'.format(me, so['adaptint'], kw))
    o.check(int(so['lastadapt']) == 12, 'defaults', 'last adaptation is {}'.format(so['lastadapt']))
    o.sample = dict(what=what)


# ------------------------------------------------------------------------------------------------
def k_rerun(o, r, i, case):
    """The same object run again from the same random state does exactly the same."""
    if i % 2:
        nsos, nb, ns, data, ms, ex, upd = setup_settings(r, i)
        m = build(r, nsos, data, ms, upd, nsimu=60, method=['mh', 'am', 'dr', 'dram'][i // 2 % 4])
        what = '{} components, {} batches, given {}'.format(nsos, nb, sorted(ms))
    else:
        sc = rec.gen(case['seed'], nsimu=80)
        m = sc.build(rngseed=None)
        what = str(sc.describe())
        ex = None
    s = case['seed'] % 2**31
    runs = []
    for k in range(3):
        np.random.seed(s)
        m.run_simulation()
        res = m.simulation_results.results
        runs.append({k: snap(res[k]) for k in ('chain', 'sschain', 's2chain', 'theta', 'R', 'qcov', 'names', 'limits', 'total_rejected', 'rejected_outside_bounds', 'cov', 'mean')
                     if k in res})
        if ex:
            compare_settings(o, res, ex, '{} (run {})'.format(what, k + 1))
    for k in (1, 2):
        d = diff(runs[0], runs[k])
        o.check(d is None, 'reruns', lambda: 'run {} of the same object from the same random state differs: {} ({})'.format(k + 1, d, what))


# ------------------------------------------------------------------------------------------------
def k_refuse(o, r, i, case):
    n = int(r.integers(4, 12))
    x, y = np.arange(n * 1.), r.normal(size=n)

    def mk(nsos, nb, ms, fn=True, opts=None, model=None, pars=None):
        m = rec.MCMC(rngseed=5)
        for b in range(nb):
            m.data.add_data_set(x[:n - b], y[:n - b])
        if pars:
            for p in pars:
                m.parameters.add_model_parameter(**p)
        else:
            base(m, np.random.default_rng(3), 2)
        o2 = dict(nsimu=6, waitbar=False, verbosity=0)
        o2.update(opts or {})
        m.simulation_options.define_simulation_options(**o2)
        ms = dict(ms)
        if fn:
            ms['sos_function'] = lambda th, d: np.array([float((np.asarray(th)**2).sum() + k) for k in range(nsos)])
        if model is not None:
            ms['model_function'] = model
        m.model_settings.define_model_settings(**ms)
        m.run_simulation()
    k = i % 15
    e = int(r.choice([-2, -1, 1, 3]))
    u = bool(r.random() < .5)
    up = dict(updatesigma=u)
    good = lambda xx, th: np.full((len(xx), 1), th.sum())
    if k == 0:
        bad, ok, what = (lambda: mk(1, 1, dict(N=n + e), opts=up)), (lambda: mk(1, 1, dict(N=n), opts=up)), 'wrong number of observations'
    elif k == 1:
        bad, ok, what = (lambda: mk(2, 2, dict(N=[n, n - 1 + e]), opts=up)), (lambda: mk(2, 2, dict(N=[n, n - 1]), opts=up)), 'wrong number of observations per batch'
    elif k == 2:
        bad, ok, what = (lambda: mk(1, 2, dict(N=2 * n - 1 + e), opts=up)), (lambda: mk(1, 2, dict(N=2 * n - 1), opts=up)), 'wrong total number of observations'
    elif k == 3:
        L = int(r.choice([2, 4, 5]))
        bad, ok, what = (lambda: mk(3, 1, dict(sigma2=np.ones(L)), opts=up)), (lambda: mk(3, 1, dict(sigma2=np.ones(3)), opts=up)), '{} variances for three components'.format(L)
    elif k == 4:
        L = int(r.choice([2, 4]))
        bad, ok, what = (lambda: mk(3, 1, dict(N0=np.ones(L)), opts=up)), (lambda: mk(3, 1, dict(N0=[1., 1., 2.]), opts=up)), '{} prior weights for three components'.format(L)
    elif k == 5:
        L = int(r.choice([2, 3]))
        bad, ok, what = (lambda: mk(1, 1, dict(N0=1, S20=np.ones(L)), opts=up)), (lambda: mk(1, 1, dict(N0=1, S20=np.ones(1)), opts=up)), '{} prior variances for one component'.format(L)
    elif k == 6:
        bad, ok, what = (lambda: mk(1, 1, {}, fn=False, opts=up)), (lambda: mk(1, 1, {}, fn=False, model=good, opts=up)), 'no misfit and no model'
    elif k == 7:
        bad, ok, what = (lambda: mk(3, 2, dict(N0=1), opts=up)), (lambda: mk(2, 2, dict(N0=1), opts=up)), 'three components from two batches'
    elif k == 8:
        d = float(r.uniform(.01, 5)) * r.choice([-1, 1])
        lim = dict(minimum=-1., maximum=1.)
        s = 1 + abs(d) if d > 0 else -1 - abs(d)
        bad, ok, what = (lambda: mk(1, 1, {}, pars=[dict(name='a', theta0=0.), dict(name='b', theta0=float(s), **lim)])), \
            (lambda: mk(1, 1, {}, pars=[dict(name='a', theta0=0.), dict(name='b', theta0=float(np.sign(s)), **lim)])), 'a start outside the limits'
    elif k == 9:
        bad, ok, what = (lambda: mk(1, 1, {}, pars=[dict(name='a', theta0=0., minimum=1., maximum=-1.)])), \
            (lambda: mk(1, 1, {}, pars=[dict(name='a', theta0=0., minimum=-1., maximum=1.)])), 'contradictory limits'
    elif k == 10:
        wrong = lambda xx, th: np.full((len(xx) + 1, 1), th.sum())
        bad, ok, what = (lambda: mk(1, 1, {}, fn=False, model=wrong)), (lambda: mk(1, 1, {}, fn=False, model=good)), 'a model response of another length than the data'
    elif k == 12:
        v = [n, n - 1, n - 2][i // 15 % 3]
        bad, ok, what = (lambda: mk(3, 3, dict(N=int(v)), opts=up)), (lambda: mk(3, 3, dict(N=3 * n - 3), opts=up)), 'the number of observations of one of three batches'
    elif k == 14:
        bad, ok, what = (lambda: mk(2, 1, dict(N=[n, n + e]), opts=up)), (lambda: mk(2, 1, dict(N=[n, n]), opts=up)), 'another number of observations for one component of one data set'
    elif k == 13:
        nb = 1 + i // 15 % 3
        bad, ok, what = (lambda: mk(1, nb, dict(nbatch=nb + int(1 + (e > 0))), fn=False, model=good, opts=up)), (lambda: mk(1, nb, dict(nbatch=nb), fn=False, model=good, opts=up)), \
            'more batches than data sets'
    else:
        bad, ok, what = (lambda: mk(1, 1, {}, opts=dict(method='nosuch'))), (lambda: mk(1, 1, {}, opts=dict(method='am'))), 'an unknown method'
    o.check(refused(bad), 'refusals', '{} was not refused'.format(what))
    o.check(not refused(ok), 'accepted', 'the consistent variant of "{}" was refused'.format(what))
    o.sig = 'refuse|{}|{}|{}|{}'.format(k, e, n, u)


# ------------------------------------------------------------------------------------------------
def k_omit(o, r, i, case):
    """Leaving an option out is the same as giving its default: same chains, same files, same settings, from the same random state."""
    method = [None, 'dram', 'am', 'mh', 'dr', 'ram'][i % 6]
    me = method or 'dram'
    nsimu = int(r.choice([150, 260]))
    ns = int(r.choice([1, 2, 3]))
    OPT = dict(method='dram', updatesigma=False, drscale=np.array([5., 4., 3.]), savesize=0, save_to_bin=False, save_to_txt=False, save_to_json=False, save_lightly=False,
               stats=0, debug=0, lastadapt=0, burnintime=0, burnin_scale=10, qcov_adjust=1e-8, alphatarget=.234, etaparam=.7, initqcovn=None, qcov=None,
               adaptint={'mh': 0, 'dr': 0, 'am': 100, 'dram': 100, 'ram': 1}[me], ntry={'mh': 1, 'am': 1, 'dr': 2, 'dram': 2, 'ram': 1}[me],
               json_restart_file=None, RDR=None, skip=1, maxmem=0)
    OTHER = dict(updatesigma=True, drscale=np.array([2., 3.]), savesize=40, save_to_txt=True, save_to_json=True, stats=1, lastadapt=120, burnintime=80, burnin_scale=3, qcov_adjust=1e-3, initqcovn=20,
                 qcov=np.diag(r.uniform(.01, .3, size=ns)), adaptint={'ram': 1}.get(me, 30), ntry=3)
    if method:
        OPT.pop('method')
    fixed = dict(nsimu=nsimu, waitbar=False, verbosity=0, savedir='sd', results_filename='res.json')
    if method:
        fixed['method'] = method
    for k in OTHER:   # some options are given a value of their own in both runs
        if k in OPT and r.random() < .25 and not (me == 'ram' and k == 'qcov_adjust'):
            OPT.pop(k)
            fixed[k] = OTHER[k]
    if r.random() < .5:
        fixed.setdefault('qcov', OTHER['qcov'])
        OPT.pop('qcov', None)
    given = OPT
    if i % 3 == 0:   # only one option differs between the two runs
        k1 = sorted(OPT)[int(r.integers(0, len(OPT)))]
        given = {k1: OPT[k1]}
    PAR = dict(minimum=-np.inf, maximum=np.inf, prior_mu=0., prior_sigma=np.inf, sample=True, adapt=True)
    th = r.uniform(.3, 2, size=ns) * r.choice([-1, 1], size=ns)
    drop = [sorted(k for k in PAR if r.random() < .6) for _ in range(ns)]
    x = np.arange(9.)
    y = r.normal(size=9)
    w = float(np.exp(r.uniform(-1, 5)))
    wt = r.random() < .5
    runs = []
    for full in (False, True):
        m = rec.MCMC(rngseed=None)
        m.data.add_data_set(x, y, **(dict(weight=1) if full and wt else {}))
        for k in range(ns):
            m.parameters.add_model_parameter(name='t%d' % k, theta0=float(th[k]), **({q: PAR[q] for q in drop[k]} if full else {}))
        m.model_settings.define_model_settings(sos_function=lambda q, d: w * float(((np.asarray(q) - th)**2).sum()) + float((d.ydata[0] ** 2).sum()) * float(d.weight[0]))
        m.simulation_options.define_simulation_options(**dict(fixed, **(given if full else {})))
        np.random.seed(case['seed'] % 2**31)
        m.run_simulation()
        res = m.simulation_results.results
        keep = {k: snap(res[k]) for k in ('chain', 'sschain', 's2chain', 'theta', 'R', 'qcov', 'names', 'limits', 'prior', 'total_rejected', 'rejected_outside_bounds', 'cov', 'mean') if k in res}
        keep['settings'] = {k: snap(res['simulation_options'][k]) for k in ('method', 'nsimu', 'adaptint', 'ntry', 'lastadapt', 'burnintime', 'updatesigma', 'savesize') if k in res['simulation_options']}
        files = sorted(os.path.join(d, f) for d, _, fs in os.walk('.') for f in fs)
        keep['files'] = files
        keep['size'] = [sorted(json.load(open(f))) if f.endswith('.json') else os.path.getsize(f) for f in files]
        keep['keys'] = sorted(res)
        for f in files:
            os.remove(f)
        runs.append(keep)
    d = diff(runs[0], runs[1])
    what = 'method {}, {} given, {} left out'.format(method, sorted(fixed), sorted(given))
    o.check(d is None, 'omitted', lambda: 'leaving options out differs from giving their defaults: {} ({})'.format(d, what))
    o.check(not runs[0]['files'] or fixed.get('save_to_txt') or fixed.get('save_to_json'), 'omitted', 'files {} without any saving option'.format(runs[0]['files']))
    o.check((runs[0].get('s2chain') is not None) == bool(fixed.get('updatesigma')), 'omitted', 'variance sampling without being asked for ({})'.format(what))
    so = runs[0]['settings']
    for k, v in (('adaptint', OPT.get('adaptint')), ('ntry', OPT.get('ntry')), ('updatesigma', OPT.get('updatesigma'))):
        o.check(v is None or so[k] == v, 'omitted', 'default of {} is {} instead of {} ({})'.format(k, so[k], v, what))
    o.sig = 'omit|{}|{}|{}'.format(method, sorted(given), sorted(fixed))
    o.sample = dict(what=what)


# ------------------------------------------------------------------------------------------------
def k_counts(o, r, i, case):
    from pymcmcstat.settings.DataStructure import DataStructure
    d = DataStructure()
    n_ex, cols, uo, ws = [], [], [], []
    nb = int(r.integers(1, 5))
    for b in range(nb):
        n = int(r.integers(1, 15))
        c = int(r.choice([1, 1, 2, 4]))
        x, y = r.normal(size=(n, 1)), r.normal(size=(n, c))
        k = int(r.integers(0, 5))
        if k == 1 and c == 1:
            x, y = x[:, 0], y[:, 0]
        elif k == 2 and c == 1:
            x, y = x[:, 0].tolist(), y[:, 0].tolist()
        elif k == 3 and c == 1:
            n, x, y = 1, float(x[0, 0]), float(y[0, 0])
        kw = {}
        n_ex.append(n)
        if r.random() < .2:
            kw['n'] = n_ex[-1] = int(r.integers(1, 30))
        w = 1
        if r.random() < .4:
            w = kw['weight'] = float(r.uniform(.1, 4)) if r.random() < .8 else [0, 0., 2][int(r.integers(0, 3))]
        u = 0
        if r.random() < .4:
            u = kw['user_defined_object'] = dict(b=b, v=r.normal(size=3))
        keep = snap([x, y])
        d.add_data_set(x, y, **kw)
        o.check(diff(keep, [x, y]) is None, 'untouched', 'adding data changed it')
        o.check(near(np.asarray(d.xdata[-1], dtype=float).reshape(-1), np.ravel(x)) and near(np.asarray(d.ydata[-1], dtype=float).reshape(-1), np.ravel(y)), 'counts', 'stored data differ from the data given')
        cols.append(c)
        uo.append(u)
        ws.append(w)
    o.check(list(d.n) == n_ex, 'counts', lambda: 'counts {} instead of {}'.format(d.n, n_ex))
    o.check(d.get_number_of_batches() == nb and d.get_number_of_data_sets() == sum(cols) and int(np.ravel(d.get_number_of_observations())[0]) == sum(n_ex), 'counts',
            lambda: 'batches {}, columns {}, observations {}'.format(d.get_number_of_batches(), d.get_number_of_data_sets(), d.get_number_of_observations()))
    o.check(list(d.weight) == ws and all(a is b or a == b for a, b in zip(d.user_defined_object, uo)), 'counts', 'weights or user objects differ')

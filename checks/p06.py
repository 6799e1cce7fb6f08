"""Error variances: probability integral transform of every stored draw given the misfit stored with it."""
import math

import numpy as np
from scipy import stats

from vlib import rec
from .common import Out, count, eqn, near, seeds

PROP = 'P06'
LEVEL = 'exploration'
RULE = 'distinct (observation counts, prior weights and variances, components, method, misfit scale) configurations whose draws were tested'
ASSUMPTIONS = ['the conditional law is tested by Kolmogorov-Smirnov tests of the probability integral transform (p < 1e-10) and '
               'by 6.5 sigma tests of correlation across components, lags and with the misfit',
               'cases with prior weight plus count not positive have no conditional law and are not tested']
REQUIRE = {'draws': 50000, 'fixed_runs': 30, 'ks': 60}


def cases(tier, seed):
    out = []
    Ns = [1, 2, 3, 7, 40, 500, 5000]
    n = count(tier, 84, 800)
    for i in range(n):
        out.append(dict(kind='law', i=i, seed=rec.sub(seed, i, 6), N=[Ns[i % 7], Ns[(i // 7 + 3) % 7], Ns[(i // 3) % 7]],
                        nsimu=1500 if tier == 'quick' else 4000))
    for i in range(count(tier, 24, 120)):
        out.append(dict(kind='wide', i=i, seed=rec.sub(seed, i, 666), nsimu=1200 if tier == 'quick' else 6000))
    for i in range(count(tier, 200, 2500)):
        out.append(dict(kind='scen', i=i, seed=rec.sub(seed, i, 66)))
    return out


def run(case):
    return dict(law=run_law, wide=run_wide, scen=run_scen)[case['kind']](case)


def run_wide(case):
    """Many components of one shape, so that small departures from the law show in the pooled draws."""
    o = Out()
    r = np.random.default_rng(case['seed'])
    k = 40
    a2 = [1, 2, 3, 4, 6, 12, 50, 110, 400, 3000, 1.5, 2.5][case['i'] % 12]      # prior weight plus count
    n = int(r.integers(1, int(a2) + 1))
    N0 = np.full(k, a2 - n)
    S20 = np.exp(r.normal(size=k))
    base = np.exp(r.normal(size=k)) * n

    def ss(theta, data):
        return base * np.exp(.5 * np.sin(theta[0] + np.arange(k)))
    m = rec.MCMC(rngseed=int(r.integers(1, 2**31)))
    m.data.add_data_set(np.zeros((3, 1)), np.zeros((3, 1)), n=n)
    ms = dict(sos_function=ss)
    if a2 > n:
        ms.update(N0=N0.copy(), S20=S20.copy())
    m.model_settings.define_model_settings(**ms)
    m.simulation_options.define_simulation_options(nsimu=case['nsimu'], method='mh', updatesigma=True, qcov=np.array([[4.]]), waitbar=False, verbosity=0)
    m.parameters.add_model_parameter('a', theta0=.1, minimum=-20, maximum=20)
    m.run_simulation()
    res = m.simulation_results.results
    S, SS = res['s2chain'], res['sschain']
    if not o.check(S is not None and S.shape == (case['nsimu'], k), 'chains', 'variance chain missing or of wrong shape'):
        return o.done()
    U = stats.gamma.cdf(1 / S[1:], a2 / 2., scale=2 / ((N0 * S20 if a2 > n else 0.) + SS[1:]))
    where = '{} components with prior weight plus count {}'.format(k, a2)
    p = stats.kstest(U.reshape(-1), 'uniform').pvalue
    o.check(p > 1e-10, 'ks', '{}: variance draws do not follow the conditional law (KS p = {:.2g} over {} draws)'.format(where, p, U.size))
    Z = stats.norm.ppf(np.clip(U, 1e-15, 1 - 1e-15))
    t = (float(Z.sum()) / math.sqrt(Z.size), float((Z**2 - 1).sum()) / math.sqrt(2. * Z.size), float((Z**3).sum()) / math.sqrt(15. * Z.size))
    o.check(max(abs(x) for x in t) < 6.8, 'moments', '{}: moments of the transformed variance draws are off by {:.1f}, {:.1f} and {:.1f} sigma'.format(where, *t))
    for eps in (1e-4, 3e-4, 6e-4, 1e-3, 3e-3):      # both ends of the law
        for side, c in (('large', int((U < eps).sum())), ('small', int((U > 1 - eps).sum()))):
            mu = U.size * eps
            q = min(stats.poisson.cdf(c, mu), stats.poisson.sf(c - 1, mu))
            o.check(q > 1e-11, 'ends', '{}: {} of {} variances are among the {:g} most {}, {:.1f} expected'.format(where, c, U.size, eps, side, mu))
    C = Z.T @ Z / math.sqrt(len(Z))
    np.fill_diagonal(C, 0.)
    o.check(np.abs(C).max() < 7.5, 'corr', '{}: components are correlated'.format(where))
    c = float((Z[1:] * Z[:-1]).sum()) / math.sqrt(Z[1:].size)
    o.check(abs(c) < 6.5, 'corr', '{}: draws are correlated in time (z = {:.1f})'.format(where, c))
    o.hit('draws', U.size)
    o.hit('wide')
    o.sig = 'wide|{}|{}'.format(a2, case['seed'])
    o.sample = dict(what=where, draws=int(U.size), moments=[round(x, 2) for x in t])
    return o.done()


def test_u(o, U, key, where):
    """U: array (n, k) of uniforms."""
    n = len(U)
    for j in range(U.shape[1]):
        p = stats.kstest(U[:, j], 'uniform').pvalue
        o.check(p > 1e-10, 'ks', '{}: variance draws of component {} do not follow the conditional law (KS p = {:.2g}, mean of '
                'transform {:.4f}, n = {})'.format(where, j, p, U[:, j].mean(), n))
    Z = stats.norm.ppf(np.clip(U, 1e-12, 1 - 1e-12))
    for j in range(U.shape[1]):
        lag = float((Z[1:, j] * Z[:-1, j]).sum() / math.sqrt(n - 1))
        o.check(abs(lag) < 6.5, 'corr', '{}: draws of component {} correlated in time (z = {:.1f})'.format(where, j, lag))
        for k in range(j):
            c = float((Z[:, j] * Z[:, k]).sum() / math.sqrt(n))
            o.check(abs(c) < 6.5, 'corr', '{}: draws of components {} and {} correlated (z = {:.1f})'.format(where, k, j, c))
    return Z


def run_law(case):
    o = Out()
    r = np.random.default_rng(case['seed'])
    k = int(r.choice([1, 2, 3]))
    shared = r.random() < .25
    N = np.array(case['N'][:k], dtype=float)
    nb = k
    if shared:
        nb, N = 1, np.ones(k) * case['N'][0]
    elif r.random() < .15:
        nb, k, N = 2, 1, np.array([float(sum(case['N'][:2]))])
    scale = np.exp(r.uniform(-3, 3, k))
    style = int(r.integers(0, 4))
    ms = {}
    N0 = S20 = None
    s2 = None
    if style == 0:
        N0, S20, s2 = np.zeros(k), np.ones(k), np.ones(k)
    elif style == 1:
        s2 = scale * np.exp(r.normal(size=k))
        ms['sigma2'] = s2.copy() if r.random() < .5 else [float(x) for x in s2]
        N0, S20 = np.ones(k), s2
    elif style == 2:
        N0 = r.uniform(.3, 8, k)
        S20 = scale * np.exp(r.normal(size=k))
        ms['N0'], ms['S20'] = N0.copy(), S20.copy()
        s2 = S20
    else:
        N0 = np.ones(k) * float(r.choice([1, 3, 50]))
        S20 = np.ones(k) * float(scale[0])
        s2 = scale * np.exp(r.normal(size=k))
        ms['N0'], ms['S20'], ms['sigma2'] = float(N0[0]), float(S20[0]), s2.copy()
        if r.random() < .5:
            ms['N0'] = int(N0[0])
    base = np.maximum(N, 1) * scale

    def ss(theta, data):
        return base * (1 + .5 * np.sin(theta[0] + np.arange(k))) * np.exp(.3 * np.cos(3 * theta[0] + np.arange(k)))
    m = rec.MCMC(rngseed=int(r.integers(1, 2**31)))
    for b in range(nb):
        y = np.zeros((3, 1))
        if shared:
            m.data.add_data_set(y, y, n=case['N'][0])
        else:
            m.data.add_data_set(y, y, n=case['N'][b])
    if r.random() < .5:
        ms['sos_function'] = ss
    else:
        ms['sos_function'] = lambda theta, data, custom=None: ss(theta, data)
    m.model_settings.define_model_settings(**ms)
    method = str(r.choice(['mh', 'am', 'dr', 'dram']))
    m.simulation_options.define_simulation_options(nsimu=case['nsimu'], method=method, updatesigma=style < 2 or r.random() < .5,
                                                   qcov=np.array([[4.]]), waitbar=False, verbosity=0)
    m.parameters.add_model_parameter('a', theta0=.1, minimum=-20, maximum=20)
    m.run_simulation()
    res = m.simulation_results.results
    S, SS = res['s2chain'], res['sschain']
    if not o.check(S is not None and S.shape == (case['nsimu'], k), 'chains', 'variance chain missing or of wrong shape'):
        return o.done()
    o.check(near(S[0], s2, 1e-12), 'start', 'first variance row {} expected {}'.format(S[0], s2))
    o.check(bool(np.all(S > 0)), 'positive', 'non-positive variance')
    a = (N0 + N) / 2
    rate = (N0 * S20 + SS[1:]) / 2
    U = stats.gamma.cdf(1 / S[1:], a, scale=1 / rate)
    where = 'N={} N0={} S20={}'.format(N, N0, S20)
    Z = test_u(o, U, 'law', where)
    for j in range(k):
        x = np.log(SS[1:, j])
        if x.std() > 0:
            x = (x - x.mean()) / x.std()
            c = float((x * Z[:, j]).sum() / math.sqrt(len(x)))
            o.check(abs(c) < 6.5, 'corr', '{}: draws of component {} depend on the misfit beyond their law (z = {:.1f})'.format(where, j, c))
    o.hit('draws', U.size)
    o.hit('shape_below_one', int((a < 1).sum()))
    o.sig = '{}|{}|{}|{}|{}|{}'.format(N, N0, S20, method, style, case['seed'])
    o.sample = dict(N=N.tolist(), N0=N0.tolist(), S20=S20.tolist(), method=method, mean_transform=U.mean(0).tolist())
    return o.done()


def run_scen(case):
    """The variance in use is the one stored; without sampling it never changes and none is reported."""
    o = Out()
    sc = rec.gen(case['seed'], updatesigma=[True, False][case['i'] % 2])
    given = 'N0' in sc.ms
    tr = rec.run_scen(sc)
    on = bool(sc.opts['updatesigma']) or given
    s0 = sc.sigma2_0()
    steps = tr.steps()
    if not on:
        o.hit('fixed_runs')
        o.check(tr.s2 is None, 'none', 'a variance chain is reported although variances are not sampled')
        for isimu, a, evs, mk in steps:
            o.check(mk[5].size in (1, len(s0)) and eqn(mk[5] * np.ones(len(s0)), s0), 'constant', 'step {}: error variance {} instead of {}'.format(isimu, mk[5], s0))
        for key in ('sigma2',):
            o.check(near(np.asarray(tr.res['model_settings'][key], dtype=float), s0, 1e-12), 'reported',
                    'reported {} is {}'.format(key, tr.res['model_settings'][key]))
        o.check(tr.res['simulation_options']['updatesigma'] is False, 'reported', 'updatesigma reported as on')
    else:
        o.hit('sampled_runs')
        o.check(tr.s2 is not None and tr.s2.shape == tr.ss.shape, 'chains', 'variance chain missing or of wrong shape')
        if o.viol:
            return o.done()
        o.check(near(tr.s2[0], s0, 1e-12), 'start', 'first variance row {} expected {}'.format(tr.s2[0], s0))
        for isimu, a, evs, mk in steps:
            o.check(eqn(mk[5], tr.s2[isimu]), 'stored', 'step {}: stored variance {} differs from the one in use {}'.format(
                isimu, tr.s2[isimu], mk[5]))
        if len(steps) > 20 and (sc.N0() + sc.N() > 0).all():
            o.check(bool(np.all((tr.s2[2:] != tr.s2[1:-1]) | ~np.isfinite(tr.ss[2:]))), 'fresh', 'a variance was not redrawn in some step')
        ms = tr.res['model_settings']
        o.check(near(np.asarray(ms['N0'], float), sc.N0(), 1e-12) and near(np.asarray(ms['S20'], float), sc.S20(), 1e-12)
                and near(np.asarray(ms['N'], float), sc.N(), 1e-12), 'reported', 'reported N0 {} S20 {} N {} expected {} {} {}'.format(
                    ms['N0'], ms['S20'], ms['N'], sc.N0(), sc.S20(), sc.N()))
        a = (sc.N0() + sc.N()) / 2
        if (a > 0).all() and len(tr.s2) > 1:
            rate = (sc.N0() * sc.S20() + tr.ss[1:]) / 2
            U = stats.gamma.cdf(1 / tr.s2[1:], a, scale=1 / rate)
            o.stat = np.round(U, 7).reshape(-1).tolist()
            o.hit('draws', U.size)
    o.sig = sc.ident()
    return o.done()


def aggregate(results, tier, clist):
    U = np.array([x for r in results for x in (r['stat'] or [])])
    if len(U) < 500:
        return {}
    p = stats.kstest(U, 'uniform').pvalue
    v = [(clist[-1], 'pooled variance draws do not follow their conditional law (KS p = {:.2g})'.format(p))] if p < 1e-10 else []
    return dict(viol=v, obs=dict(pooled=len(U)))

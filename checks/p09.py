"""Nothing the user handed in, and no result already returned, is ever modified: deep snapshots around everything."""
import os

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np

from vlib import rec
from .common import Out, count, seeds
from .deep import diff, snap

PROP = 'P09'
LEVEL = 'exploration'
RULE = 'distinct configurations with every input and every earlier result snapshotted and compared after each operation'
ASSUMPTIONS = ['the parameter and option objects belong to the library; the values handed to them belong to the user',
               'a continued run moves the start of the library\'s own parameter list, by design']
REQUIRE = {'inputs': 700, 'results': 500, 'post': 500, 'raw': 200, 'long': 150}


def cases(tier, seed):
    out = seeds(seed, count(tier, 110, 1500), 9)
    out += [dict(c, kind='raw') for c in seeds(seed, count(tier, 36, 500), 91)]
    out += [dict(c, kind='long') for c in seeds(seed, count(tier, 18, 240), 92)]
    return out


def run(case):
    if case.get('kind') == 'raw':
        return raw(case)
    if case.get('kind') == 'long':
        return long(case)
    o = Out()
    r = np.random.default_rng(case['seed'])
    w = dict(nsimu=int(r.choice([40, 90, 160])), npar=int(r.choice([2, 3])))
    if case['i'] % 3 == 0:
        w.update(rdr=True, method=['dr', 'dram'][case['i'] // 3 % 2], ntry=2 + case['i'] // 6 % 2)
    if case['i'] % 3 == 1:
        w.update(updatesigma=True, nsos=2, s2mode=['array', 'list'][case['i'] // 3 % 2])
    if case['i'] % 4 == 0:
        w.update(style='model', nbatch=1 + case['i'] // 4 % 2)
    sc = rec.gen(case['seed'], **w)
    xs, ys = sc.X, sc.y
    inputs = dict(x=xs, y=ys, opts=sc.opts, ms=sc.ms, th0=sc.th0, lo=sc.lo, hi=sc.hi, mu=sc.mu_user, sig=sc.sig_user)
    before = snap(inputs)

    def chk_inputs(when):
        d = diff(before, inputs)
        o.check(d is None, 'inputs', lambda: '{} changed the user\'s {}'.format(when, d))
    tr = rec.run_scen(sc)
    chk_inputs('a run')
    m, res = tr.m, tr.res
    keep = snap(res)
    data_before = snap([m.data.xdata, m.data.ydata, m.data.n, m.data.weight])

    def chk_res(when, key='results'):
        d = diff(keep, res)
        o.check(d is None, key, lambda: '{} changed earlier results {}'.format(when, d))
        d = diff(data_before, [m.data.xdata, m.data.ydata, m.data.n, m.data.weight])
        o.check(d is None, key, lambda: '{} changed the data {}'.format(when, d))
    post(o, sc, m, res, chk_res, chk_inputs, r)
    # another, unrelated simulation
    rec.run_scen(rec.gen(case['seed'] + 1, nsimu=40))
    chk_res('another simulation')
    # the same settings again, with logging and export
    rec.run_scen(sc, opts=dict(save_to_json=True, save_to_bin=True, savedir='a', savesize=7))
    chk_res('a second simulation of the same settings')
    chk_inputs('a second simulation')
    # the same object: rerun, continue
    if case['i'] % 2:
        m.run_simulation()
        chk_res('rerunning the object')
        chk_inputs('rerunning the object')
        res2 = m.simulation_results.results
        keep2 = snap(res2)
        m.run_simulation(use_previous_results=True)
        d = diff(keep2, res2)
        o.check(d is None, 'results', lambda: 'continuing changed the results of the run before {}'.format(d))
    else:
        m.run_simulation(use_previous_results=True)
    chk_res('continuing the object')
    chk_inputs('continuing the object')
    o.sig = sc.ident()
    o.sample = sc.describe()
    return o.done()


def post(o, sc, m, res, chk_res, chk_inputs, r):
    from pymcmcstat.chain import ChainStatistics as CS, ChainProcessing as CP
    from pymcmcstat.plotting import MCMCPlotting as MP
    from pymcmcstat import propagation as PR
    from pymcmcstat.structures.ResultsStructure import ResultsStructure
    chain, names = res['chain'], res['names']
    s2 = res['s2chain']

    def op(name, fn):
        extra = []

        def keepers(*xs):
            for x in xs:
                extra.append((x, snap(x)))
        fn(keepers)
        for x, b in extra:
            d = diff(b, x)
            o.check(d is None, 'post', lambda: '{} changed its argument {}'.format(name, d))
        chk_res(name, 'post')
        chk_inputs(name)
        plt.close('all')

    op('chainstats', lambda k: CS.chainstats(chain, res))
    op('chainstats dictionary', lambda k: m.chainstats(chain, res, returnstats=True))

    def gr(k):
        lst = [res, snap(res)]
        k(lst)
        CS.gelman_rubin(lst, display=False)
        arr = [chain, chain.copy() + 1]
        nm = list(names)
        k(arr, nm)
        CS.gelman_rubin(arr, names=nm, display=False)
        CP.generate_combined_chain_with_index(lst)
        CP.generate_chain_list(lst)
    op('gelman_rubin', gr)

    def plots(k):
        short = list(names)[:1]
        k(short)
        lim = [float(x) for x in (50, 90)]
        k(lim)
        MP.plot_chain_panel(chain, short)
        MP.plot_density_panel(chain, short)
        MP.plot_histogram_panel(chain, list(names))
        MP.plot_pairwise_correlation_panel(chain, short)
        MP.plot_chain_metrics(chain[:, 0], str(names[0]))
        MP.Plot().plot_chain_panel(chain)
    op('chain plots', plots)
    op('json export', lambda k: (ResultsStructure().save_json_object(res, 'o.json'), ResultsStructure().export_lightly(res)))

    def prop(k):
        nt = sc.nt
        x = np.linspace(0, 1, 5)

        def model(q, data):
            q = np.asarray(q).reshape(-1)
            y = q[0] + q.sum() * x
            q[:] = -7.
            return y.reshape(-1, 1)
        d = rec.MCMC().data
        d.add_data_set(x, x)
        lims = [95, 50, 90]
        cols = None
        k(lims)
        iv = PR.calculate_intervals(chain, res, d, model, s2chain=s2 if s2 is not None and s2.shape[1] == 1 else .1, nsample=20, waitbar=False)
        k(iv)
        PR.plot_intervals(iv, x, limits=lims, adddata=False)
    op('calculate_intervals', prop)

    if sc.style == 'model':
        def pi(k):
            d = rec.MCMC().data
            for b in range(sc.nbatch):
                x = np.linspace(0, 1 + b, 6)
                d.add_data_set(x, x)
            db = snap([d.xdata, d.ydata])

            def f(data, theta):
                th = np.asarray(theta).reshape(-1)
                y = th.sum() + th[0] * np.asarray(data.xdata[0])
                th[:] = 3.
                return y
            m.PI.setup_prediction_interval_calculation(results=res, data=d, modelfunction=f)
            m.PI.generate_prediction_intervals(nsample=15, calc_pred_int=bool(res['s2chain'] is not None), waitbar=False)
            m.PI.plot_prediction_intervals(adddata=True)
            dd = diff(db, [d.xdata, d.ydata])
            o.check(dd is None, 'post', lambda: 'prediction intervals changed the data {}'.format(dd))
        op('prediction intervals', pi)


def raw(case):
    """Every form in which a user can hand in data, settings and covariances: compared, shape and type included."""
    o = Out()
    i = case['i']
    r = np.random.default_rng(case['seed'])
    from pymcmcstat.MCMC import MCMC
    m = MCMC()
    nb = 1 + i % 3
    user = dict(x=[], y=[], w=[], obj=[])
    for b in range(nb):
        n = int(r.integers(4, 9))
        f = (i + b) % 6
        x, y = np.linspace(0, 1, n), r.normal(size=n)
        if f == 1:
            x, y = x.reshape(-1, 1), y.reshape(-1, 1)
        elif f == 2:
            x, y = x.tolist(), y.tolist()
        elif f == 3:
            x, y = np.arange(n), (10 * y).astype(int)
        elif f == 4:
            x, y = x.reshape(1, -1), y.reshape(1, -1)
        elif f == 5:
            x, y = np.asfortranarray(np.c_[x, x ** 2]), np.c_[y, -y]
        user['x'].append(x)
        user['y'].append(y)
        user['w'].append(float(r.uniform(.5, 3)))
        user['obj'].append([0, dict(a=np.arange(3.), b=[1, 2]), [np.ones(2), 'z'], np.eye(2)][int(r.integers(4))])
    npar = 2 + i % 2
    user['theta0'] = r.normal(size=npar)
    user['lim'] = [[-50., 50.] for _ in range(npar)]
    user['sample'] = [True] * npar
    user['mu'] = r.normal(size=npar)
    user['sig'] = np.full(npar, 5.)
    sos = i % 2
    q = [np.diag(np.full(npar, .01)), np.full(npar, .01), [[.01 if a == b else 0. for a in range(npar)] for b in range(npar)],
         np.full((npar, 1), .01), None][i % 5]
    user['qcov'] = q
    user['sigma2'] = [.5, [.5] * nb, np.full(nb, .5), [.5] * nb, None][i // 2 % 5]
    user['S20'] = [1., [1.] * nb, np.ones(nb)][i % 3]
    user['N0'] = [1., [1.] * nb, np.ones(nb)][i // 3 % 3]
    user['N'] = None if i % 2 else np.array([float(np.asarray(y).shape[0] if np.asarray(y).ndim > 1 else np.asarray(y).size) for y in user['y']])
    user['drscale'] = [[5., 4.], np.array([3., 2.]), (4., 3.)][i % 3]
    user['sopts'] = dict(nsimu=60, method=['mh', 'am', 'dr', 'dram'][i % 4], updatesigma=bool(i // 4 % 2), verbosity=0, waitbar=False,
                         adaptint=20, ntry=2, drscale=user['drscale'], qcov=user['qcov'])
    user['sopts'] = {k: v for k, v in user['sopts'].items() if v is not None}
    before = snap(user)

    def chk(when):
        d = diff(before, user)
        o.check(d is None, 'raw', lambda: '{} changed the user\'s {}'.format(when, d))

    for b in range(nb):
        m.data.add_data_set(user['x'][b], user['y'][b], weight=user['w'][b], user_defined_object=user['obj'][b])
    chk('adding data sets')
    for k in range(npar):
        m.parameters.add_model_parameter(name='p%d' % k, theta0=user['theta0'][k] if i % 4 else user['theta0'][k:k + 1][0],
                                         minimum=user['lim'][k][0], maximum=user['lim'][k][1], sample=user['sample'][k],
                                         prior_mu=user['mu'][k], prior_sigma=user['sig'][k])
    so = user['sopts']
    m.simulation_options.define_simulation_options(**so)
    chk('defining options')

    def ssfun(theta, data):
        return np.array([float(np.sum(theta ** 2)) + 1. for _ in range(nb)]) if nb > 1 else float(np.sum(theta ** 2)) + 1.

    def model(theta, data):
        return np.asarray(data.xdata[0], float) * theta[0] + theta[1]
    kw = dict(sigma2=user['sigma2'], S20=user['S20'], N0=user['N0'], N=user['N'])
    if kw['N'] is None:
        kw.pop('N')
    if kw['sigma2'] is None:
        kw.pop('sigma2')
    if nb > 1 and np.size(kw.get('sigma2', 1.)) == 1 and i % 2:
        kw.pop('sigma2', None)
    m.model_settings.define_model_settings(sos_function=ssfun, **kw)
    chk('defining model settings')
    held = [m.data.xdata, m.data.ydata, m.data.n, m.data.shape, m.data.weight, m.data.user_defined_object]
    hb = snap(held)
    np.random.seed(int(r.integers(2 ** 31)))
    m.run_simulation()
    chk('a run')
    res = m.simulation_results.results
    rb = snap(res)
    m.run_simulation(use_previous_results=True)
    chk('a continued run')
    d = diff(hb, held)
    o.check(d is None, 'raw', lambda: 'running changed the data {}'.format(d))
    d = diff(rb, res)
    o.check(d is None, 'raw', lambda: 'continuing changed the earlier results {}'.format(d))
    # a parallel set-up made from the object leaves it alone
    from pymcmcstat.ParallelMCMC import ParallelMCMC
    iv = r.normal(size=(3, npar))
    ib = snap(iv)
    pb = snap([dict((k, v) for k, v in p.items()) for p in m.parameters.parameters])
    pm = ParallelMCMC()
    pm.setup_parallel_simulation(m, initial_values=iv, num_chain=3, num_cores=2)
    d = diff(ib, iv) or diff(pb, [dict((k, v) for k, v in p.items()) for p in m.parameters.parameters]) or diff(hb, held) or diff(rb, res)
    o.check(d is None, 'raw', lambda: 'setting up parallel chains changed {}'.format(d))
    chk('setting up parallel chains')
    o.sig = 'raw{}'.format(case['seed'])
    o.sample = 'raw inputs nb={} npar={} qcov={} sigma2={}'.format(nb, npar, type(q).__name__, type(user['sigma2']).__name__)
    return o.done()


def long(case):
    """Post-processing of long, wide and short-named chains leaves its arguments alone."""
    from pymcmcstat.chain import ChainStatistics as CS, ChainProcessing as CP
    from pymcmcstat.plotting import MCMCPlotting as MP
    from pymcmcstat import propagation as PR
    from pymcmcstat.structures.ResultsStructure import ResultsStructure
    o = Out()
    i = case['i']
    r = np.random.default_rng(case['seed'])
    n = [60, 500, 1500, 3000, 6000, 25000][i % 6]
    p = int([2, 3, 5][i // 6 % 3])
    chain = np.cumsum(r.normal(size=(n, p)), 0) * .05 + r.normal(size=(n, p)) + 20.
    if i % 4 == 3:
        chain = np.asfortranarray(chain)
    names = ['a', 'b', 'c', 'd', 'e'][:[p, 1, p - 1][i % 3]]
    res = dict(chain=chain, names=names, s2chain=np.abs(r.normal(size=(n, 1))), parind=np.arange(p), theta=chain[-1].copy(),
               nsimu=n, total_rejected=.4, rejected_outside_bounds=.1, sschain=np.abs(r.normal(size=(n, 1))),
               R=np.eye(p), mean=chain.mean(0), nbatch=1,
               model_settings=dict(nbatch=1), simulation_options=dict(method='dram', ntry=2), iacce=np.array([n // 3, n // 5]), alpha_count=n)
    time = np.linspace(0, 1, 7)
    iv = dict(credible=r.normal(size=([20, 51, 400][i % 3], 7)), prediction=r.normal(size=([20, 51, 400][i % 3], 7)))
    iset = dict(limits=[95, 50, 90], colors=['r', 'g', 'b'], cmap=None)
    pset = dict(limits=[80, 20])
    disp = dict(marker='o')
    lim = [90, 10, 50]
    time3 = np.c_[time, time ** 2]
    yd, xd = r.normal(size=7), np.linspace(0, 1, 7)
    x1 = chain[:, 0]
    settings = dict(plot=dict(color='k'), fontsize=8)
    q = np.array([.9, .1])
    pool = dict(res=res, iv=iv, iset=iset, pset=pset, disp=disp, lim=lim, time=time, time3=time3, yd=yd, xd=xd, x1=x1, q=q, settings=settings)
    chains = [chain, chain[::-1].copy()]
    lst = [res, dict(res, chain=chain + 1)]
    pool.update(chains=chains, lst=lst)
    before = snap(pool)

    def op(name, fn):
        fn()
        d = diff(before, pool)
        o.check(d is None, 'long', lambda: '{} changed its argument {} (n={}, p={})'.format(name, d, n, p))
        plt.close('all')
    op('chainstats', lambda: CS.chainstats(chain, res))
    op('chainstats dictionary', lambda: CS.chainstats(chain, res, returnstats=True))
    op('geweke', lambda: CS.geweke(chain))
    op('batch means', lambda: CS.batch_mean_standard_deviation(chain))
    op('autocorrelation', lambda: CS.integrated_autocorrelation_time(chain))
    op('gelman_rubin', lambda: (CS.gelman_rubin(chains, names=names, display=False), CS.gelman_rubin(lst, display=False)))
    op('combined chains', lambda: (CP.generate_combined_chain_with_index(lst), CP.generate_chain_list(lst)))
    op('chain panel', lambda: MP.plot_chain_panel(chain, names))
    op('chain panel, thinned', lambda: MP.plot_chain_panel(chain, names, skip=3, maxpoints=50))
    op('histogram panel', lambda: MP.plot_histogram_panel(chain, names))
    op('pairs', lambda: MP.plot_pairwise_correlation_panel(chain, names))
    op('metrics', lambda: MP.plot_chain_metrics(x1, 'a'))
    if n <= 3000:
        op('density panel', lambda: MP.plot_density_panel(chain, names, hist_on=bool(i % 2)))
    op('quantiles', lambda: PR.generate_quantiles(iv['credible'], q))
    op('interval plots', lambda: PR.plot_intervals(iv, time, ydata=yd, xdata=xd, limits=lim, ciset=iset, piset=pset, data_display=disp,
                                                   model_display=disp, return_settings=True))
    op('3-d interval plots', lambda: PR.plot_3d_intervals(iv, time3, ydata=yd, xdata=time3, limits=lim, adddata=True, ciset=iset, piset=pset))
    if n <= 6000:
        op('export', lambda: (ResultsStructure().save_json_object(res, 'o.json'),))
    d_ = rec.MCMC().data
    d_.add_data_set(time, time)

    def model(th, data):
        y = np.sum(th) * time
        th[:] = 0
        return y
    op('propagation', lambda: PR.calculate_intervals(chain, res, d_, model, s2chain=res['s2chain'], nsample=[30, n + 5][int(n < 100)], waitbar=False))
    o.sig = 'long{}'.format(case['seed'])
    o.sample = 'post-processing of a {}x{} chain, {} names'.format(n, p, len(names))
    return o.done()

"""Parallel chains: event logs written by the workers, results, files and the original settings object."""
import contextlib
import io
import os
import time

import numpy as np

from vlib import rec
from .common import Out, count, eqn, refused
from .deep import diff, plain, snap

PROP = 'P13'
LEVEL = 'exploration'
RULE = 'distinct (chains, workers, delays per chain, initial values, outputs, method) parallel runs and the completion orders seen'
ASSUMPTIONS = ['user functions are importable (worker processes receive the settings pickled)',
               'user-supplied initial values give the configured values for parameters that are not sampled']
REQUIRE = {'runs': 30, 'chains': 150, 'rows': 3000, 'distinct': 500, 'outoforder': 8, 'ten_or_more': 4, 'loaded': 60, 'original': 30,
           'refusals': 4, 'restarted': 20, 'calls': 3000, 'told': 1000, 'shown': 25}

CHAIN = [None]      # which chain this worker process is on (found from its start)


def misfit(theta, data, custom=None):
    u = data.user_defined_object[0][0]
    th = np.array(theta, dtype=float, copy=True)
    for k, s in enumerate(u['starts']() if callable(u['starts']) else u['starts']):
        if np.array_equal(th, s):
            CHAIN[0] = k
    k = CHAIN[0]
    if k is not None and u['delay']:
        time.sleep(u['delay'][k % len(u['delay'])])
    val = value(u, th)
    c = custom[0] if custom is not None and len(custom) == 1 else None
    with open(os.path.join(u['dir'], 'ev_%d' % os.getpid()), 'a') as f:
        f.write('%r %r %r %r\n' % (k, time.time(), c, th.tolist()))
    return val


def printed(fn):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        fn()
    return buf.getvalue()


def value(u, th):
    if u['flat']:
        return np.zeros(u['nsos'])
    z = (th - u['centre']) / u['sd']
    return np.array([float((z**2).sum()) * (1 + j) for j in range(u['nsos'])])


class Tally:
    """A custom sampler of its own per chain."""
    def __init__(self):
        self.n = 0
        self.seen = []

    def setup(self):
        return 0

    def update(self, accept=None, isimu=None, current_set=None, **kw):
        self.n += 1
        return self.n


def cases(tier, seed):
    out = []
    for i in range(count(tier, 48, 480)):
        out.append(dict(kind='run', i=i, seed=rec.sub(seed, i, 13)))
    for i in range(count(tier, 6, 30)):
        out.append(dict(kind='files', i=i, seed=rec.sub(seed, i, 132)))
    for i in range(8):
        out.append(dict(kind='refuse', i=i, seed=rec.sub(seed, i, 131)))
    return out


def run_files(o, case, CP, load):
    """Directories of very many chains, written with the library's own file functions, are read back in chain order."""
    import json
    r = np.random.default_rng(case['seed'])
    n = int([100, 101, 113, 30, 9, 12][case['i'] % 6])
    ext = ['h5', 'txt'][case['i'] % 2]
    light = case['i'] % 3 != 2
    want = []
    for k in r.permutation(n):
        d = os.path.join('par', 'chain_%d' % k)
        os.makedirs(d)
        c = r.normal(size=(4, 2))
        want.append((int(k), c))
        for q, nm in enumerate(('chainfile', 'sschainfile', 's2chainfile', 'covchainfile'), 1):
            f = os.path.join(d, nm + '.' + ext)
            if ext == 'h5':
                CP._save_to_bin_file(f, datasetname='nsimu_0_1', mtx=c[:2] * q)
                CP._save_to_bin_file(f, datasetname='nsimu_2_3', mtx=c[2:] * q)
            else:
                CP._save_to_txt_file(f, mtx=c * q)
        res = dict(theta=[float(k), 1.5], names=['a', 'b'], nsimu=4)
        if not light:
            res.update(chain=c.tolist(), sschain=c.tolist(), s2chain=None)
        with open(os.path.join(d, 'chain_%d.json' % k), 'w') as f:
            json.dump(res, f)
    open(os.path.join('par', 'notes.txt'), 'w').write('x')
    os.makedirs(os.path.join('par', 'other'))
    want = [c for k, c in sorted(want, key=lambda a: a[0])]
    logs = CP.read_in_parallel_savedir_files('par', extension=ext)
    o.check(len(logs) == n, 'loaded', '{} of {} chains in the logs'.format(len(logs), n))
    for k in range(min(n, len(logs))):
        o.check(all(eqn(np.asarray(logs[k][q]), want[k] * f) for f, q in enumerate(('chain', 'sschain', 's2chain', 'covchain'), 1)), 'loaded', 'logs read for chain {} of {} are those of another chain'.format(k, n))
    for fn in (load, CP.load_parallel_simulation_results):
        pres = fn('par', extension=ext)
        o.check(len(pres) == n, 'loaded', '{} of {} chains loaded'.format(len(pres), n))
        for k, pr in enumerate(pres):
            o.check(float(pr['theta'][0]) == k and eqn(np.asarray(pr['chain']), want[k]), 'loaded', 'results loaded for chain {} of {} are those of another chain'.format(k, n))
            if light:
                o.check(all(q in pr and eqn(np.asarray(pr[q]), want[k] * f) for f, q in ((2, 'sschain'), (3, 's2chain'), (4, 'covchain'))), 'loaded',
                        'misfits, variances or covariances loaded for chain {} of {} are not its own'.format(k, n))
    o.hit('many', n >= 100)
    o.sig = 'files|{}|{}|{}'.format(n, ext, light)
    return o.done()


def run(case):
    from pymcmcstat.ParallelMCMC import ParallelMCMC, load_parallel_simulation_results
    from pymcmcstat.chain import ChainProcessing as CP
    from pymcmcstat.chain import ChainStatistics as CS
    o = Out()
    i = case['i']
    if case['kind'] == 'files':
        return run_files(o, case, CP, load_parallel_simulation_results)
    r = np.random.default_rng(case['seed'])
    npar = int(r.integers(1, 4))
    nfix = int(i % 3 == 1) * (1 + i // 3 % 2)
    nt = npar + nfix
    mask = np.ones(nt, dtype=bool)
    if nfix:
        mask[r.choice(nt, nfix, replace=False) if i // 6 % 2 else np.arange(nt - nfix, nt)] = False
    par = np.flatnonzero(mask)
    nch = int([1, 2, 3, 4, 5, 8, 11, 12][i % 8])
    if i % 12 == 7:
        nch = 2
    cores = int([1, 2, 3, 4, 8][i // 2 % 5])
    flat = i % 2 == 0
    nsos = 1 + (i // 4) % 2
    delay = [] if i % 3 == 0 else [float(x) for x in r.permutation(np.linspace(0, .004, max(nch, 2)))]
    if i % 3 == 1:      # earlier chains are slower
        delay = [float(x) for x in np.linspace(.004, 0, max(nch, 2))]
    method = ['mh', 'am', 'dr', 'dram'][i % 4]
    nsimu = int([20, 35, 50][i // 3 % 3])
    out = i % 5
    opts = dict(nsimu=nsimu, method=method, savedir=['par', os.path.join('x', 'par')][i % 2], adaptint=10, waitbar=False, verbosity=0,
                updatesigma=bool(i % 6 == 2 and not flat))
    if out in (1, 4):
        opts['save_to_json'] = True
    if out in (2, 4):
        opts['save_to_bin'] = True
    if out == 3:
        opts.update(save_to_txt=True, save_to_json=True, savesize=7)
    centre, sd = r.normal(size=nt) * 3 + 5, np.exp(r.uniform(-1, 1, nt))
    opts['qcov'] = np.diag(sd**2 * .04)
    lo, hi = centre - 40 * sd, centre + 40 * sd
    if not flat:
        lo, hi = centre - 3 * sd, centre + 3 * sd
    th0 = centre + .3 * sd
    given = i % 4 != 3
    unbounded = i % 7 == 0
    if given:
        same = i % 8 in (0, 4)
        iv = np.array([centre + sd * (0 if same else 1) * r.uniform(-2, 2, nt) for _ in range(nch)])
        if unbounded:      # far from the default initial values is fine without limits
            iv[::2] += 1e5 * sd
        iv[:, ~mask] = th0[~mask]
        if i % 9 == 4:     # values given for fixed parameters too
            iv[:, ~mask] = centre[~mask] + sd[~mask] * r.uniform(-1, 1, (nch, nfix))
    if case['kind'] == 'refuse':
        given, unbounded = True, False
        iv = np.array([centre for _ in range(nch)])
        iv[:, ~mask] = th0[~mask]
        k, j = int(r.integers(0, nch)), int(r.choice(par))
        iv[k, j] = (hi if i % 2 else lo)[j] + sd[j] * (1e-6 if i % 4 < 2 else 3) * (1 if i % 2 else -1)
    m = rec.MCMC(rngseed=int(r.integers(1, 2**31)))
    u = dict(starts=[s.copy() for s in iv] if given else [], delay=delay, flat=flat, nsos=nsos, centre=centre, sd=sd, dir=os.getcwd())
    m.data.add_data_set(np.arange(4.), np.arange(4.), user_defined_object=[u])
    m.simulation_options.define_simulation_options(**opts)
    m.model_settings.define_model_settings(sos_function=misfit, sigma2=1.)
    for j in range(nt):
        kw = {} if unbounded else dict(minimum=lo[j], maximum=hi[j])
        m.parameters.add_model_parameter('p%d' % j, theta0=th0[j], sample=bool(mask[j]), **kw)
    tally = Tally()
    if i % 2:
        m.custom_samplers.append(tally)

    def picture():
        return snap(dict(o=dict(m.simulation_options.__dict__), m=dict(m.model_settings.__dict__), p=m.parameters.parameters,
                         d=[m.data.xdata, m.data.ydata, m.data.n, m.data.weight, m.data.shape], u=u, t=tally.n))
    before = picture()
    ivb = snap(iv) if given else None
    pm = ParallelMCMC()
    kw = dict(num_cores=cores)
    if given:
        extra = iv
        if i % 6 == 1 and case['kind'] == 'run':      # surplus columns are dropped, the rows decide the number of chains
            extra = np.hstack([iv, np.full((nch, 1), 1e9)])
        kw['initial_values'] = extra
        if i % 5:
            kw['num_chain'] = nch
    else:
        kw['num_chain'] = nch
    if case['kind'] == 'refuse':
        o.check(refused(lambda: pm.setup_parallel_simulation(m, **kw)), 'refusals',
                'initial values outside the limits were not refused: {}'.format(iv[k]))
        o.check(not [f for f in os.listdir('.') if f.startswith('ev_')], 'refusals', 'the misfit was evaluated before refusing')
        o.sig = 'refuse%d' % i
        return o.done()
    pm.setup_parallel_simulation(m, **kw)
    o.check(diff(before, picture()) is None, 'original', lambda: 'setting up changed the original settings {}'.format(diff(before, picture())))
    starts = np.array(pm.initial_values, dtype=float)
    if not given:
        u['starts'][:] = []
        for mc in pm.parmc:      # tell the workers which start belongs to which chain
            mc.data.user_defined_object[0][0]['starts'][:] = [s.copy() for s in starts]
    pm.run_parallel_simulation()
    o.hit('runs')
    o.check(diff(before, picture()) is None, 'original', lambda: 'running changed the original settings {}'.format(diff(before, picture())))
    if given:
        o.check(eqn(ivb, iv), 'original', 'the initial values given were changed')
    if not o.check(len(pm.parmc) == nch and pm.num_chain == nch and starts.shape == (nch, nt), 'count',
                   '{} chains requested, {} run, initial values {}'.format(nch, len(pm.parmc), starts.shape)):
        return o.done()
    if nch >= 10:
        o.hit('ten_or_more')
    if given:
        o.check(eqn(starts, iv), 'starts', 'initial values {} instead of {}'.format(starts, iv))
    else:
        if not unbounded:
            o.check(bool(np.all(starts[:, par] >= lo[par]) and np.all(starts[:, par] <= hi[par])), 'starts', 'generated initial values outside the limits')
        o.check(nch == 1 or len({tuple(x) for x in starts[:, par]}) == nch, 'starts', 'generated initial values are not distinct')
        o.check(eqn(starts[:, ~mask], np.ones((nch, 1)) * th0[~mask]), 'starts', 'fixed parameters changed to {}'.format(starts[:, ~mask]))
    chains = []
    for k, mc in enumerate(pm.parmc):
        res = mc.simulation_results.results
        c, ss, s2 = np.asarray(res['chain']), np.asarray(res['sschain']), res['s2chain']
        o.hit('chains')
        if not o.check(c.shape == (nsimu, npar) and ss.shape == (nsimu, nsos), 'shape', 'chain {} has shape {} and misfits {}'.format(k, c.shape, ss.shape)):
            return o.done()
        o.check(eqn(c[0], starts[k][par]), 'order', 'chain {} starts at {} instead of {}'.format(k, c[0], starts[k][par]))
        full = np.tile(starts[k], (nsimu, 1))
        full[:, par] = c
        for j in range(nsimu):
            o.check(eqn(ss[j], value(u, full[j])), 'rows', 'chain {} row {}: misfit {} does not belong to {}'.format(k, j, ss[j], full[j]))
        if not unbounded:
            o.check(bool(np.all(c >= lo[par]) and np.all(c <= hi[par])), 'limits', 'chain {} leaves the limits'.format(k))
        o.check(eqn(np.asarray(res['theta'], float), full[-1]), 'final', 'chain {}: final values {}'.format(k, res['theta']))
        o.check((s2 is not None) == opts['updatesigma'] and (s2 is None or np.shape(s2) == (nsimu, nsos)), 'shape', 'chain {} variances {}'.format(k, np.shape(s2)))
        so = res['simulation_options']
        o.check(so['method'] == method and res['nsimu'] == nsimu and os.path.basename(so['savedir']) == 'chain_%d' % k
                and list(res['names']) == ['p%d' % j for j in par], 'settings', 'chain {} was run with other settings: {} {} {}'.format(
                    k, so['method'], res['nsimu'], so['savedir']))
        chains.append(c)
    # random numbers: no increment is shared between (or repeated within) chains
    inc = np.vstack([np.diff(c, axis=0) for c in chains])[:, 0]
    inc = np.round(inc[inc != 0] / sd[par[0]], 8)
    dup = len(inc) - len(np.unique(inc))
    o.hit('distinct', len(inc))
    o.check(dup <= 1, 'streams', '{} of {} increments occur more than once: chains share random numbers'.format(dup, len(inc)))
    # who finished when
    last, order, told = {}, [], []
    for f in os.listdir('.'):
        if f.startswith('ev_'):
            for line in open(f):
                a, t, cu, th = line.split(' ', 3)
                told.append(None if cu == 'None' else int(cu))
                th = np.array(eval(th))
                o.check(th.shape == (nt,) and any(eqn(th[~mask], s[~mask]) for s in starts), 'calls', 'misfit called with {}'.format(th))
                if a != 'None':
                    last[int(a)] = float(t)
    if i % 2:      # every chain drives a custom sampler of its own and the misfit is told its output
        o.check(sum(v is None for v in told) <= nch and all(v is None or 0 <= v <= nsimu - 2 for v in told), 'custom',
                'outputs of the custom sampler seen by the chains: {}'.format(told[:40]))
        o.hit('told', sum(v is not None for v in told))
    # the statistics shown are those of every chain, in order
    one, shown, at = [], '', 0
    if nsimu >= 50:      # (the diagnostics need forty rows)
        one = [printed(lambda: CS.chainstats(c, pm.parmc[k].simulation_results.results)) for k, c in enumerate(chains)]
        shown = printed(pm.display_individual_chain_statistics)
    for k, t in enumerate(one):
        at = shown.find(t.strip(), at)
        if not o.check(at >= 0 and len(t.strip()) > 0, 'shown', 'the statistics of chain {} are not shown in their place'.format(k)):
            break
        at += len(t.strip())
    order = sorted(last, key=last.get)
    if order != sorted(order):
        o.hit('outoforder')
    # files
    pd = opts['savedir']
    o.check(sorted(os.listdir(pd)) == sorted('chain_%d' % k for k in range(nch)), 'dirs', 'directories {}'.format(os.listdir(pd)))
    exts = [e for e, key in (('h5', 'save_to_bin'), ('txt', 'save_to_txt')) if opts.get(key)]
    if not exts and not opts.get('save_to_json'):
        exts = ['h5']
    for ext in exts:
        logs = CP.read_in_parallel_savedir_files(pd, extension=ext)
        o.check(len(logs) == nch, 'loaded', '{} chains in the logs'.format(len(logs)))
        for k, lg in enumerate(logs):
            o.check(eqn(np.asarray(lg['chain']), chains[k]), 'loaded', 'logs of chain {} do not hold chain {}'.format(k, k))
            o.check(eqn(np.asarray(lg['sschain']), np.asarray(pm.parmc[k].simulation_results.results['sschain'])), 'loaded', 'misfit log of chain {}'.format(k))
    if opts.get('save_to_json'):
        for load in (load_parallel_simulation_results, CP.load_parallel_simulation_results):
            pres = load(pd, extension=exts[0] if exts else 'h5')
            o.check(len(pres) == nch, 'loaded', '{} chains loaded'.format(len(pres)))
            for k, pr in enumerate(pres):
                res = pm.parmc[k].simulation_results.results
                o.check(eqn(np.asarray(pr['chain']), chains[k]) and eqn(np.asarray(pr['sschain']), np.asarray(res['sschain'])), 'loaded',
                        'loaded results {} do not hold chain {}'.format(k, k))
                v = pr.get('s2chain')
                o.check((v is None or len(v) == 0) if res['s2chain'] is None else v is not None and eqn(np.asarray(v), np.asarray(res['s2chain'])), 'loaded',
                        'loaded results {} do not hold the error variances of chain {}'.format(k, k))
                for key in ('theta', 'total_rejected', 'R', 'names', 'parind', 'limits', 'nsimu'):
                    d = diff(plain(res[key]), plain(pr[key]), key)
                    o.check(d is None, 'loaded', 'loaded results of chain {} differ: {}'.format(k, d))
        # restarted from these files, every chain goes on from its own end
        m.simulation_options.define_simulation_options(**dict(opts, savedir='again', json_restart_file=pd, nsimu=6))
        p2 = ParallelMCMC()
        p2.setup_parallel_simulation(m, **kw)
        p2.run_parallel_simulation()
        for k, mc in enumerate(p2.parmc):
            c = np.asarray(mc.simulation_results.results['chain'])
            o.check(c.shape == (6, npar) and eqn(c[0], chains[k][-1]), 'restarted', 'restarted chain {} starts at {} instead of {}'.format(k, c[0], chains[k][-1]))
    if i % 2:
        o.check(tally.n == 0, 'original', 'the original custom sampler was driven')
    o.sig = ['{}|{}|{}|{}|{}|{}|{}|order{}'.format(nch, cores, method, given, out, flat, bool(delay), order)]
    o.sample = dict(chains=nch, workers=cores, method=method, completion_order=order, given_starts=given)
    return o.done()

"""Results files: written, read back and compared value by value; restarts from a file re-read from their events."""
import copy
import contextlib
import io
import os
import warnings

import numpy as np

from vlib import rec, shadow
from .common import Out, count, eqn, near, seeds
from .p01 import check_calls, check_rows, check_steps
from .p03 import judge
from .deep import diff, plain

PROP = 'P11'
LEVEL = 'exploration'
RULE = 'distinct (configuration, file layout) results files read back, and runs restarted from such files'
ASSUMPTIONS = ['a results file represents arrays and tuples as lists; values, nesting and keys must agree exactly',
               'a light file plus logs represents a missing variance chain as empty']
REQUIRE = {'files': 150, 'light': 40, 'values': 10000, 'restarts': 50, 'candidates': 500, 'first_steps': 50, 'dicts': 400}
STREAM = ('candidates', 'first_steps')


def cases(tier, seed):
    out = []
    for i in range(count(tier, 200, 2400)):
        out.append(dict(kind='file', i=i, seed=rec.sub(seed, i, 11)))
    for i in range(count(tier, 110, 1600)):
        out.append(dict(kind='restart', i=i, seed=rec.sub(seed, i, 111)))
    for i in range(count(tier, 40, 500)):
        out.append(dict(kind='dict', i=i, seed=rec.sub(seed, i, 112)))
    return out


def leaves(x):
    if isinstance(x, dict):
        return sum(leaves(v) for v in x.values())
    if isinstance(x, list):
        return sum(leaves(v) for v in x)
    return 1


def leaf(r):
    k = int(r.integers(0, 17))
    x = float(r.normal() * 10.**r.integers(-300, 300))
    return [x, int(r.integers(-2**53, 2**53)), bool(r.integers(2)), None, 'text "quoted" \u00e9 \\ NaN', np.nan, np.inf, -np.inf, np.float64(x), np.int64(r.integers(-2**62, 2**62)),
            np.bool_(r.integers(2)), np.float32(r.normal()), r.normal(size=(2, 3)) * 10.**r.integers(-20, 20), np.array([np.nan, -np.inf, 0., -0., np.inf, x]),
            np.array([True, False]), np.arange(4).reshape(2, 2), np.zeros((0, 3))][k]


def tree(r, depth):
    k = r.random()
    if depth and k < .35:
        return {['a b', 'chain', 'names', 'x.y', 'k1', 'k2'][j]: tree(r, depth - 1) for j in r.choice(6, int(r.integers(0, 5)), replace=False)}
    if depth and k < .5:
        return [tree(r, depth - 1) for _ in range(int(r.integers(0, 4)))]
    if depth and k < .55:
        return tuple(tree(r, depth - 1) for _ in range(2))
    return leaf(r)


def run_dict(case):
    """Any values a results dictionary can hold, missing and infinite ones included."""
    from pymcmcstat.chain import ChainProcessing as CP
    from pymcmcstat.structures.ResultsStructure import ResultsStructure as RS
    o = Out()
    r = np.random.default_rng(case['seed'])
    for k in range(12):
        d = {n: tree(r, 3) for n in ('chain', 'theta', 'own', 'model_settings')}
        want = plain(d)
        name = ['d.json', 'd', 'd.txt', 'a name.json'][k % 4]        # the last ones are overwritten
        RS().save_json_object(d, name)
        for nm, f in (('ResultsStructure', RS.load_json_object), ('ChainProcessing', CP.load_json_object)):
            got = f(name)
            w = diff(want, plain(got), nm)
            o.check(w is None, 'dicts', lambda: 'a dictionary written and read differs: {}'.format(w))
        o.hit('values', leaves(want))
    o.sig = 'dict|{}'.format(case['seed'])
    return o.done()


def run(case):
    if case['kind'] == 'dict':
        return run_dict(case)
    return run_file(case) if case['kind'] == 'file' else run_restart(case)


def run_file(case):
    from pymcmcstat.chain import ChainProcessing as CP
    from pymcmcstat.structures.ResultsStructure import ResultsStructure as RS
    o = Out()
    i = case['i']
    w = dict(nsimu=[2, 3, 17, 60, 150, 250][i % 6])
    if i % 7 == 0:
        w.update(updatesigma=True, nsos=2)
    if i % 9 == 0:
        w.update(rdr=True, method='dram', ntry=3)
    sc = rec.gen(case['seed'], **w)
    ext = [None, 'h5', 'txt'][i % 3]
    opts = dict(save_to_json=True, savedir=['r', os.path.join('deep', 'er'), 'r.d'][i // 3 % 3], savesize=int([0, 5, 7, 50, 1000][i // 9 % 5]))
    if ext:
        opts['save_to_bin' if ext == 'h5' else 'save_to_txt'] = True
    if i % 4:
        opts['results_filename'] = ['a.json', 'results.json', 'x_y.json'][i % 3]
    tr = rec.run_scen(sc, opts=opts)
    if i % 10 == 5:      # the file of a continued run describes the continued run
        tr = rec.run_scen(sc, m=tr.m, use_previous_results=True)
    res = tr.res
    files = [f for f in os.listdir(opts['savedir']) if f.endswith('.json')]
    if not o.check(len(files) == 1, 'files', 'expected one results file, found {}'.format(os.listdir(opts['savedir']))):
        return o.done()
    if 'results_filename' in opts:
        o.check(files[0] == opts['results_filename'], 'name', 'results file is {}'.format(files[0]))
    want = plain(res)
    got = RS.load_json_object(os.path.join(opts['savedir'], files[0]))
    light = ext is not None
    skip = ('chain', 'sschain', 's2chain') if light else ()
    o.check(set(want) - set(skip) == set(got), 'keys', 'keys of the file differ: {}'.format(set(want) ^ set(got)))
    for k in got:
        if k in want:
            d = diff(want[k], plain(got[k]), k)
            o.hit('values', leaves(want[k]))
            if d:
                o.bad('results file differs from the results: {}'.format(d))
    if o.viol:
        return o.done()
    load = CP.load_serial_simulation_results(opts['savedir'], extension=ext or 'h5', **(dict(json_file=files[0]) if i % 2 else {}))
    for k in want:
        if k in ('chain', 'sschain', 's2chain'):
            v = load.get(k)
            if res[k] is None:
                o.check(v is None or len(v) == 0, 'chains', 'loaded {} where none was sampled'.format(k))
            else:
                o.check(v is not None and eqn(np.asarray(v), np.asarray(res[k])), 'chains',
                        lambda: 'loaded {} differs from the simulated one (shape {} and {})'.format(k, np.shape(v), np.shape(res[k])))
                o.hit('values', np.size(res[k]))
            continue
        d = diff(want[k], plain(load.get(k)), k)
        if d:
            o.bad('loaded results differ: {}'.format(d))
        if isinstance(res[k], np.ndarray):
            o.check(isinstance(load[k], np.ndarray), 'arrays', '{} loaded as {}'.format(k, type(load[k]).__name__))
    if light:
        o.hit('light')
        raw = CP.read_in_savedir_files(opts['savedir'], extension=ext)
        o.check('covchain' in load and len(raw['covchain']) > 0 and eqn(np.asarray(load['covchain']), np.asarray(raw['covchain'])), 'chains', 'loaded proposal covariances differ from the log')
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            CP.load_serial_simulation_results(opts['savedir'], extension=ext)
            o.check(not any('No chains' in str(q.message) for q in ws), 'warned', 'loading complete results warns that no chains were found')
        if i % 9 == 1:       # the logs are gone: said so instead of silently empty
            for f in os.listdir(opts['savedir']):
                if not f.endswith('.json'):
                    os.rename(os.path.join(opts['savedir'], f), os.path.join(opts['savedir'], f + '.gone'))
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                with contextlib.redirect_stdout(io.StringIO()):
                    empty = CP.load_serial_simulation_results(opts['savedir'], extension=ext)
            o.check(len(empty['chain']) == 0 and len(ws) > 0, 'warned', 'chains missing from the saved results are not reported')
    # any dictionary of results can be written and read
    RS().save_json_object(res, 'copy.json')
    d = diff(want, plain(RS.load_json_object('copy.json')))
    o.check(d is None, 'files', 'saved copy differs: {}'.format(d))
    o.sig = sc.ident() + str((ext, opts['savesize'], opts['savedir'], 'results_filename' in opts))
    o.sample = dict(scenario=sc.describe(), file=files[0], values=leaves(want))
    return o.done()


def run_restart(case):
    o = Out()
    r = np.random.default_rng(case['seed'] + 3)
    i = case['i']
    w = dict(nsimu=[60, 150, 250][i % 3])
    if i % 2:
        w.update(nfix=1 + i // 2 % 2)
    if i % 3 == 0:
        w.update(pmode='nanmu', pstyle='default')
    sc = rec.gen(case['seed'], **w)
    opts = dict(save_to_json=True, savedir='a', results_filename='a.json')
    if i % 4 == 1:
        opts.update(save_to_bin=True)
    tr = rec.run_scen(sc, opts=opts)
    resA = tr.res
    last, qA = tr.chain[-1].copy(), np.array(resA['qcov'], dtype=float)
    # the new run: fixed parameters moved, other priors, other options
    sc2 = rec.gen(case['seed'], **w)
    for k in np.flatnonzero(~sc.mask):
        sc2.th0[k] += r.normal() * .01 * sc.scale[k]
        sc2.lo[k], sc2.hi[k] = -np.inf, np.inf
    for k in sc.par:         # configured start differs from the saved one (and from the first run's)
        lo, hi = max(sc.lo[k], sc.th0[k] - sc.scale[k]), min(sc.hi[k], sc.th0[k] + sc.scale[k])
        sc2.th0[k] = lo + (hi - lo) * r.uniform(0, 1)
    sc2.mu = np.where(np.isnan(sc2.mu_user), sc2.th0, sc2.mu_user)
    conf = sc2.th0.copy()
    n2 = int(r.choice([2, 10, 60, 160]))
    sc2.opts = {k: v for k, v in sc2.opts.items() if k not in ('qcov', 'RDR')}
    sc2.opts.update(nsimu=n2, json_restart_file='a/a.json')
    sc2.rngseed += 1
    # what the reference takes as start and proposal
    ref = copy.copy(sc2)
    ref.th0 = conf.copy()
    ref.th0[sc.par] = last
    q = np.zeros((sc.nt, sc.nt))
    q[np.ix_(sc.par, sc.par)] = qA
    q[~sc.mask, ~sc.mask] = 1.
    ref.opts = dict(sc2.opts, qcov=q)
    try:
        np.linalg.cholesky(qA)
    except np.linalg.LinAlgError:
        o.hit('degenerate')
        return o.done()
    if np.linalg.cond(qA / np.sqrt(np.outer(np.diag(qA), np.diag(qA)))) > 1e9:
        o.hit('degenerate')
        return o.done()
    with open('a/a.json') as f:
        before = f.read()
    with rec.recording() as ev:
        m = sc2.build()
        m.run_simulation()
    t2 = rec.Trace(ref, m, ev)
    o.hit('restarts')
    o.check(t2.chain.shape[0] == n2, 'shape', 'restarted chain has {} rows for {} simulations'.format(t2.chain.shape[0], n2))
    o.check(eqn(t2.chain[0], last), 'start', 'the restarted run starts at {} instead of {}'.format(t2.chain[0], last))
    if o.viol:
        return o.done()
    check_rows(o, ref, t2.chain, t2.ss, 0, n2)
    check_calls(o, ref, t2.ev)
    check_steps(o, ref, t2, 0, last)
    for e in t2.ev:
        if e[0] == 'prior':
            o.check(eqn(e[2].reshape(-1), sc2.mu[sc.par]), 'prior_args', 'restarted run calls the prior with mean {} instead of {}'.format(e[2], sc2.mu[sc.par]))
    o.check(eqn(np.asarray(t2.res['prior']['mu'], float), sc2.mu), 'prior', 'restarted run has prior mean {} instead of {}'.format(
        t2.res['prior']['mu'], sc2.mu))
    dec = []
    for s in shadow.walk(t2):
        if s.parsed and s.stages[0]['ss'] is not None:
            d = shadow.logpost(ref, s.stages[0]['ss'][2], s.stages[0]['obs'], s.s2) - s.old_lp
            if np.isfinite(d):
                dec.append((s.i, float(np.exp(min(0., d))), s.stages[0]['u'], s.accept and len(s.stages) == 1))
        if not s.parsed or s.ambiguous or s.nomatch:
            continue
        if s.i == 1:
            o.hit('first_steps')
        for k, st in enumerate(s.stages):
            if st['obs'] is not None:
                o.check(shadow.same_draw(st['obs'], s.old, st['z'], s.factors[k]), 'candidates',
                        lambda: 'step {} stage {} of the restarted run: candidate {} is not {} plus normals {} with covariance {}'.format(
                            s.i, k + 1, st['obs'], s.old, st['z'], (s.factors[k].T @ s.factors[k]).tolist()))
    judge(o, dec)
    with open('a/a.json') as f:
        o.check(f.read() == before, 'untouched', 'restarting changed the file restarted from')
    o.sig = sc.ident() + str(n2)
    o.sample = dict(scenario=sc.describe(), rows=n2)
    return o.done()

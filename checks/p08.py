"""Reproducibility and neutrality: the same seeded run under different surroundings must give identical bits."""
import numpy as np

from vlib import rec
from .common import Out, count, eqn, seeds
from .deep import diff, snap

PROP = 'P08'
LEVEL = 'exploration'
RULE = 'distinct (configuration, observer options) pairs compared bit for bit with the unobserved run'
ASSUMPTIONS = ['each run is built from its seed right before it is executed (the seed belongs to construction)']
REQUIRE = {'compared': 600}

KEYS = ('chain', 'sschain', 's2chain', 'theta', 'total_rejected', 'rejected_outside_bounds', 'R', 'qcov', 'cov', 'mean', 'iacce',
        'RDR', 'nsimu', 'names', 'limits', 'qcovorig', 'alpha_count')


def cases(tier, seed):
    return seeds(seed, count(tier, 160, 2400), 8)


def pick(res):
    return snap({k: res.get(k) for k in KEYS})


def run(case):
    o = Out()
    r = np.random.default_rng(case['seed'])
    sc = rec.gen(case['seed'], nsimu=[60, 150, 250, 17][case['i'] % 4] if case['i'] % 40 != 9 else 1300, marker=False)
    n = sc.opts['nsimu']
    rng = [0, 1, 2**32 - 1, np.int64(12), 2][case['i'] // 4 % 5] if case['i'] % 4 == 0 else sc.rngseed     # also the extreme seeds

    def go(opts=None, marker=False, other=0, custom_extra=False):
        sc.marker = marker
        sc.buf[:] = 0
        if other:
            rec.run_scen(rec.gen(case['seed'] + other, nsimu=30))
            np.random.rand(int(other) % 7)
            np.random.randn(other % 3 + 1)
        m = sc.build(rngseed=rng, opts=opts)
        if custom_extra:
            m.custom_samplers.append(rec.Marker())
        m.run_simulation()
        return pick(m.simulation_results.results)
    base = go()
    sz = int(r.integers(1, n + 5))
    plans = [
        ('repeat', dict()),
        ('after another run', dict(other=1 + case['i'] % 50)),
        ('verbosity', dict(opts=dict(verbosity=int(r.choice([1, 2, 3, 5, 20, 101]))))),
        ('progress bar', dict(opts=dict(waitbar=True))),
        ('print interval', dict(opts=dict(printint=int(r.choice([1, 7, 50])), verbosity=2))),
        ('binary log', dict(opts=dict(save_to_bin=True, savesize=sz, savedir='b'))),
        ('text log', dict(opts=dict(save_to_txt=True, savesize=int(r.integers(1, n + 5)), savedir='t'))),
        ('json', dict(opts=dict(save_to_json=True, savedir='j', results_filename='r.json'))),
        ('everything', dict(opts=dict(save_to_json=True, save_to_bin=True, save_to_txt=True, savesize=max(1, n // 3), savedir='e',
                                      waitbar=True, verbosity=3, label='x'))),
        ('observer', dict(marker=True)),
        ('two observers', dict(marker=True, custom_extra=True)),
        ('stats flags', dict(opts=dict(stats=1, debug=1, savesize=int(r.integers(1, n))))),
    ]
    if case['i'] % 3:
        k = [0, 1] + sorted(int(x) for x in r.choice(np.arange(2, len(plans)), 4, replace=False))
        plans = [plans[i] for i in k]
    sigs = []
    for name, kw in plans:
        got = go(**kw)
        d = diff(base, got)
        o.check(d is None, 'compared', lambda: '{} ({}) changed the run: {}'.format(name, kw, d))
        sigs.append(sc.ident() + name)
    # the seed is really used: another seed, another chain
    if n > 10:
        rng = int(rng) ^ 1
        got = go()
        moved = bool((np.diff(base['chain'], axis=0) != 0).any())
        o.check(not moved or not eqn(base['chain'], got['chain']), 'seed_used', 'another seed gave the same chain')
    o.sig = sigs
    o.sample = dict(scenario=sc.describe(), plans=[p[0] for p in plans])
    return o.done()

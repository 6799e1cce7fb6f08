"""Gelman-Rubin: every figure recomputed from its definition on the chains used, with metamorphic relations."""
import contextlib
import io
import math
import re

import numpy as np

from vlib import rec
from .chains import chain, layout
from .common import Out, count, eqn, near, refused
from .deep import diff, snap

PROP = 'P15'
LEVEL = 'exploration'
RULE = 'distinct chain sets (chains, rows, parameters, mixing, input form) whose diagnostic was recomputed'
ASSUMPTIONS = ['all chains of a set have the same number of rows and parameters',
               'chains given as results are used from half their number of simulations on']
REQUIRE = {'figures': 5000, 'relations': 500, 'refusals': 20, 'results_form': 100, 'capped': 20, 'printed': 100, 'combined': 100}


def cases(tier, seed):
    return [dict(kind='set', i=i, seed=rec.sub(seed, i, 15)) for i in range(count(tier, 420, 8000))]


def definition(xs):
    """xs: list of one-dimensional arrays."""
    m, n = len(xs), len(xs[0])
    means = [math.fsum(x) / n for x in xs]
    gm = math.fsum(means) / m
    B = n * math.fsum((a - gm)**2 for a in means) / (m - 1)
    W = math.fsum(math.fsum((x - a)**2) / (n - 1) for x, a in zip(xs, means)) / m
    S = (n - 1) / n * W + B / n
    V = S + B / (m * n)                     # pooled posterior variance with sampling variability
    # V/W as (m+1)/m * S/W - (n-1)/(m n)
    neff = m * n * min(1., V / B) if B > 0 else float(m * n)
    return dict(R=math.sqrt(V / W) if W > 0 else float('nan'), B=B, W=W, V=V, neff=neff)


def run(case):
    from pymcmcstat.chain import ChainStatistics as CS, ChainProcessing as CP
    o = Out()
    i = case['i']
    r = np.random.default_rng(case['seed'])
    m = int(r.choice([2, 2, 3, 4, 7, 12]))
    n = int(r.choice([2, 3, 10, 11, 50, 101, 400, 1001]))
    npar = int(r.choice([1, 2, 3, 5])) if i % 13 != 5 else int(r.integers(9, 14))
    base = np.exp(r.uniform(-5, 5, npar) if i % 7 != 2 else r.uniform(-30, 20, npar))      # also parameters of very small and very large scale
    sep = float(r.choice([0, 0, .1, 1, 10]))
    cs = [chain(r, n, npar, repeats=[None, .5][i % 2], scaled=False) * base + sep * base * r.normal(size=npar) + base * 3 for _ in range(m)]
    if i % 11 == 0:
        cs = [cs[0].copy() for _ in range(m)]
    cs = [layout(r, c) for c in cs]
    form = i % 4
    names = ['$p_{%d}$' % j for j in range(npar)]
    kw, arg, used = {}, cs, cs
    if form == 1:
        names = ['x%d' % (npar - j) for j in range(npar)]
        kw = dict(names=list(names))
    elif form == 2:
        names = ['z%d' % j for j in range(npar)]
        k = int(r.integers(0, npar + 1))
        kw = dict(results=dict(names=names[:k]))
        names = names[:k] + ['$p_{%d}$' % j for j in range(k, npar)]
    elif form == 3:
        arg = [dict(chain=c, nsimu=n, names=['a'] * npar) for c in cs]
        used = [c[n // 2:] for c in cs]
        if i % 8 == 3:
            names = ['y%d' % j for j in range(npar)]
            kw = dict(names=list(names))
        o.hit('results_form')
        if n - n // 2 < 2:
            return o.done()
    before = snap([arg, kw])
    buf = io.StringIO()
    show = bool(i % 3 == 0)
    with contextlib.redirect_stdout(buf):
        G = CS.gelman_rubin(arg, display=show, **kw)
    o.check(diff(before, [arg, kw]) is None, 'untouched', lambda: 'gelman_rubin changed its input {}'.format(diff(before, [arg, kw])))
    if not o.check(list(G) == names, 'names', 'diagnostic for {} expected {}'.format(list(G), names)):
        return o.done()

    def compare(G, used, what, key='figures'):
        for j, nm in enumerate(names):
            xs = [np.array(c[:, j], dtype=float) for c in used]
            D = definition(xs)
            if not D['W'] > 1e-20 * max(np.abs(x).max() for x in xs)**2:
                continue
            eps = 1e-11 * max(np.abs(x).max() for x in xs)**2 * len(xs[0])
            for k in ('R', 'B', 'W', 'V', 'neff'):
                tol = dict(R=1e-8, W=1e-8, V=1e-8, neff=1e-7, B=1e-7)[k]
                at = eps if k == 'B' else (1e-6 * D['neff'] if k == 'neff' and D['B'] < 1e4 * eps else 0)
                if k == 'neff' and D['B'] <= 10 * eps:
                    at = 1e-6 * D['neff']
                o.check(near(G[nm][k], D[k], tol, at), key, lambda: '{}: {} of {} is {} but its definition gives {} ({} chains of {} rows)'.format(
                    what, k, nm, G[nm][k], D[k], len(xs), len(xs[0])))
            if D['neff'] == len(xs) * len(xs[0]):
                o.hit('capped')
    compare(G, used, 'gelman_rubin')
    if show:
        s = buf.getvalue()
        parts = re.split(r'Parameter:\s*', s)[1:]
        o.check(len(parts) == npar, 'printed', 'printed {} parameters'.format(len(parts)))
        for part, nm in zip(parts, names):
            ok = part.split('\n')[0].strip() == nm
            for k in ('R', 'B', 'W', 'V', 'neff'):
                mt = re.search(r'^\s*{}\s*=\s*(\S+)\s*$'.format(k), part, re.M)
                ok = ok and mt is not None and near(float(mt.group(1)), float(G[nm][k]), 1e-9)
            o.check(ok, 'printed', lambda: 'printed figures of {} are not those returned: {}'.format(nm, part))
    # chain order, shift and scale
    perm = r.permutation(m)
    G2 = CS.gelman_rubin([arg[k] for k in perm], display=False, **kw)
    compare(G2, used, 'reordered chains', 'relations')
    c, h = float(np.exp(r.uniform(-2, 2)) * r.choice([-1, 1])), r.normal(size=npar) * base
    moved = [np.asarray(x) * c + h for x in used]
    G3 = CS.gelman_rubin(moved, names=names, display=False)
    for nm in names:
        D = definition([np.array(x[:, names.index(nm)]) for x in used])
        if D['W'] > 1e-16 * max(np.abs(x[:, names.index(nm)]).max() for x in moved)**2:
            o.check(near(G3[nm]['R'], D['R'], 1e-6), 'relations', 'shift and scale change R of {} from {} to {}'.format(nm, D['R'], G3[nm]['R']))
            o.check(near(G3[nm]['W'], D['W'] * c * c, 1e-6), 'relations', 'shift and scale change W of {} wrongly'.format(nm))
    # one chain, no chain
    if i % 5 == 0:
        o.check(refused(lambda: CS.gelman_rubin(arg[:1], display=False, **kw)), 'refusals', 'a single chain was not refused')
    # pooling helpers
    if form == 3:
        pct = int(r.choice([0, 10, 50, 75]))
        full = [dict(a) for a in arg]
        lst = CP.generate_chain_list(full, burnin_percentage=pct)
        start = n * pct // 100
        o.check(len(lst) == m and all(eqn(a, c[start:]) for a, c in zip(lst, cs)), 'combined', 'chain list with {} percent removed is wrong'.format(pct))
        if n > 6:       # chains of different lengths
            cut = [n - (k * (n // (m + 2))) for k in range(m)]
            uneq = [dict(a, chain=np.asarray(a['chain'])[:q], nsimu=q) for a, q in zip(full, cut)]
            lst = CP.generate_chain_list(uneq, burnin_percentage=pct)
            o.check(len(lst) == m and all(eqn(a, c[q * pct // 100:q]) for a, c, q in zip(lst, cs, cut)), 'combined', 'list of chains of different lengths with {} percent removed is wrong'.format(pct))
            comb, idx = CP.generate_combined_chain_with_index(uneq, burnin_percentage=pct)
            o.check(eqn(comb, np.vstack([c[q * pct // 100:q] for c, q in zip(cs, cut)])) and list(idx) == ['Chain {}'.format(k) for k in range(m) for _ in range(cut[k] - cut[k] * pct // 100)],
                    'combined', 'combined chain of chains of different lengths with {} percent removed is wrong'.format(pct))
        comb, idx = CP.generate_combined_chain_with_index(full, burnin_percentage=pct)
        o.check(eqn(comb, np.vstack([c[start:] for c in cs])) and list(idx) == ['Chain {}'.format(k) for k in range(m) for _ in range(n - start)],
                'combined', 'combined chain with {} percent removed is wrong'.format(pct))
    o.sig = '{}|{}|{}|{}|{}'.format(m, n, npar, form, case['seed'])
    o.sample = dict(chains=m, rows=n, form=['arrays', 'names', 'results names', 'result dictionaries'][form], R=[float(G[k]['R']) for k in names])
    return o.done()

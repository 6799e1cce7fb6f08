"""Chain statistics recomputed from their definitions, with metamorphic relations, on chains of many shapes."""
import contextlib
import io
import math
import re

import numpy as np
from scipy import stats as st

from vlib import rec
from .chains import chain, layout
from .common import Out, count, eqn, near
from .deep import diff, snap

PROP = 'P14'
LEVEL = 'exploration'
RULE = 'distinct chains (length, columns, shape of dependence, repeats, memory layout) whose statistics were recomputed'
ASSUMPTIONS = ['the Geweke score uses the spectral estimate at zero of the library (Hanning windows of a quarter of each part, no mean removal)',
               'where Sokal\'s window closes within rounding of zero the window is not judged']
REQUIRE = {'constant': 30, 'columns': 1000, 'tau': 900, 'relations': 600, 'printed': 400, 'acceptance': 150, 'simulated': 20}


def cases(tier, seed):
    out = []
    for i in range(count(tier, 420, 6000)):
        out.append(dict(kind='synthetic', i=i, seed=rec.sub(seed, i, 14)))
    for i in range(count(tier, 40, 300)):
        out.append(dict(kind='simulated', i=i, seed=rec.sub(seed, i, 141)))
    return out


# ---------------------------------------------------------------- definitions
def spec0(x):
    m = len(x)
    nw = m // 4
    ov = nw // 2
    w = np.array([.5 * (1 - math.cos(2 * math.pi * (j + 1) / (nw + 1))) for j in range(nw)])
    k = (m - ov) // (nw - ov)
    tot = 0.
    for b in range(k):
        seg = x[b * (nw - ov):b * (nw - ov) + nw]
        tot += float((w * seg).sum())**2
    return tot / (k * float((w**2).sum()))


def d_geweke(x, a=.1, b=.5):
    n = len(x)
    na, nl = int(math.floor(a * n)), int(math.floor(b * n))
    A, B = x[:na], x[n - nl:]
    with np.errstate(all='ignore'):
        z = (A.mean() - B.mean()) / np.sqrt(spec0(A) / na + spec0(B) / nl)
    return float(z), float(2 * st.norm.sf(abs(z)))


def d_bmstd(x, b=None):
    n = len(x)
    b = b or max(10, n // 20)
    nb = n // b
    y = x[:nb * b].reshape(nb, b).mean(1)
    return math.sqrt(float(((y - x.mean())**2).sum()) / (nb - 1) * b)


def d_tau(x):
    """(tau, m) or None when undecided within rounding."""
    n = len(x)
    d = x - x.mean()
    if not np.any(np.abs(d) > 1e-13 * np.abs(x).max()):
        return None
    if n <= 400:
        ac = np.array([float((d * np.roll(d, -k)).sum()) for k in range(n)])
    else:
        ac = np.fft.ifft(np.abs(np.fft.fft(d))**2).real
    rho = ac / ac[0]
    s = -1 / 3
    for i in range(n):
        s += rho[i] - 1 / 6
        if abs(s) < 1e-7 * (1 + i):
            return None
        if s < 0:
            return 2 * (s + i / 6), i + 1
    return 0., 0


def num(s):
    return float(s)


def run(case):
    from pymcmcstat.chain import ChainStatistics as CS
    o = Out()
    i = case['i']
    r = np.random.default_rng(case['seed'])
    res = None
    if case['kind'] == 'simulated':
        sc = rec.gen(case['seed'], nsimu=[90, 250, 400][i % 3], hole=None)
        tr = rec.run_scen(sc)
        X, res = tr.chain, tr.res
        n, npar = X.shape
        if len(np.unique(X[:, 0])) < 5:
            o.hit('stuck')
            return o.done()
        o.hit('simulated')
        names = list(res['names'])
    else:
        n = int(r.choice([40, 41, 59, 60, 99, 100, 101, 199, 200, 203, 255, 400, 777, 1024, 2500])) + int(r.integers(0, 3)) * int(r.integers(0, 7))
        npar = int(r.choice([1, 2, 3, 5, 9]))
        if i % 14 == 6:
            n, npar = int(r.choice([5001, 9999, 20123, 30011, 50007])) + int(r.integers(0, 20)), int(r.choice([1, 2]))
        X = chain(r, n, npar, repeats=[None, .3, .7, None][i % 4])
        if npar > 1 and i % 5 == 0:                 # a parameter that never moved
            X[:, int(r.integers(0, npar - 1))] = float(r.choice([0, 2, -3.5, 1024]))
            o.hit('constant')
        if i % 9 == 4:                              # very small or very large values
            X = X * 10**r.uniform(-14, 8, npar)
        X = layout(r, X)
        names = None
        if i % 2:
            names = ['nm%d' % j for j in range(npar)]
            k = int(r.integers(0, npar + 1)) if i % 4 == 1 else npar
            res = dict(names=names[:k])
            names = names[:k] + ['$p_{%d}$' % j for j in range(k, npar)]
            if i % 8 == 3:
                ia = r.integers(0, 50, int(r.choice([2, 3])))
                res.update(iacce=ia, nsimu=int(ia.sum() + r.integers(0, 100)))
        else:
            names = ['$p_{%d}$' % j for j in range(npar)]
    before, rb = X.copy(), snap(res)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        S = CS.chainstats(X, res, returnstats=True)
    o.check(eqn(before, X), 'untouched', 'chainstats changed the chain')
    o.check(diff(rb, res) is None, 'untouched', lambda: 'chainstats changed the results {}'.format(diff(rb, res)))
    for j in range(npar):
        x = np.array(X[:, j], dtype=float)
        xm = float(np.abs(x).max())
        o.hit('columns')

        def cmp(what, got, want, rtol=1e-8, atol=0.):
            o.check(near(got, want, rtol, atol), what, lambda: '{} of column {} ({} rows) is {} but its definition gives {}'.format(what, j, n, got, want))
        cmp('mean', S['mean'][j], math.fsum(x) / n, 1e-9, 1e-12 * xm)
        cmp('std', S['std'][j], math.sqrt(math.fsum((x - x.mean())**2) / n), 1e-8, 1e-10 * xm)
        bm = d_bmstd(x)
        cmp('bmstd', S['bmstd'][j], bm, 1e-7, 1e-9 * xm)
        cmp('mcerr', S['mcerr'][j], bm / math.sqrt(n), 1e-7, 1e-9 * xm)
        z, p = d_geweke(x)
        cmp('geweke z', S['geweke']['z'][j], z, 1e-6, 1e-8)
        cmp('geweke p', S['geweke']['p'][j], p, 1e-5, 1e-7)
        t = d_tau(x)
        if t is not None:
            cmp('tau', S['iact']['tau'][j], t[0], 1e-6, 1e-6)
            cmp('window', S['iact']['m'][j], t[1], 0)
    text(o, buf.getvalue(), X, res, names, S, n, npar)
    if case['kind'] == 'synthetic' and not o.viol:
        relations(o, CS, r, X, S, n, npar)
        a, b = float(r.uniform(.08, .3)), float(r.uniform(.35, .6))
        if int(a * n) >= 8:
            z, p = CS.geweke(np.array(X), a, b)
            for j in range(npar):
                zz, pp = d_geweke(np.array(X[:, j]), a, b)
                o.check(near(z[j], zz, 1e-6, 1e-8) and near(p[j], pp, 1e-5, 1e-7), 'geweke ab', 'geweke({}, {}) is {} but its definition gives {}'.format(a, b, z[j], zz))
        b = int(r.integers(3, n // 3))
        s = CS.batch_mean_standard_deviation(np.array(X), b)
        for j in range(npar):
            o.check(near(s[j], d_bmstd(np.array(X[:, j]), b), 1e-7, 1e-9 * float(np.abs(X[:, j]).max())), 'bmstd b', 'batch means with size {}'.format(b))
    o.sig = '{}|{}|{}|{}'.format(case['kind'], n, npar, case['seed'])
    o.sample = dict(kind=case['kind'], rows=n, columns=npar, tau=[float(x) for x in S['iact']['tau']], geweke=[float(x) for x in S['geweke']['p']])
    return o.done()


def text(o, s, X, res, names, S, n, npar):
    """The figures on the screen are the figures computed."""
    h = re.search(r'^\s*name\s*:?((?:\s+\S+){5})\s*$', s, re.M)
    heads = h.group(1).split() if h else []
    o.check(sorted(heads) == sorted(['mean', 'std', 'MC_err', 'tau', 'geweke']), 'headings', lambda: 'the table of statistics has the headings {}'.format(heads))
    for j, nm in enumerate(names):
        m = re.search(r'^\s*' + re.escape(nm) + r'\s*:\s*(\S+)\s+(\S+)\s+(\S+)\s+(\S+)\s+(\S+)\s*$', s, re.M)
        if not o.check(m is not None, 'printed', lambda: 'no line printed for parameter {}'.format(nm)):
            continue
        want = dict(mean=S['mean'][j], std=S['std'][j], MC_err=S['mcerr'][j], tau=S['iact']['tau'][j], geweke=S['geweke']['p'][j])
        want = [want.get(q, math.nan) for q in heads or list(want)]
        for g, w in zip(m.groups(), want):
            o.check(abs(num(g) - w) <= .0051 + (.006 * abs(w)) or (math.isnan(w) and g == 'nan'), 'printed',
                    lambda: 'printed line of {} shows {} for {}'.format(nm, g, w))
    if len(np.unique(X[:, 0])) == 1:
        return                                      # acceptance is judged by the first parameter
    acc = len(np.unique(np.asarray(X), axis=0))
    nets = re.findall(r'Net\s*:\s*(\S+?)%\s*->\s*(\d+)/(\d+)', s)
    want = []
    if res is not None and 'iacce' in res:
        ns, ia = res['nsimu'], np.asarray(res['iacce'])
        for k, a in enumerate(ia):
            m = re.search(r'Stage {}\s*:\s*(\S+?)%'.format(k + 1), s)
            o.check(m is not None and abs(float(m.group(1)) - 100. * a / ns) < .0051, 'acceptance', 'stage {} printed wrongly'.format(k + 1))
        want.append((int(ia.sum()), ns))
    want.append((acc, n))
    ok = len(nets) == len(want) and all(int(g[1]) == w[0] and int(g[2]) == w[1] and abs(float(g[0]) - 100. * w[0] / w[1]) < .0051
                                        for g, w in zip(nets, want))
    o.check(ok, 'acceptance', 'printed acceptance {} expected {}'.format(nets, want))


def relations(o, CS, r, X, S, n, npar):
    def get(Y):
        with contextlib.redirect_stdout(io.StringIO()):
            return CS.chainstats(Y, returnstats=True)

    def same(what, a, b, rtol, atol):
        for k in range(len(a)):
            o.check(near(a[k], b[k], rtol, atol[k] if np.ndim(atol) else atol), 'relations', lambda: '{}: {} became {}'.format(what, b[k], a[k]))
    X = np.array(X)
    xm = np.abs(X).max(0)
    # other parameters do not matter
    perm = r.permutation(npar)
    T = get(X[:, perm])
    for key in ('mean', 'std', 'bmstd', 'mcerr'):
        same('reordering the parameters changes ' + key, [T[key][list(perm).index(j)] for j in range(npar)], S[key], 1e-9, 1e-10 * xm)
    j = int(r.integers(0, npar))
    T = get(X[:, [j]])
    if d_tau(X[:, j]) is not None:
        same('a parameter alone: tau', T['iact']['tau'], [S['iact']['tau'][j]], 1e-6, 1e-6)
    same('a parameter alone: geweke', T['geweke']['z'], [S['geweke']['z'][j]], 1e-7, 1e-8)
    same('a parameter alone: bmstd', T['bmstd'], [S['bmstd'][j]], 1e-9, 1e-10 * xm[j])
    # scale
    c = float(np.exp(r.uniform(-2, 2)) * r.choice([-1, 1]))
    T = get(X * c)
    same('scaling: mean', T['mean'], np.array(S['mean']) * c, 1e-9, 1e-11 * xm * abs(c))
    same('scaling: std', T['std'], np.array(S['std']) * abs(c), 1e-8, 1e-10 * xm * abs(c))
    same('scaling: mcerr', T['mcerr'], np.array(S['mcerr']) * abs(c), 1e-7, 1e-10 * xm * abs(c))
    same('scaling: geweke z', T['geweke']['z'], np.array(S['geweke']['z']) * np.sign(c), 1e-6, 1e-8)
    same('scaling: geweke p', T['geweke']['p'], S['geweke']['p'], 1e-6, 1e-8)
    # shift
    sd = np.array(S['std'])
    h = sd * r.uniform(-3, 3, npar)
    T = get(X + h)
    same('shifting: mean', T['mean'], np.array(S['mean']) + h, 1e-9, 1e-11 * (xm + sd))
    same('shifting: std', T['std'], S['std'], 1e-7, 1e-9 * (xm + sd))
    same('shifting: mcerr', T['mcerr'], S['mcerr'], 1e-6, 1e-9 * (xm + sd))
    for j in range(npar):
        if d_tau(X[:, j]) is not None and xm[j] < 1e6 * sd[j]:
            same('shifting: tau', [T['iact']['tau'][j]], [S['iact']['tau'][j]], 1e-5, 1e-5)

"""Uncertainty propagation: recorded model calls, responses matched to chain rows, whitened noise, drawn bands."""
import math
import re

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from scipy import stats

from vlib import rec
from .common import Out, count, eqn, near
from .deep import diff, snap

PROP = 'P16'
LEVEL = 'exploration'
RULE = 'distinct (chain, fixed parameters, outputs, variance form, noise scale, samples, model style) propagations'
ASSUMPTIONS = ['the law of the added noise is tested on residuals divided by the standard deviation of their own row and output '
               '(Kolmogorov-Smirnov p < 1e-10, correlations 6.5 sigma, no residual beyond 9 standard deviations)',
               'uniformity of drawn rows is tested over all executions together (p < 1e-10)',
               'quantiles are interpolated linearly between order statistics']
REQUIRE = {'calls': 8000, 'responses': 8000, 'noise': 100000, 'bands': 500, 'medians': 80, 'drawn': 3000, 'allrows': 40, 'multi': 40, 'end_to_end': 8,
           'quantiles': 200, 'bands3d': 60, 'medians3d': 20}


def cases(tier, seed):
    out = [dict(kind='syn', i=i, seed=rec.sub(seed, i, 16)) for i in range(count(tier, 240, 4000))]
    out += [dict(kind='run', i=i, seed=rec.sub(seed, i, 1601)) for i in range(count(tier, 12, 160))]
    out += [dict(kind='3d', i=i, seed=rec.sub(seed, i, 1603)) for i in range(count(tier, 48, 600))]
    out += [dict(kind='quant', i=i, seed=rec.sub(seed, i, 1602)) for i in range(count(tier, 40, 400))]
    return out


class Model:
    """A model that records its calls; style decides what it does with its argument and its output array."""
    def __init__(self, x, nout, shape, style, positive, r):
        self.x, self.nout, self.shape, self.style, self.positive = x, nout, shape, style, positive
        self.a = r.normal(size=(nout, 3))
        self.calls, self.datas, self.buf = [], [], None
        self.negative, self.hole = False, None

    def value(self, q):
        w = np.arange(1, len(q) + 1)
        cols = []
        for k in range(self.nout):
            a = self.a[k]
            v = (q * w).sum() * a[0] + np.cos(q).sum() * a[1] * self.x + (k + 1) * (q[0] * self.x + a[2])
            cols.append(1e6 * (2.5 + v / (1 + np.abs(v))) if self.positive else v)
        Y = np.column_stack(cols)
        if self.negative:
            Y[:, ::2] = -Y[:, ::2]
        if self.hole is not None and q[0] > .5:
            Y[len(Y) // 2] = self.hole
        return Y

    def __call__(self, q, data):
        self.calls.append(np.array(q, dtype=float, copy=True))
        self.datas.append(data)
        Y = self.value(np.array(q, dtype=float))
        if self.shape == 'flat':
            Y = Y[:, 0]
        elif self.shape == 'row':
            Y = Y.T.copy()
        elif self.shape == 'list':
            Y = Y[:, 0].tolist()
        if self.style == 'mutates':
            try:
                q[:] = -12345.
            except (TypeError, ValueError):
                pass
        if self.style == 'buffer' and self.shape != 'list':
            if self.buf is None:
                self.buf = np.empty_like(Y)
            self.buf[...] = Y
            return self.buf
        return Y


def whiten(pi, y, s2, sstype):
    sd = math.sqrt(s2)
    if sstype == 0:
        return (pi - y) / sd
    if sstype == 1:      # the square root of a prediction is the absolute value of a normal around that of the response
        t, a = np.sqrt(pi), np.sqrt(y)
        w = (t - a) / sd
        near0 = a / sd < 9
        if np.any(near0):
            u = stats.norm.cdf(w) - stats.norm.cdf((-t - a) / sd)
            w = np.where(near0, stats.norm.ppf(np.clip(u, 1e-16, 1 - 1e-16)), w)
        return w
    return np.log(pi / y) / sd


def corr_z(a, b):
    a, b = np.ravel(a), np.ravel(b)
    n = len(a)
    return float((a * b).sum()) / math.sqrt(n) if n > 30 else 0.


def judge_noise(o, W, what):
    """W: (samples, points, outputs) residuals that should be independent standard normals."""
    v = W.reshape(-1)
    o.hit('noise', v.size)
    if not np.all(np.isfinite(v)):
        return o.bad('{}: noise is not a number'.format(what))
    if np.abs(v).max() > 9:
        return o.bad('{}: a prediction differs from its response by {:.1f} standard deviations of its own row and output'.format(what, np.abs(v).max()))
    if v.size >= 20:
        p = stats.kstest(v, 'norm').pvalue
        if p < 1e-10:
            o.bad('{}: prediction noise does not follow the error variance of its own row and output (KS p = {:.1e}, standard deviation {:.3f})'.format(
                what, p, v.std()))
    for k in range(W.shape[2]):
        u = W[:, :, k].reshape(-1)
        if u.size >= 20 and W.shape[2] > 1:
            p = stats.kstest(u, 'norm').pvalue
            if p < 1e-10:
                o.bad('{}: noise of output {} has the wrong law (p = {:.1e})'.format(what, k, p))
        for j in range(k):
            if abs(corr_z(W[:, :, k], W[:, :, j])) > 6.5:
                o.bad('{}: noise of outputs {} and {} is correlated'.format(what, j, k))
    # all points of one sample share nothing, nor do neighbouring samples
    if W.shape[1] > 1 and abs(corr_z(W[:, 1:], W[:, :-1])) > 8:
        o.bad('{}: noise is correlated between points'.format(what))
    if W.shape[0] > 1 and abs(corr_z(W[1:], W[:-1])) > 8:
        o.bad('{}: noise is correlated between samples'.format(what))
    # row by row: the variance of each row on its own (many points)
    if W.shape[1] >= 40:
        m = (W**2).mean(axis=1)
        z = (m - 1) * math.sqrt(W.shape[1] / 2.)
        if np.abs(z).max() > 14:
            o.bad('{}: one sample\'s noise has {:.3f} times the variance of its row'.format(what, m.reshape(-1)[np.abs(z).argmax()]))


def band_by_label(ax):
    """label -> (m, 2) vertices of the filled region."""
    out = {}
    for c in list(ax.collections) + list(ax.patches):
        lab = str(c.get_label())
        if hasattr(c, 'get_paths'):
            v = np.vstack([np.zeros((0, 2))] + [p.vertices for p in c.get_paths()])
        else:
            v = c.get_path().vertices
        out.setdefault(lab, []).append(v)
    return out


def check_band(o, verts, x, sample, pct, what):
    q = np.quantile(sample, [.5 - pct / 200., .5 + pct / 200.], axis=0)
    ok = True
    for k, xv in enumerate(x):
        y = verts[np.abs(verts[:, 0] - xv) <= 1e-9 * (1 + abs(xv)), 1]
        ok = ok and len(y) >= 2 and near(y.min(), q[0, k], 1e-9, 1e-9 * np.abs(sample[:, k]).max()) and near(y.max(), q[1, k], 1e-9, 1e-9 * np.abs(sample[:, k]).max())
        if not ok:
            break
    o.check(ok, 'bands', lambda: '{}: band at x = {} is {} to {} but the empirical quantiles are {} to {}'.format(
        what, xv, y.min() if len(y) else None, y.max() if len(y) else None, q[0, k], q[1, k]))


def check_plot(o, PR, iv, x, r, i, what):
    n_pi = iv['prediction'] is not None
    pool = [5, 10, 25, 50, 75, 90, 95, 99, 99.9, 33.5]
    lim = [pool[k] for k in r.choice(len(pool), int(r.integers(1, 4)), replace=False)]
    kw = dict(limits=list(lim))
    cl = pl = lim
    mode = i % 4
    if mode == 1:
        cl = [pool[k] for k in r.choice(len(pool), int(r.integers(1, 4)), replace=False)]
        kw['ciset'] = dict(limits=list(cl))
    if mode == 2 and n_pi:
        pl = [pool[k] for k in r.choice(len(pool), int(r.integers(1, 3)), replace=False)]
        kw['piset'] = dict(limits=list(pl))
    addp = n_pi and i % 5 != 1
    addc = i % 7 != 2
    addm = i % 6 != 3
    if not addp:
        kw['addprediction'] = False
    if not addc:
        kw['addcredible'] = False
    if not addm:
        kw['addmodel'] = False
    yd = r.normal(size=len(x))
    xd = x
    if i % 3 == 1:
        kw['ydata'] = yd
        if i % 2:
            xd = np.sort(r.normal(size=len(x)))
            kw['xdata'] = xd
    if i % 8 == 4:
        kw['addlegend'] = False
    adata = 'ydata' in kw
    if adata and i % 5 == 2:
        adata = kw['adddata'] = False
    if i % 9 in (2, 3):
        kw['return_settings'] = True
    before = snap([iv, kw])
    mine = plt.figure() if i % 6 == 4 else None
    got = PR.plot_intervals(iv, x.reshape(-1, 1) if i % 2 else x, **(dict(kw, fig=mine) if mine is not None else kw))
    fig, ax = got[:2]
    o.check(diff(before, [iv, kw]) is None, 'untouched', lambda: 'plotting changed {}'.format(diff(before, [iv, kw])))
    o.check(mine is None or fig is mine and ax.figure is mine, 'given_figure', '{}: not drawn in the figure given'.format(what))
    handed(o, got, kw, cl, pl, what)
    bands = band_by_label(ax)
    want = []
    if addp:
        want += [('{}% PI'.format(p), p, iv['prediction']) for p in pl]
    if addc:
        want += [('{}% CI'.format(p), p, iv['credible']) for p in cl]
    o.check(sorted(bands) == sorted(set(w[0] for w in want)), 'band_labels', lambda: '{}: bands {} drawn, {} requested'.format(what, sorted(bands), sorted(w[0] for w in want)))
    drawn = [str(c.get_label()) for c in sorted(ax.collections, key=lambda c: c.get_zorder())]
    for kind in ('PI', 'CI'):
        w = [float(t.split('%')[0]) for t in drawn if t.endswith(kind)]
        o.check(w == sorted(w, reverse=True), 'covering', '{}: a wider band is drawn over a narrower one: {}'.format(what, drawn))
    for lab, p, s in want:
        if lab in bands and len(bands[lab]) == 1 and len(x) > 1:
            check_band(o, bands[lab][0], x, s, p, '{}: {}'.format(what, lab))
    lines = {str(li.get_label()): li for li in ax.lines}
    o.check(('Model' in lines) == addm, 'median_drawn', '{}: median line drawn: {}, requested: {}'.format(what, 'Model' in lines, addm))
    if addm and 'Model' in lines:
        lx, ly = np.asarray(lines['Model'].get_xdata(), dtype=float).reshape(-1), np.asarray(lines['Model'].get_ydata(), dtype=float).reshape(-1)
        a, b = np.argsort(lx), np.argsort(x)
        o.check(near(lx[a], x[b], 1e-12) and near(ly[a], np.quantile(iv['credible'], .5, axis=0)[b], 1e-9,
                1e-9 * np.abs(iv['credible']).max()), 'medians', '{}: the model line is not the median response'.format(what))
    o.check(('Data' in lines) == adata, 'dataline', '{}: data drawn: {}, requested: {}'.format(what, 'Data' in lines, adata))
    legend(o, ax, kw, [w[0] for w in want] + ['Model'] * addm + ['Data'] * adata, what)
    if adata and 'Data' in lines:
        o.check(eqn(np.asarray(lines['Data'].get_xdata()), xd) and eqn(np.asarray(lines['Data'].get_ydata()), yd), 'dataline',
                '{}: the data line is not the data'.format(what))
    plt.close(fig)


def legend(o, ax, kw, want, what):
    leg = ax.get_legend()
    o.check((leg is None) == (kw.get('addlegend') is False), 'legends', '{}: legend {}'.format(what, leg))
    if leg is not None:
        names = sorted(t.get_text() for t in leg.get_texts())
        o.check(names == sorted(want), 'legends', '{}: legend entries {} instead of {}'.format(what, names, sorted(want)))


def handed(o, got, kw, cl, pl, what):
    """The settings handed back are those of the bands drawn."""
    if not o.check(len(got) == (3 if kw.get('return_settings') else 2), 'settings', '{}: {} values returned'.format(what, len(got))):
        return
    if len(got) == 3:
        for key, lim in (('ciset', cl), ('piset', pl)):
            st = got[2][key]
            q = np.array([[.5 - p / 200., .5 + p / 200.] for p in st['limits']])
            o.check(sorted(st['limits']) == sorted(lim) and near(np.asarray(st['quantiles'], dtype=float).reshape(-1, 2), q, 1e-12), 'settings', '{}: {} handed back as {}'.format(what, key, st))


def three(o, PR, r, i, case):
    """Bands, median and data of a plot over two independent variables, read back from the figure."""
    n, nt = int(r.choice([2, 3, 20, 51, 300])), int(r.choice([2, 5, 30]))
    t = r.normal(size=(nt, 2)) if i % 2 else np.c_[np.linspace(0, 1, nt), np.linspace(0, 1, nt)**2]
    iv = dict(credible=r.normal(size=(n, nt)) * np.exp(r.uniform(-2, 2)) + r.normal() * 5, prediction=None)
    n_pi = i % 3 != 2
    if n_pi:
        iv['prediction'] = iv['credible'] + 10 * r.normal(size=(n, nt))
    pool = [5, 10, 25, 50, 75, 90, 95, 99, 99.9, 33.5]

    def some():
        return [pool[k] for k in r.choice(len(pool), int(r.integers(1, 4)), replace=False)]
    cl = pl = lim = some()
    kw = dict(limits=list(lim))
    if i % 4 == 1:
        cl = some()
        kw['ciset'] = dict(limits=list(cl))
    if i % 4 == 2:
        pl = some()
        kw['piset'] = dict(limits=list(pl))
    if i % 8 == 7:
        kw.pop('limits')
        cl = pl = [95]
    addp, addc, addm = n_pi and i % 5 != 1, i % 7 != 2, i % 6 != 3
    if not addp:
        kw['addprediction'] = False
    if not addc:
        kw['addcredible'] = False
    if not addm:
        kw['addmodel'] = False
    nd = nt
    td = t
    if i % 3 == 1:
        if i % 2:
            nd = int(r.integers(1, 9))
            td = kw['xdata'] = r.normal(size=(nd, 2))
        kw['ydata'] = r.normal(size=nd) if i % 4 else r.normal(size=(nd, 1))
        kw['adddata'] = True
    if i % 8 == 4:
        kw['addlegend'] = False
    adata = 'ydata' in kw
    if adata and i % 5 == 2:
        adata = kw['adddata'] = False
    if i % 9 in (2, 3):
        kw['return_settings'] = True
    what = '3-D plot of {} samples at {} points, {}'.format(n, nt, {k: v for k, v in kw.items() if k not in ('xdata', 'ydata')})
    before = snap([iv, kw, t])
    mine = None
    if i % 6 == 4:
        mine = plt.figure()
        mine.add_subplot(111, projection='3d')
    got = PR.plot_3d_intervals(iv, t, **(dict(kw, fig=mine) if mine is not None else kw))
    fig, ax = got[:2]
    o.check(mine is None or fig is mine and ax.figure is mine, 'given_figure', '{}: not drawn in the figure given'.format(what))
    handed(o, got, kw, cl, pl, what)
    o.check(diff(before, [iv, kw, t]) is None, 'untouched', lambda: 'plotting changed {}'.format(diff(before, [iv, kw, t])))
    want = [('{}% PI'.format(p), p, iv['prediction']) for p in pl if addp] + [('{}% CI'.format(p), p, iv['credible']) for p in cl if addc]
    bands = {}
    for c in ax.collections:
        v = getattr(c, '_vec', None)
        if v is not None:
            bands[str(c.get_label())] = np.asarray(v, dtype=float)[:3].T
    o.check(sorted(bands) == sorted(set(w[0] for w in want)), 'band_labels', lambda: '{}: bands {} drawn, {} requested'.format(what, sorted(bands), sorted(w[0] for w in want)))
    for lab, p, s in want:
        v = bands.get(lab)
        if v is None:
            continue
        q = np.quantile(s, [.5 - p / 200., .5 + p / 200.], axis=0)
        ok = True
        for k in range(nt):
            z = v[(v[:, 0] == t[k, 0]) & (v[:, 1] == t[k, 1]), 2]
            ok = ok and len(z) >= 2 and near(np.array([z.min(), z.max()]), q[:, k], 1e-9, 1e-9 * np.abs(s).max())
        o.check(ok, 'bands3d', '{}: the band {} is not the range of those quantiles'.format(what, lab))
    lines = {str(li.get_label()): [np.asarray(w, dtype=float).reshape(-1) for w in li.get_data_3d()] for li in ax.lines}
    o.check(('Model' in lines) == addm, 'median_drawn', '{}: median line drawn: {}, requested: {}'.format(what, 'Model' in lines, addm))
    if addm and 'Model' in lines:
        L = lines['Model']
        o.check(eqn(L[0], t[:, 0]) and eqn(L[1], t[:, 1]) and near(L[2], np.quantile(iv['credible'], .5, axis=0), 1e-9, 1e-9 * np.abs(iv['credible']).max()), 'medians3d',
                '{}: the model line is not the median response'.format(what))
    o.check(('Data' in lines) == adata, 'dataline', '{}: data drawn: {}'.format(what, 'Data' in lines))
    legend(o, ax, kw, [w[0] for w in want] + ['Model'] * addm + ['Data'] * adata, what)
    if adata and 'Data' in lines:
        L = lines['Data']
        o.check(eqn(L[0], td[:, 0]) and eqn(L[1], td[:, 1]) and eqn(L[2], kw['ydata'].reshape(-1)), 'dataline', '{}: the data line is not the data'.format(what))
    plt.close('all')
    o.sig = '3d|{}'.format(case['seed'])
    o.sample = dict(what=what)
    return o.done()


def judge_iv(o, PR, ivs, mod, rows, table, S2, sstype, nout, what, r, i, x, plots=True):
    """ivs: list of dicts per output. Match credible responses to rows, judge noise, draw."""
    n = len(ivs[0]['credible'])
    # exact matching through a dictionary of the first output
    look = {}
    for a in range(rows):
        look.setdefault((table[a][:, 0] + 0.).tobytes(), []).append(a)
    idx = []
    for k in range(n):
        c = look.get((np.ascontiguousarray(ivs[0]['credible'][k], dtype=float) + 0.).tobytes())
        o.check(c is not None, 'responses', '{}: response {} is not the model at any stored row'.format(what, k))
        if c is None:
            return None
        idx.append(c[0])
    for j in range(nout):
        o.check(ivs[j]['credible'].shape == (n, len(x)) and all(eqn(ivs[j]['credible'][k], table[idx[k]][:, j]) for k in range(n)), 'columns',
                '{}: responses of output {} are not those of the sampled rows'.format(what, j))
        if S2 is None:
            o.check(ivs[j]['prediction'] is None, 'noprediction', '{}: predictions without an error variance'.format(what))
        else:
            if not o.check(ivs[j]['prediction'] is not None and ivs[j]['prediction'].shape == (n, len(x)), 'predshape', '{}: predictions of output {} missing or of wrong shape'.format(what, j)):
                return idx
    if S2 is not None:
        W = np.stack([np.array([whiten(ivs[j]['prediction'][k], ivs[j]['credible'][k], S2[idx[k], j], sstype) for k in range(n)]) for j in range(nout)], axis=2)
        ok = np.stack([np.isfinite(ivs[j]['credible']) for j in range(nout)], axis=2)
        o.check(not np.isfinite(np.stack([ivs[j]['prediction'] for j in range(nout)], axis=2)[~ok]).any(), 'holes', '{}: finite prediction where the response is not'.format(what))
        judge_noise(o, np.where(ok, W, np.random.default_rng(i).normal(size=W.shape)), what)
    return idx


def run(case):
    from pymcmcstat import propagation as PR
    o = Out()
    r = np.random.default_rng(case['seed'])
    i = case['i']
    if case['kind'] == 'quant':
        return quant(o, PR, r, i)
    if case['kind'] == '3d':
        return three(o, PR, r, i, case)
    np.random.seed(case['seed'] % 2**32)
    if case['kind'] == 'run':
        return end_to_end(o, PR, case, r, i)
    rows = int(r.choice([2, 3, 25, 80, 200]))
    if i % 40 == 13:
        rows = 2600
    nsamp_par = int(r.choice([1, 2, 3]))
    nfix = int(r.choice([0, 1, 2]))
    if i % 13 == 6:                                 # many parameters
        nsamp_par, nfix = 4 + i // 13 % 6, i // 13 % 4
    npar = nsamp_par + nfix
    parind = np.sort(r.choice(npar, nsamp_par, replace=False))
    theta = r.normal(size=npar)
    chain = r.normal(size=(rows, nsamp_par)) * np.exp(r.uniform(-2, 1, nsamp_par))
    nx = int(r.choice([1, 2, 7, 30, 60])) if rows < 1000 else 3
    x = np.sort(r.normal(size=nx)) + np.arange(nx) * 1e-3
    if i % 5 == 3:          # given in any order
        x = np.random.default_rng(i).permutation(x) if i % 2 else x[::-1].copy()
        o.hit('unsorted')
    nout = int(r.choice([1, 1, 2, 3, 5])) if nx > 1 else 1
    shape = ['flat', 'col', 'row', 'list'][i % 4] if nout == 1 else 'multi'
    sstype = [0, 0, 1, 2][i // 2 % 4]
    style = ['plain', 'mutates', 'buffer'][i % 3]
    mod = Model(x, nout, shape, style, sstype != 0, r)
    mod.negative = sstype == 2 and i // 8 % 2 == 1
    if i % 10 == 9 and nx > 1:
        mod.hole = [np.inf, np.nan, -np.inf][i // 10 % 3]
        sstype = 0
        mod.positive = mod.negative = False
    full = np.tile(theta, (rows, 1))
    full[:, parind] = chain
    table = [mod.value(full[a]) for a in range(rows)]
    scale = {0: (-4, 4), 1: (-4, 3), 2: (-6, .7)}[sstype]
    if sstype == 1 and i // 8 % 2:
        scale = (5.5, 7.5)       # noise as large as the square root of the responses
        o.hit('strong_root_noise')
    form = i % 6
    S2, s2chain = None, None
    if form == 1:
        v = float(10**r.uniform(*scale))
        S2, s2chain = np.full((rows, nout), v), [v, np.float64(v)][i % 2]
    elif form == 2:
        v = 10**r.uniform(*scale, size=rows)
        S2, s2chain = np.tile(v[:, None], (1, nout)), v.copy()
    elif form == 3:
        v = 10**r.uniform(*scale, size=(rows, 1))
        S2, s2chain = np.tile(v, (1, nout)), v.copy()
    elif form == 4:
        v = 10**r.uniform(*scale, size=(rows, nout))
        S2, s2chain = v, v.copy()
    elif form == 5:
        v = 10**r.uniform(*scale, size=nout)
        if nout == rows:
            v = np.tile(v, (rows, 1))
            S2, s2chain = v, v.copy()
        else:
            S2, s2chain = np.tile(v, (rows, 1)), (v.copy() if i % 4 < 2 else v.reshape(1, -1).copy())
            if nout == 1 and rows == 1:
                S2, s2chain = None, None
    nsample = int([rows, rows + 50, max(1, rows // 2), rows - 1][int(r.integers(0, 4))])
    res = dict(parind=parind if i % 5 else list(map(int, parind)), theta=theta.copy(), names=['a'] * npar)
    data = dict(x=x)
    args = [chain, res, data, s2chain]
    before = snap(args)
    kw = dict(nsample=nsample, waitbar=False)
    if sstype or i % 3 == 0:
        kw['sstype'] = sstype
    if s2chain is not None or i % 2:
        kw['s2chain'] = s2chain
    ivs = PR.calculate_intervals(chain, res, data, mod, **kw)
    what = '{} rows, {} of {} parameters, {} points, {} outputs, variance form {}, scale {}, {} samples'.format(rows, nsamp_par, npar, nx, nout, form, sstype, nsample)
    o.check(diff(before, args) is None, 'untouched', lambda: 'propagation changed {}'.format(diff(before, args)))
    # every call is a stored row completed with the fixed values
    keys = set((full[a] + 0.).tobytes() for a in range(rows))
    for q in mod.calls:
        o.check(q.shape == (npar,) and (q + 0.).tobytes() in keys, 'calls', lambda: '{}: the model was evaluated at {}, which is no stored row completed with the fixed values'.format(what, q.tolist()))
    o.check(all(d is data for d in mod.datas), 'datas', '{}: the model did not get the data'.format(what))
    multi = nout > 1
    if not o.check(isinstance(ivs, list) == multi and (not multi or len(ivs) == nout), 'kinds', '{}: result of kind {}'.format(what, type(ivs).__name__)):
        return o.done()
    o.hit('multi', multi)
    if not multi:
        ivs = [ivs]
    want = min(nsample, rows)
    if not o.check(len(ivs[0]['credible']) == want, 'counts', '{}: {} responses'.format(what, len(ivs[0]['credible']))):
        return o.done()
    idx = judge_iv(o, PR, ivs, mod, rows, table, S2, sstype, nout, what, r, i, x)
    if idx is None:
        return o.done()
    if nsample >= rows:
        o.check(idx == list(range(rows)), 'allrows', lambda: '{}: rows used are {}... instead of every row once in order'.format(what, idx[:6]))
    else:
        o.hit('drawn', len(idx))
        o.stat = dict(u=[[a, rows] for a in idx])
    o.hit('negative', mod.negative)
    o.hit('not_finite', mod.hole is not None)
    for j in range(nout if want > 1 and mod.hole is None else 0):    # no quantiles of a single sample
        check_plot(o, PR, ivs[j], x, r, i + 5 * j, what)
    o.sig = '{}|{}|{}|{}|{}|{}|{}|{}'.format(rows, npar, nx, nout, form, sstype, nsample, case['seed'])
    o.sample = dict(what=what, calls=len(mod.calls), style=style, shape=shape)
    return o.done()


def end_to_end(o, PR, case, r, i):
    """The chain, fixed values and variances of a real simulation."""
    sc = rec.gen(case['seed'], nsimu=int(r.choice([60, 150])), npar=int(r.choice([2, 3])), updatesigma=True, nsos=1)
    tr = rec.run_scen(sc)
    res = tr.res
    chain, s2 = res['chain'], res['s2chain']
    rows = len(chain)
    cfg = np.array(sc.th0, dtype=float)
    full = np.tile(cfg, (rows, 1))
    full[:, np.asarray(res['parind'], dtype=int)] = chain
    x = np.linspace(0, 1, 25)
    mod = Model(x, 1, 'flat', 'mutates', False, r)
    iv = PR.calculate_intervals(chain, res, tr.m.data, mod, s2chain=s2, nsample=rows, waitbar=False)
    o.check(len(mod.calls) >= rows, 'calls', 'not every row was propagated')
    keys = set((full[a] + 0.).tobytes() for a in range(rows))
    for q in mod.calls:
        o.check((q + 0.).tobytes() in keys, 'calls', lambda: 'propagated {} is no stored row with the configured fixed values'.format(q.tolist()))
    table = [mod.value(full[a]) for a in range(rows)]
    o.check(all(eqn(iv['credible'][k], table[k][:, 0]) for k in range(rows)), 'responses', 'responses of a simulated chain are not the model at its rows')
    S2 = np.asarray(s2, dtype=float).reshape(rows, -1)
    W = np.array([whiten(iv['prediction'][k], iv['credible'][k], S2[k, 0], 0) for k in range(rows)])[:, :, None]
    judge_noise(o, W, 'simulated chain')
    o.hit('end_to_end')
    o.sig = 'run|' + sc.ident()
    return o.done()


def quant(o, PR, r, i):
    n = int(r.choice([2, 3, 4, 10, 101, 1000])) if i % 8 else 6000
    shape = [(n,), (n, 1), (n, 5)][i % 3]
    X = r.normal(size=shape) * np.exp(r.uniform(-9, 9)) + r.normal() * 100
    if i % 4 == 0:
        X = np.round(X, 1)
    for p in (np.array([.25, .5, .75]), np.array(0.5), np.array([0., 1.]), r.uniform(size=4), np.array([.025, .975])):
        before = X.copy()
        q = PR.generate_quantiles(X, p)
        o.check(near(q, np.quantile(X, p, axis=0), 1e-9, 1e-9 * np.abs(X).max()), 'quantiles', lambda: 'quantiles {} of {} rows are {} instead of {}'.format(
            p, n, np.ravel(q)[:4], np.ravel(np.quantile(X, p, axis=0))[:4]))
        o.check(eqn(before, X), 'untouched', 'quantiles changed their input')
    o.check(near(PR.generate_quantiles(X), np.quantile(X, [.25, .5, .75], axis=0), 1e-9, 1e-9 * np.abs(X).max()), 'quantiles', 'default quantiles are not the quartiles')
    o.sig = 'q|{}|{}|{}'.format(shape, i, n)
    return o.done()


def aggregate(results, tier, clist):
    u = []
    rj = np.random.default_rng(1)
    first = last = 0.
    vf = 0.
    for res in results:
        if res['stat']:
            for a, n in res['stat']['u']:
                u.append((a + rj.random()) / n)
                first += (a == 0) - 1. / n
                last += (a == n - 1) - 1. / n
                vf += 1. / n * (1 - 1. / n)
    out = dict(viol=[], obs={})
    if len(u) > 300:
        p = stats.kstest(u, 'uniform').pvalue
        out['obs']['rows_tested'] = len(u)
        if p < 1e-10:
            out['viol'].append((clist[0], 'drawn rows are not uniform over the chain (KS p = {:.1e} over {} draws)'.format(p, len(u))))
        for nm, s in (('first', first), ('last', last)):
            if abs(s) / math.sqrt(vf) > 6.5:
                out['viol'].append((clist[0], 'the {} row is drawn {} times too often over {} draws ({:.1f} sigma)'.format(nm, s, len(u), s / math.sqrt(vf))))
    return out

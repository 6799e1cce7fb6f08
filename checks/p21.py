"""Chain plots: every artist of the drawn figure read back and compared with the chain that was passed."""
import math
import warnings

import numpy as np

from vlib import rec
from .chains import chain, layout
from .common import Out, count, eqn, near, refused

PROP = 'P21'
LEVEL = 'exploration'
RULE = 'distinct (plot, rows, parameters, names given, thinning, chain) figures whose artists were read back'
ASSUMPTIONS = ['figures are read back as matplotlib artists; rendering of artists by matplotlib is trusted',
               'a step too small for the maximum number of points may be replaced by either neighbouring whole step',
               'densities use the Gaussian kernel with the normal reference bandwidth']
REQUIRE = {'panels': 150, 'lines': 300, 'thinned': 40, 'stepped': 10, 'pairs': 100, 'bars': 1000, 'densities': 40, 'labels': 400,
           'ellipse_points': 1000, 'ellipse_refused': 20, 'metrics': 15}

KINDS = ('chain', 'pair', 'hist', 'density', 'metrics', 'chain', 'pair', 'ellipse')


def cases(tier, seed):
    return [dict(kind=KINDS[i % len(KINDS)], i=i, seed=rec.sub(seed, i, 21)) for i in range(count(tier, 320, 6000))]


def texts(ax):
    return ax.get_title(), ax.get_xlabel(), ax.get_ylabel()


def place(ax):
    s = ax.get_subplotspec()
    return s.rowspan.start, s.colspan.start


def points(ax):
    """All (x, y) points drawn by lines and scatters, in drawing order."""
    out = []
    for ln in ax.lines:
        if ln.get_linestyle() in ('None', '', ' ', 'none') and ln.get_marker() in ('None', '', ' ', 'none', None):
            continue
        out.append(np.column_stack([np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float)]))
    for c in ax.collections:
        off = np.asarray(c.get_offsets(), dtype=float)
        if off.size and hasattr(c, 'get_sizes'):
            out.append(off)
    return np.vstack(out) if out else np.zeros((0, 2))


def bars(ax):
    """Histogram as sorted (left, right, height)."""
    from matplotlib.patches import Rectangle
    B = sorted((p.get_x(), p.get_x() + p.get_width(), p.get_height()) for p in ax.patches if isinstance(p, Rectangle))
    return np.array(B, dtype=float).reshape(-1, 3)


def judge_hist(o, B, x, what, normalised=True):
    n = len(x)
    if not o.check(len(B) > 0, 'bars', what + ': no bars drawn'):
        return
    span = max(x.max() - x.min(), 1e-300)
    tol = 1e-9 * max(np.abs(x).max(), span)
    o.check(B[0, 0] <= x.min() + tol and B[-1, 1] >= x.max() - tol, 'bars', lambda: what + ': bars cover {}..{} but the samples {}..{}'.format(B[0, 0], B[-1, 1], x.min(), x.max()))
    w = B[:, 1] - B[:, 0]
    tot = float((w * B[:, 2]).sum())
    cnt = B[:, 2] * n * w if normalised else B[:, 2]
    if normalised:
        o.check(abs(tot - 1) < 1e-6, 'bars', lambda: what + ': area of the histogram is {}'.format(tot))
    elif abs(B[:, 2].sum() - n) > 1e-6 * n:         # a normalised one is as good
        cnt = B[:, 2] * n * w
    for (a, b, _), c in zip(B, cnt):
        inside, edge = int(((x > a + tol) & (x < b - tol)).sum()), int(((np.abs(x - a) <= tol) | (np.abs(x - b) <= tol)).sum())
        o.check(inside - 1e-6 * n <= c <= inside + edge + 1e-6 * n, 'bars',
                lambda: what + ': bar {}..{} stands for {} samples, {} are there ({} more at its edges)'.format(a, b, c, inside, edge))


def expected_steps(n, skip, maxpoints):
    if n <= maxpoints:
        return [skip]
    return sorted({max(1, n // maxpoints), -(-n // maxpoints)})


def judge_points(o, P, x, y, steps, what):
    """Points drawn are (x[k*s], y[k*s])."""
    o.hit('lines')
    for s in steps:
        if P.shape[0] == len(x[::s]) and eqn(P[:, 0], x[::s]) and eqn(P[:, 1], y[::s]):
            return
    j = next((k for k in range(min(len(P), len(x[::steps[0]]))) if P[k, 0] != x[::steps[0]][k] or P[k, 1] != y[::steps[0]][k]), None)
    o.bad('{}: {} points drawn, expected {} of {} samples (every {}); first difference at point {}'.format(what, len(P), len(x[::steps[0]]), len(x), steps, j))


def run(case):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from pymcmcstat.plotting import MCMCPlotting as MP
    o = Out()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            if case['kind'] == 'ellipse':
                ellipse(o, case)
            else:
                figure(o, case, plt, MP)
        finally:
            plt.close('all')
    return o.done()


def figure(o, case, plt, MP):
    r = np.random.default_rng(case['seed'])
    i, kind = case['i'] // len(KINDS), case['kind']
    big = kind in ('chain', 'pair', 'hist', 'metrics')
    n = int(r.choice([3, 10, 199, 200, 201, 499, 500, 501, 750, 999, 1000, 1001, 1499, 2600] if big else [5, 40, 200, 201, 350]))
    if i % 6 == 5:         # longer than any window a plot could be tempted to use
        n = int(r.choice([6000, 12000])) if big else int(r.choice([1300, 2600]))
    npar = int(r.choice([1, 2, 3, 4, 5, 7] if kind != 'pair' else [2, 3, 4, 5] if i % 8 else [6, 7, 8]))
    C = layout(r, chain(r, n, npar, repeats=[None, .6][i % 2], scaled=True))
    names, given = ['$p_{%d}$' % j for j in range(npar)], None
    if i % 3:
        k = [0, npar, int(r.integers(0, npar + 1))][i % 3]
        given = ['q%d' % (npar - j) for j in range(k)]
        names = given + names[k:]
    skip, maxp, kw = 1, 500, {}
    if kind in ('chain', 'pair'):
        if r.random() < .5:
            skip = kw['skip'] = int(r.choice([1, 2, 3, 7, 50]))
        if r.random() < .4:
            maxp = kw['maxpoints'] = int(r.choice([1, 10, 37, 400, 5000]))
    if r.random() < .3:
        kw['figsizeinches'] = [6, 5]
    X = np.array(C, dtype=float)
    api = MP if i % 2 else MP.Plot()
    fn = {'chain': 'plot_chain_panel', 'pair': 'plot_pairwise_correlation_panel', 'hist': 'plot_histogram_panel',
          'density': 'plot_density_panel', 'metrics': 'plot_chain_metrics'}[kind]
    steps = expected_steps(n, skip, maxp)
    if n > maxp:
        o.hit('thinned')
    elif skip > 1:
        o.hit('stepped')
    what = '{}({} rows, {} parameters, {})'.format(fn, n, npar, kw)
    o.sig = '{}|{}|{}|{}|{}|{}|{}'.format(kind, n, npar, given, skip, maxp, case['seed'])
    o.sample = dict(plot=fn, rows=n, parameters=npar, names=given, skip=skip, maxpoints=maxp)
    if kind == 'metrics':
        nm = [None, 'alpha', 'b', '$\\theta_1$'][i % 4]
        f = getattr(api, fn)(C[:, 0], nm, **kw)
        nm = nm or '$p_{0}$'
        ax = sorted(f.axes, key=place)
        o.check(len(ax) == 2, 'panels', what + ': {} panels'.format(len(ax)))
        judge_points(o, points(ax[0]), np.arange(n, dtype=float), X[:, 0], [1], what)
        judge_hist(o, bars(ax[1]), X[:, 0], what, normalised=False)
        o.check(nm in ax[0].get_ylabel() and nm in ax[1].get_xlabel(), 'labels', what + ': labels {} and {} for {}'.format(ax[0].get_ylabel(), ax[1].get_xlabel(), nm))
        o.hit('metrics')
        return
    if kind == 'density':
        kw['hist_on'] = bool(i % 2)
        kw['return_kde'] = bool(i % 4 == 1)
    f = getattr(api, fn)(C, None if given is None else list(given), **kw)
    kdes = None
    if kw.get('return_kde'):
        f, kdes = f
        o.check(len(kdes) == npar, 'panels', what + ': {} densities returned'.format(len(kdes)))
    axes = {place(a): a for a in f.axes}
    if kind == 'pair':
        o.check(len(axes) == len(f.axes) == npar * (npar - 1) // 2, 'panels', what + ': {} panels'.format(len(f.axes)))
        for b in range(1, npar):
            for a in range(b):
                ax = axes.get((b - 1, a))
                if not o.check(ax is not None, 'pairs', what + ': no panel for parameters {} and {}'.format(a, b)):
                    continue
                judge_points(o, points(ax), X[:, a], X[:, b], steps, what + ' panel {},{}'.format(a, b))
                t, xl, yl = texts(ax)
                if a == 0:
                    o.check(yl == names[b], 'labels', what + ': row {} is labelled {} not {}'.format(b, yl, names[b]))
                if a == b - 1:
                    o.check(names[a] in (t, xl), 'labels', what + ': column {} is labelled {} not {}'.format(a, (t, xl), names[a]))
                o.check(not yl or yl == names[b], 'labels', what + ': panel {},{} has label {}'.format(a, b, yl))
                o.check((not t or t == names[a]) and (not xl or xl == names[a]), 'labels', what + ': panel {},{} has labels {} {}'.format(a, b, t, xl))
        return
    order = [axes[k] for k in sorted(axes)]
    if not o.check(len(f.axes) == len(order) == npar, 'panels', what + ': {} panels for {} parameters'.format(len(f.axes), npar)):
        return
    for j, ax in enumerate(order):
        t, xl, yl = texts(ax)
        w = what + ' panel {}'.format(j)
        if kind == 'chain':
            judge_points(o, points(ax), np.arange(n, dtype=float), X[:, j], steps, w)
            o.check(yl == names[j], 'labels', w + ' is labelled {} not {}'.format(yl, names[j]))
        else:
            o.check(xl == names[j], 'labels', w + ' is labelled {} not {}'.format(xl, names[j]))
        if kind == 'hist' or kw.get('hist_on'):
            judge_hist(o, bars(ax), X[:, j], w)
        if kind == 'density':
            o.check(names[j] in yl, 'labels', w + ' has density label {}'.format(yl))
            P = points(ax)
            x = X[:, j]
            s = x.std()
            if not s > 1e-12 * np.abs(x).max():
                continue
            bw = 1.06 * s * n**(-.2)
            ref = np.exp(-.5 * ((P[:, :1] - x[None, :]) / bw)**2).sum(1) / (n * bw * math.sqrt(2 * math.pi))
            o.check(len(P) > 20 and near(P[:, 1], ref, 1e-6, 1e-9 * ref.max()), 'densities', lambda: w + ': density drawn differs from the kernel estimate of the samples')
            lo, hi = (x.min(), x.max()) if n > 200 else (x.mean() - 4 * x.std(ddof=1) * .999, x.mean() + 4 * x.std(ddof=1) * .999)
            o.check(P[:, 0].min() <= lo and P[:, 0].max() >= hi and np.all(np.diff(P[:, 0]) > 0), 'densities', lambda: w + ': density drawn on {}..{} only'.format(P[0, 0], P[-1, 0]))
            if kdes is not None:
                o.check(near(kdes[j].pdf(P[:, :1]), ref, 1e-6, 1e-9 * ref.max()), 'densities', lambda: w + ': density returned is not the one of the samples')


def ellipse(o, case):
    from pymcmcstat.plotting.utilities import generate_ellipse
    r = np.random.default_rng(case['seed'])
    o.sig = 'ellipse|{}'.format(case['seed'])
    for _ in range(6):
        sd = np.exp(r.uniform(-4, 4, 2)) * 10**r.uniform(-6, 6)
        rho = float(r.choice([0, .5, -.5, .99, -.999, .99999, r.uniform(-1, 1)]))
        C = np.array([[sd[0]**2, rho * sd[0] * sd[1]], [rho * sd[0] * sd[1], sd[1]**2]])
        mu = r.normal(size=2) * np.exp(r.uniform(-2, 3)) * (sd if r.random() < .7 else 1.)
        kw = {} if r.random() < .5 else dict(ndp=int(r.choice([5, 13, 100, 401])))
        x, y = generate_ellipse(mu, C, **kw)
        m = kw.get('ndp', 100)
        o.check(len(x) == len(y) == m, 'ellipse_points', 'ellipse of {} points has {}'.format(m, len(x)))
        z = np.linalg.solve(np.linalg.cholesky(C), np.vstack([x - mu[0], y - mu[1]]))
        rad = (z**2).sum(0)
        scale = 1e-9 * (1 + (np.abs(mu) / sd).max() * 1e-3) / (1 - rho**2)
        o.hit('ellipse_points', m - 1)
        o.check(np.all(np.abs(rad - 1) < max(scale, 1e-8)), 'ellipse_points', lambda: 'points at squared distance {}..{} of the mean, contour is 1: mean {} covariance {}'.format(rad.min(), rad.max(), mu, C.tolist()))
        ang = np.sort(np.mod(np.arctan2(z[1], z[0]), 2 * np.pi))
        gap = max(np.diff(np.append(ang, ang[0] + 2 * np.pi)))
        o.check(gap < 2 * np.pi / (m - 1) * 1.01 + 1e-6, 'ellipse_points', lambda: 'contour of {} points leaves a gap of {} rad'.format(m, gap))
        o.check(math.hypot(x[0] - x[-1], y[0] - y[-1]) < 1e-6 * (sd.max() + np.abs(mu).max()), 'ellipse_points', 'contour is not closed')
    bad = [np.eye(3), np.array([[1., .5], [-.5, 1.]]), np.array([[1., 2.], [2., 1.]]), np.array([[-1., 0], [0, 1.]])]
    for B in bad:
        o.check(refused(lambda: generate_ellipse(np.zeros(2), B * float(np.exp(r.uniform(-2, 2))))), 'ellipse_refused', 'contour of {} not refused'.format(B.tolist()))
    o.sample = dict(plot='ellipse', covariance=C.tolist(), mean=mu.tolist())

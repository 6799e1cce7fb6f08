"""Prediction intervals: recorded model calls per batch against the reported quantiles; noise judged through order statistics."""
import math

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from scipy import stats

from vlib import rec
from .common import Out, count, eqn, near, refused
from .deep import diff, snap
from .p16 import band_by_label

PROP = 'P17'
LEVEL = 'exploration'
RULE = 'distinct (batches, columns, rows, burn-in, fixed parameters, variance layout, noise scale, samples) interval generations'
ASSUMPTIONS = ['responses of different rows are far apart compared with the noise in the executions whose noise is judged, so that the '
               'reported quantiles of noisy responses identify the rows they interpolate',
               'one model evaluation per batch and sample', 'noise is tested on residuals in units of their own row (p < 1e-10, none beyond 9)']
REQUIRE = {'calls': 8000, 'quantiles': 400, 'noise': 15000, 'bands': 300, 'medians': 100, 'batches2': 50, 'percolumn': 15, 'perbatch': 10, 'burnin': 60,
           'drawn': 600, 'end_to_end': 8, 'laws': 12, 'datalines': 30}
L9 = [.005, .025, .05, .25, .5, .75, .95, .975, .995]
L3 = [.025, .5, .975]


def cases(tier, seed):
    out = [dict(kind='syn', i=i, seed=rec.sub(seed, i, 17)) for i in range(count(tier, 240, 3600))]
    out += [dict(kind='run', i=i, seed=rec.sub(seed, i, 1701)) for i in range(count(tier, 12, 160))]
    out += [dict(kind='draw', i=i, seed=rec.sub(seed, i, 1702)) for i in range(count(tier, 16, 160))]
    out += [dict(kind='law', i=i, seed=rec.sub(seed, i, 1703)) for i in range(count(tier, 18, 240))]
    return out


class Model:
    """Response of batch b: base of the row (far apart between rows) plus a small smooth part."""
    def __init__(self, nb, ncols, nxs, step, positive, style, shape1d):
        self.nb, self.ncols, self.nxs, self.step, self.positive, self.style, self.shape1d = nb, ncols, nxs, step, positive, style, shape1d
        self.calls = [[] for _ in range(nb)]
        self.wrong = []
        self.buf = {}

    def value(self, b, q, x):
        x = np.asarray(x, dtype=float).reshape(-1)
        lead = q.sum() * self.step
        cols = []
        for c in range(self.ncols[b]):
            v = lead + .3 * self.step * np.sin(x * (c + 1) + b)
            cols.append(np.exp(v) if self.positive else (b + 1) * v + c)
        return np.column_stack(cols)

    def make(self, b, xs):
        return lambda data, q: self.call(data, q, b, xs)

    def call(self, data, q, only, xs):
        u = data.user_defined_object[0]
        b = int(u['batch'] if isinstance(u, dict) else np.asarray(u).reshape(-1)[0])
        if only is not None and only != b:
            self.wrong.append('model function of batch {} called with the data of batch {}'.format(only, b))
        if not eqn(np.asarray(data.xdata[0], dtype=float).reshape(-1), xs[b]) or len(data.xdata) != 1:
            self.wrong.append('inputs of batch {} are not that batch\'s inputs'.format(b))
        self.calls[b].append(np.array(q, dtype=float, copy=True))
        Y = self.value(b, np.array(q, dtype=float), data.xdata[0])
        if self.shape1d and Y.shape[1] == 1:
            Y = Y[:, 0]
        if self.style == 'mutates':
            q[:] = -999.
        if self.style == 'buffer':
            if b not in self.buf:
                self.buf[b] = np.empty_like(Y)
            self.buf[b][...] = Y
            return self.buf[b]
        return Y


def tr(v, sstype):
    return v if sstype == 0 else (np.sqrt(v) if sstype == 1 else np.log(v))


def residuals(Q, lims, Y, s2, sstype):
    """Q: (len(lims), nx) reported quantiles of noisy responses; Y: (n, nx) responses of the rows used; s2: (n,).
    Residuals in standard deviations; only where the quantile is a known combination of known rows."""
    out = []
    n = len(Y)
    for k, p in enumerate(lims):
        h = (n - 1) * p
        lo = int(math.floor(h + 1e-9))
        f = h - lo
        if abs(f) < 1e-9:
            f = 0.
        if sstype and f:
            continue
        a = np.argsort(Y, axis=0, kind='stable')
        i0 = a[lo]
        i1 = a[min(lo + 1, n - 1)]
        cols = np.arange(Y.shape[1])
        if f:
            e = Q[k] - (1 - f) * Y[i0, cols] - f * Y[i1, cols]
            v = (1 - f)**2 * s2[i0] + f**2 * s2[i1]
        else:
            e = tr(Q[k], sstype) - tr(Y[i0, cols], sstype)
            v = s2[i0]
        out.append(e / np.sqrt(v))
    return np.array(out)


def judge_noise(o, W, what, key=''):
    W = W[np.isfinite(W)] if np.all(np.isfinite(W)) else W
    if W.size == 0:
        return
    o.hit('noise', W.size)
    if not np.all(np.isfinite(W)) or np.abs(W).max() > 9:
        return o.bad('{}{}: noise of {:.3g} standard deviations of its own row and batch or column'.format(key, what, np.abs(W).max()))
    v = W.reshape(-1)
    p = stats.kstest(v, 'norm').pvalue
    if v.size >= 20 and p < 1e-10:
        o.bad('{}{}: the noise does not have the error variance of its row and batch or column (p = {:.1e}, standard deviation {:.3f})'.format(key, what, p, v.std()))


def noise_ok(W):
    return W.size == 0 or (np.all(np.isfinite(W)) and np.abs(W).max() <= 9 and (W.size < 20 or stats.kstest(W.reshape(-1), 'norm').pvalue >= 1e-10))


def run(case):
    from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
    from pymcmcstat.settings.DataStructure import DataStructure
    o = Out()
    r = np.random.default_rng(case['seed'])
    np.random.seed(case['seed'] % 2**32)
    i = case['i']
    if case['kind'] == 'run':
        return end_to_end(o, case, r, i)
    if case['kind'] == 'law':
        return law(o, case, r, i)
    if case['kind'] == 'draw':
        return draws(o, case, r, i)
    nb = int(r.choice([1, 2, 3, 4]))
    ncols = [int(r.choice([1, 1, 2, 3] if i % 7 else [4, 5, 6])) for _ in range(nb)]
    s2form = ['one', 'columns', 'batches', 'none'][i % 4]
    if s2form == 'columns' and sum(ncols) == 1:
        ncols[0] = 2
    if s2form == 'batches':
        if nb == 1:
            nb, ncols = 2, [2, 1]
        if sum(ncols) == nb:
            ncols[int(r.integers(0, nb))] = 2
    nxs = [int(r.choice([2, 9, 60, 200] if i % 7 else [9, 60])) for _ in range(nb)]
    n = int(r.choice([2, 3, 41, 81, 20]))           # rows after the burn-in
    many = i % 40 == 12
    if many:
        n, nxs = 2600, [2] * nb
    burn = int(r.choice([0, 0, 1, 7]))
    o.hit('burnin', burn > 0)
    rows = n + burn
    ns = int(r.choice([1, 2]))
    nf = int(r.choice([0, 1, 2]))
    if i % 11 == 7:                                 # many parameters
        ns, nf = 3 + i // 11 % 6, i // 11 % 4
    npar = ns + nf
    parind = np.sort(r.choice(npar, ns, replace=False))
    sstype = [0, 0, 0, 1, 2][i // 4 % 5]
    given = None
    if i % 12 == 5:
        given = [1, 2, 0][i // 12 % 3]               # passed to the generation itself
        sstype = given
    if many:
        sstype, given = 0, None
    # one leading value per row, all distinct by at least one
    lead = r.permutation(rows) + r.uniform(-.1, .1, rows)
    chain = np.zeros((rows, ns))
    chain[:, 0] = lead
    if ns > 1:
        chain[:, 1:] = r.uniform(-.1, .1, (rows, ns - 1)) / (ns - 1)
    theta = r.uniform(-.2, .2, npar)
    chain_sd = 10**r.uniform(-2.5, 0, size=(rows, {'one': 1, 'columns': sum(ncols), 'batches': nb, 'none': 1}[s2form]))
    # responses lie at least .2*step apart; noise is below that by a factor of 20 or more
    step = 1000. if sstype == 0 else {1: 1., 2: 1.}[sstype]
    if sstype == 0:
        sd = chain_sd
    elif sstype == 1:
        sd = chain_sd * 2e-3        # exp(lead/…) responses, square roots differ by more than 10 per cent
    else:
        sd = chain_sd * 4e-3
    positive = sstype != 0
    if positive:
        step = .25 if n > 25 else 1.
        sd = sd * step
        theta = np.zeros(npar)
        theta[[j for j in range(npar) if j not in parind]] = .5
    S2 = sd**2
    style = ['plain', 'mutates', 'buffer'][i % 3]
    xs = [np.sort(r.uniform(0, 3, size=k)) for k in nxs]
    if i % 5 == 3:           # inputs in any order
        xs = [np.random.default_rng(i).permutation(v) if i % 2 else v[::-1].copy() for v in xs]
        o.hit('unsorted')
    mod = Model(nb, ncols, nxs, step, positive, style, i % 2 == 0)
    data = DataStructure()
    for b in range(nb):
        data.add_data_set(x=xs[b] if i % 2 else xs[b].reshape(-1, 1), y=r.normal(size=(nxs[b], ncols[b])) if ncols[b] > 1 else r.normal(size=nxs[b]),
                          user_defined_object=[dict(batch=b), np.array([b, 7., 9.]), dict(batch=b), [b, 2], b][i % 5])
    mf = mod.make(None, xs) if i % 3 else [mod.make(b, xs) for b in range(nb)]
    res = dict(chain=chain.copy(), s2chain=None if s2form == 'none' else S2.copy(), parind=parind.copy(), local=np.zeros(npar), model_settings=dict(nbatch=nb), theta=theta.copy(),
               names=['p'] * npar)
    if sstype and given is None:
        res['sstype'] = sstype
    before = snap([res, data.xdata, data.ydata])
    P = PredictionIntervals()
    kw = dict(burnin=burn) if burn or i % 2 else {}
    nv = [v for v in range(2, 9) if v not in (nb, sum(ncols))]
    if i % 6 == 0:
        wrong = dict(res, s2chain=np.ones((rows, nv[int(r.integers(0, len(nv)))])))
        o.check(refused(lambda: (PredictionIntervals().setup_prediction_interval_calculation(wrong, data, mf, **kw))), 'refusals',
                'error variances with {} columns were accepted for batches with {} columns'.format(wrong['s2chain'].shape[1], ncols))
    P.setup_prediction_interval_calculation(res, data, mf, **kw)
    for b in range(nb):
        mod.calls[b] = []
    calc = not (i % 9 == 4)
    nsample = [None, n, n + 30, 2, 3, max(2, n // 2)][int(r.integers(0, 6))]
    kw = dict(nsample=nsample, calc_pred_int=calc if i % 2 else ['off', 'on'][int(calc)])
    if given is not None:
        kw['sstype'] = given
    P.generate_prediction_intervals(**kw)
    what = '{} batches, columns {}, {} rows after {} removed, {} of {} parameters, variances {}, scale {}, {} samples'.format(
        nb, ncols, n, burn, ns, npar, s2form, sstype, nsample)
    d = diff(before, [res, data.xdata, data.ydata])
    o.check(d is None, 'untouched', lambda: '{}: interval generation changed {}'.format(what, d))
    o.check(not mod.wrong, 'batchdata', lambda: '{}: {}'.format(what, mod.wrong[0]))
    full = np.tile(theta, (rows, 1))
    full[:, parind] = chain
    look = {(full[a] + 0.).tobytes(): a for a in range(burn, rows)}
    want = n if nsample is None else min(nsample, n)
    CI, PI = P.intervals['credible_intervals'], P.intervals['prediction_intervals']
    has = calc and s2form != 'none'
    o.check((PI is not None) == has, 'presence', '{}: prediction intervals present: {}, expected: {}'.format(what, PI is not None, has))
    if not o.check(len(CI) == nb and all(len(CI[b]) == ncols[b] for b in range(nb)), 'layout', '{}: intervals of the wrong layout'.format(what)):
        return o.done()
    o.hit('batches2', nb > 1)
    o.stat = dict(u=[])
    col0 = 0
    resp = []
    for b in range(nb):
        used = []
        for q in mod.calls[b]:
            a = look.get((q + 0.).tobytes())
            o.check(a is not None, 'calls', lambda: '{}: batch {} evaluated at {}, which is no stored row after the burn-in with the fixed values'.format(what, b, q.tolist()))
            used.append(a)
        if None in used or not o.check(len(used) == want, 'counts', '{}: {} evaluations of batch {}'.format(what, len(used), b)):
            return o.done()
        if want == n:
            o.check(used == list(range(burn, rows)) or sorted(used) == list(range(burn, rows)), 'allrows', '{}: not every row used once'.format(what))
        elif nsample < n:
            o.hit('drawn', len(used))
            if b == 0:               # the batches may share the rows drawn
                o.stat['u'] += [[a - burn, n] for a in used]
        Y = np.stack([mod.value(b, full[a], xs[b]) for a in used])
        resp.append(Y)
        lims = L3 if has else L9
        for c in range(ncols[b]):
            G = np.asarray(CI[b][c])
            ref = np.quantile(Y[:, :, c], lims, axis=0)
            tol = 1e-9 * np.abs(Y[:, :, c]).max()
            if not o.check(G.shape == ref.shape, 'shapes', '{}: intervals of shape {}'.format(what, G.shape)):
                return o.done()
            for k, p in enumerate(lims):
                ok = near(G[k], ref[k], 1e-9, tol)
                key = ''
                if not ok and not has and p == .95 and near(G[k], np.quantile(Y[:, :, c], .9, axis=0), 1e-9, tol):
                    key = '[ci90-upper] '
                o.check(ok, 'quantiles', lambda: '{}{}: batch {} column {} reports {} as the {} quantile of the responses, {} expected'.format(
                    key, what, b, c, G[k][:3], p, ref[k][:3]))
            if has:
                Q = np.asarray(PI[b][c])
                if not o.check(Q.shape == ref.shape, 'shapes', '{}: prediction intervals of shape {}'.format(what, Q.shape)):
                    return o.done()
                s2 = S2[:, 0] if s2form == 'one' else S2[:, col0 + c] if s2form == 'columns' else S2[:, b]
                if len(set(used)) == len(used):
                    W = residuals(Q, L3, Y[:, :, c], s2[used], sstype)
                    if given and not noise_ok(W) and noise_ok(residuals(Q, L3, Y[:, :, c], s2[used], 0)):
                        o.bad('[sstype-ignored] {}: the noise scale requested for the generation is ignored'.format(what))
                    else:
                        judge_noise(o, W, '{}: batch {} column {}'.format(what, b, c))
        col0 += ncols[b]
    if has:
        o.hit('percolumn', s2form == 'columns')
        o.hit('perbatch', s2form == 'batches')
    # drawing
    plt.close('all')
    show_pi = i % 5 != 2
    add = i % 3 == 0
    fh, ah = P.plot_prediction_intervals(plot_pred_int=show_pi if i % 2 else ['off', 'on'][int(show_pi)], adddata=add, addlegend=bool(i % 4))
    o.check(len(ah) == sum(ncols), 'figures', '{}: {} panels for {} outputs'.format(what, len(ah), sum(ncols)))
    k = 0
    for b in range(nb):
        for c in range(ncols[b]):
            panel(o, ah[k], xs[b], resp[b][:, :, c], PI[b][c] if has and show_pi else None, has, np.asarray(data.ydata[b]).reshape(nxs[b], -1)[:, c] if add else None,
                  '{}: batch {} column {}'.format(what, b, c))
            k += 1
    plt.close('all')
    o.sig = '{}|{}|{}|{}|{}|{}|{}'.format(nb, ncols, n, s2form, sstype, nsample, case['seed'])
    o.sample = dict(what=what, calls=[len(c) for c in mod.calls])
    return o.done()


def panel(o, ax, x, Y, PI, has, yd, what):
    bands = band_by_label(ax)
    want = ['95% CI'] if has else ['99% CI', '95% CI', '90% CI', '50% CI']
    if PI is not None:
        want.append('95% PI')
    o.check(sorted(bands) == sorted(want), 'labels', lambda: '{}: bands {} drawn'.format(what, sorted(bands)))
    tol = 1e-9 * np.abs(Y).max()
    for lab in bands:
        p = float(lab.split('%')[0]) / 100
        v = bands[lab][0]
        if lab.endswith('PI'):
            lo, hi = PI[0], PI[-1]
            alt = None
        else:
            lo, hi = np.quantile(Y, [.5 - p / 2, .5 + p / 2], axis=0)
            alt = np.quantile(Y, .9, axis=0) if lab == '90% CI' else None
        ylo = np.array([v[v[:, 0] == xv, 1].min() if np.any(v[:, 0] == xv) else np.nan for xv in x])
        yhi = np.array([v[v[:, 0] == xv, 1].max() if np.any(v[:, 0] == xv) else np.nan for xv in x])
        ok = near(ylo, lo, 1e-9, tol) and near(yhi, hi, 1e-9, tol)
        key = '[ci90-upper] ' if not ok and alt is not None and near(ylo, lo, 1e-9, tol) and near(yhi, alt, 1e-9, tol) else ''
        o.check(ok, 'bands', lambda: '{}{}: the band labelled {} spans {}..{} instead of {}..{}'.format(key, what, lab, ylo[:2], yhi[:2], np.asarray(lo)[:2], np.asarray(hi)[:2]))
    lines = {str(li.get_label()): li for li in ax.lines}
    s = np.argsort(x)

    def xy(name):
        px, py = [np.asarray(v, dtype=float).reshape(-1) for v in (lines[name].get_xdata(), lines[name].get_ydata())]
        k = np.argsort(px)
        return px[k], py[k]
    o.check('model' in lines and near(xy('model')[1], np.quantile(Y, .5, axis=0)[s], 1e-9, tol) and eqn(xy('model')[0], x[s]), 'medians',
            '{}: the model line is not the median'.format(what))
    if yd is not None:
        o.check('data' in lines and eqn(xy('data')[1], yd[s]) and eqn(xy('data')[0], x[s]), 'datalines', '{}: the data line is not this batch and column'.format(what))
    else:
        o.check('data' not in lines, 'nodata', '{}: data drawn though not requested'.format(what))


def end_to_end(o, case, r, i):
    """Through the simulation object, with the chain, fixed values, batches and variances of a real run."""
    sc = rec.gen(case['seed'], nsimu=int(r.choice([61, 140])), npar=int(r.choice([2, 3])), style='model', nbatch=1 + i % 2, updatesigma=True)
    t = rec.run_scen(sc)
    res, m = t.res, t.m
    nb = len(m.data.xdata)
    chain, s2 = np.asarray(res['chain']), np.asarray(res['s2chain'], dtype=float)
    burn = int(r.choice([0, 10]))
    rows = len(chain)
    full = np.tile(np.array(sc.th0, dtype=float), (rows, 1))
    full[:, np.asarray(res['parind'], dtype=int)] = chain
    keys = set((full[a] + 0.).tobytes() for a in range(burn, rows))
    calls = []

    def model(d, q):
        calls.append(np.array(q, dtype=float, copy=True))
        return q.sum() + np.cos(q).sum() * np.linspace(0, 1, len(d.ydata[0]))
    m.PI.setup_prediction_interval_calculation(results=res, data=m.data, modelfunction=model, burnin=burn)
    del calls[:]
    m.PI.generate_prediction_intervals(nsample=rows - burn, calc_pred_int=True)
    o.check(len(calls) == nb * (rows - burn), 'counts', '{} evaluations'.format(len(calls)))
    for q in calls:
        o.check((q + 0.).tobytes() in keys, 'calls', lambda: 'interval generation evaluated {}, no stored row with the configured fixed values'.format(q.tolist()))
    for b in range(nb):
        x = np.linspace(0, 1, len(m.data.ydata[b]))
        Y = np.array([full[a].sum() + np.cos(full[a]).sum() * x for a in range(burn, rows)])
        o.check(near(m.PI.intervals['credible_intervals'][b][0], np.quantile(Y, L3, axis=0), 1e-9, 1e-9 * np.abs(Y).max()), 'quantiles', 'quantiles of a simulated chain differ')
    o.hit('end_to_end')
    o.sig = 'run|' + sc.ident()
    return o.done()


def draws(o, case, r, i):
    """Fewer samples than rows, again and again: which rows are drawn."""
    from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
    from pymcmcstat.settings.DataStructure import DataStructure
    n, burn = int([3, 4, 6, 12][i % 4]), int([0, 1, 5][i // 4 % 3])
    rows = n + burn
    chain = (np.arange(rows) + 1.).reshape(-1, 1)
    calls = []

    def model(d, q):
        calls.append(float(np.asarray(q).reshape(-1)[0]))
        return calls[-1] + np.zeros(2)
    data = DataStructure()
    data.add_data_set(np.zeros(2), np.zeros(2))
    s2 = .1 * np.ones((rows, 1))
    res = dict(chain=chain.copy(), s2chain=s2 if i % 2 else None, parind=np.arange(1), local=np.zeros(1), model_settings=dict(nbatch=1), theta=chain[-1].copy(), names=['p'])
    P = PredictionIntervals()
    P.setup_prediction_interval_calculation(res, data, model, burnin=burn)
    o.stat = dict(u=[])
    for k in range(60):
        del calls[:]
        P.generate_prediction_intervals(nsample=n - 1, calc_pred_int=bool(i % 2))
        ok = len(calls) == n - 1 and all(burn + 1 <= c <= rows and c == int(c) for c in calls)
        if not o.check(ok, 'drawn', lambda: 'with {} of {} rows removed and {} samples the model was evaluated at the rows {}'.format(burn, rows, n - 1, calls)):
            break
        o.stat['u'] += [[int(c) - 1 - burn, n] for c in calls]
    o.sig = 'draw|{}'.format(case['seed'])
    return o.done()


def law(o, case, r, i):
    """One and the same row many times, noise as large as the responses: the interval limits are order statistics of its law."""
    from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
    from pymcmcstat.settings.DataStructure import DataStructure
    np.random.seed(case['seed'] % 2**32)
    n, nx, ncol = 401, 40, int([1, 2, 3][i // 3 % 3])
    sstype = i % 3
    Y = np.exp(r.uniform(-3, 3, size=(nx, ncol)))
    if sstype == 0:
        Y = Y * r.choice([-1, 1], size=Y.shape)
    v = 10**r.uniform(-1, 1, size=ncol)
    one = i // 9 % 2
    s2 = np.tile(v[:1] if one else v, (n, 1))
    data = DataStructure()
    data.add_data_set(np.zeros(nx), np.zeros((nx, ncol)))
    res = dict(chain=np.ones((n, 2)), s2chain=s2, parind=np.arange(2), local=np.zeros(2), model_settings=dict(nbatch=1), theta=np.ones(2), names=['p', 'q'])
    if sstype or i % 2:
        res['sstype'] = sstype
    P = PredictionIntervals()
    P.setup_prediction_interval_calculation(res, data, lambda d, q: Y.copy())
    P.generate_prediction_intervals(calc_pred_int=True)
    U = []
    for c in range(ncol):
        Q = np.asarray(P.intervals['prediction_intervals'][0][c])
        sd, y = math.sqrt(s2[0, 0 if one else c]), Y[:, c]
        if not o.check(Q.shape == (3, nx), 'shapes', 'prediction intervals of shape {}'.format(Q.shape)):
            return o.done()
        for k, p in enumerate(L3):
            q = Q[k]
            if sstype == 0:
                F = stats.norm.cdf((q - y) / sd)
            elif sstype == 1:
                t = np.sqrt(np.maximum(q, 0))
                F = stats.norm.cdf((t - np.sqrt(y)) / sd) - stats.norm.cdf((-t - np.sqrt(y)) / sd)
                F[q < 0] = 0.
            else:
                F = stats.norm.cdf(np.log(q / y) / sd)
            h = int(round((n - 1) * p))
            U.append(stats.beta.cdf(F, h + 1, n - h))
    U = np.concatenate(U)
    p = stats.kstest(U, 'uniform').pvalue
    o.check(p > 1e-10 and U.min() > 1e-12 and U.max() < 1 - 1e-12, 'laws', 'prediction limits on scale {} with noise as large as the responses do not follow the error law (KS p = {:.1e}, transforms from {:.1e} to {:.1e})'.format(
        sstype, p, U.min(), U.max()))
    o.sig = 'law|{}|{}|{}'.format(sstype, ncol, case['seed'])
    return o.done()


def aggregate(results, tier, clist):
    rj = np.random.default_rng(1)
    u, first, last, v = [], 0., 0., 0.
    for res in results:
        for a, n in (res['stat'] or {}).get('u', []):
            u.append((a + rj.random()) / n)
            first += (a == 0) - 1. / n
            last += (a == n - 1) - 1. / n
            v += 1. / n * (1 - 1. / n)
    out = dict(viol=[], obs={})
    if len(u) > 300:
        p = stats.kstest(u, 'uniform').pvalue
        if p < 1e-20:
            out['viol'].append((clist[0], 'drawn rows are not uniform over the chain (p = {:.1e})'.format(p)))
        for nm, s in (('first', first), ('last', last)):
            if abs(s) / math.sqrt(v) > 6.5:
                out['viol'].append((clist[0], 'the {} row is drawn {:.0f} times too often over {} draws'.format(nm, s, len(u))))
    return out

"""Stationarity: final states of many short runs started at exact posterior draws, compared with fresh exact draws."""
import math
import multiprocessing as mp
import os

import numpy as np
from scipy import stats

from vlib import rec
from .common import Out, count, near

PROP = 'P20'
LEVEL = 'exploration'
RULE = 'distinct (posterior, method, proposal, stages, steps) configurations whose final states were compared with exact draws'
ASSUMPTIONS = ['final states of independent runs from exact starts are compared with independent exact draws by two-sample '
               'Kolmogorov-Smirnov tests (p < 1e-10) of every coordinate, random projections, the misfit and the variances; a configuration with '
               'p < 1e-3 is judged again on four times as many fresh final states',
               'adaptive runs have to reach the mean within 0.4 standard deviations and the standard deviation within a factor 1.5']
REQUIRE = {'final_states': 8000, 'moved': 4000, 'tests': 60, 'adaptive': 10, 'posteriors': 8}

LIMIT = 1e-10
TARGETS = ('gauss', 'bounded', 'prior', 'components', 'variance', 'variance2', 'custom', 'banana', 'halfline', 'both', 'box', 'undefined')


# ------------------------------------------------------------------------------------- posteriors
class Post:
    """A posterior with an exact sampler, and the settings that describe it to the library."""
    def __init__(self, kind, seed):
        r = np.random.default_rng(seed)
        self.kind = kind
        self.updates = kind in ('variance', 'variance2', 'both')
        d = self.d = 1 if kind in ('custom', 'halfline') else (2 if kind in ('banana',) else int(r.choice([1, 2, 3])))
        if kind == 'both':
            d = self.d = 2
        self.lo, self.hi = -np.inf * np.ones(d), np.inf * np.ones(d)
        self.pmu, self.psd = np.zeros(d), np.inf * np.ones(d)
        self.s2 = np.array([1.])
        self.N = self.N0 = self.S20 = None
        A = r.normal(size=(d, d)) + 1.5 * np.eye(d)
        self.sc = np.exp(r.uniform(-1.5, 1.5, d))
        self.A = A / self.sc
        self.mu = r.normal(size=d) * self.sc * 2
        self.K = 1
        self.W = np.ones((1, d))
        if kind == 'components':
            self.K = int(r.choice([2, 3]))
            self.W = np.exp(r.uniform(-1.5, 1.5, (self.K, d)))
            self.s2 = np.exp(r.uniform(-1.5, 1.5, self.K))
        elif kind in ('gauss', 'bounded', 'prior', 'box', 'undefined'):
            self.s2 = np.exp(r.uniform(-1, 1, 1))
        if kind in ('variance', 'variance2', 'both'):
            self.K = 2 if kind == 'variance2' else 1
            self.W = np.exp(r.uniform(-1, 1, (self.K, d)))
            self.N = r.integers(4, 12, self.K).astype(float)
            self.N0 = r.uniform(1, 4, self.K)
            self.S20 = np.exp(r.uniform(-1, 1, self.K))
            self.base = np.exp(r.uniform(-1, 1, self.K)) * self.N
        if kind in ('bounded', 'both'):
            w = self.sc * math.sqrt(self.s2[0])
            self.lo = np.where(r.random(d) < .7, self.mu - r.uniform(0, 1.2, d) * w, -np.inf)
            self.hi = np.where(r.random(d) < .7, self.mu + r.uniform(.2, 1.2, d) * w, np.inf)
            self.lo[0] = self.mu[0] - .3 * w[0]
        self.cut = None
        if kind == 'undefined':     # limits the library is not told: the misfit has no value, or is infinite, beyond them
            w = self.sc * math.sqrt(self.s2[0])
            self.cut = (self.mu - r.uniform(.2, 1.2, d) * w, self.mu + r.uniform(.2, 1.2, d) * w, float(r.choice([np.nan, np.nan, np.inf])))
        if kind == 'box':           # nearly flat between limits
            w = self.sc * math.sqrt(self.s2[0])
            self.lo = self.mu - r.uniform(.1, .6, d) * w
            self.hi = self.mu + r.uniform(.1, .6, d) * w
        if kind in ('prior', 'both'):
            on = r.random(d) < .7
            on[0] = True
            self.psd = np.where(on, self.sc * np.exp(r.uniform(-1, .7, d)), np.inf)
            self.pmu = np.where(on, self.mu + r.normal(size=d) * self.sc, 0)
        if kind == 'halfline':
            self.lo = np.zeros(1)
            self.rate = float(np.exp(r.uniform(-1, 1)))
        if kind == 'banana':
            self.b, self.v = float(r.uniform(.3, 1.2)), float(np.exp(r.uniform(-1, .5)))
        if kind == 'custom':
            self.nu = float(r.choice([3, 5]))
            self.csc = float(np.exp(r.uniform(-1, 1)))
        self.refine(r)

    def refine(self, r):
        """A fixed Gaussian reference used as proposal of the exact rejection sampler, and for proposal widths."""
        prec = np.diag(1 / self.psd**2)
        h = prec @ self.pmu
        for k in range(self.K):
            s = self.s2[k if len(self.s2) > 1 else 0] if not self.updates else self.base[k] / self.N[k]
            Ak = self.A * self.W[k]
            prec = prec + Ak.T @ Ak / s
            h = h + Ak.T @ Ak @ self.mu / s
        self.gcov = np.linalg.inv(prec)
        self.gmu = self.gcov @ h

    def ss(self, theta):
        th = np.asarray(theta, dtype=float)
        if self.kind == 'halfline':
            return np.array([2 * self.rate * th[0]])
        if self.kind == 'banana':
            return np.array([th[0]**2 + (th[1] - self.b * th[0]**2)**2 / self.v])
        if self.kind == 'custom':
            return np.array([0.])
        if self.cut is not None and not np.all((th >= self.cut[0]) & (th <= self.cut[1])):
            return np.array([self.cut[2]])
        q = np.array([float((((self.A * self.W[k]) @ (th - self.mu))**2).sum()) for k in range(self.K)])
        return self.base + q if self.updates else q

    def prior(self, theta, mu, sigma):
        """Student prior (custom), as minus twice its logarithm."""
        return (self.nu + 1) * math.log(1 + (float(theta[0]) / self.csc)**2 / self.nu)

    def draw(self, n, r):
        """(n, d) exact draws of the parameters and (n, K) of the variances (None when fixed)."""
        if self.kind == 'halfline':
            return r.exponential(1 / self.rate, (n, 1)), None
        if self.kind == 'banana':
            x = r.normal(size=n)
            return np.column_stack([x, self.b * x**2 + math.sqrt(self.v) * r.normal(size=n)]), None
        if self.kind == 'custom':
            return self.csc * r.standard_t(self.nu, size=(n, 1)), None
        L = np.linalg.cholesky(self.gcov)
        out = []
        got = 0
        while got < n:
            if not self.updates:
                th = self.gmu + r.normal(size=(4096, self.d)) @ L.T
                keep = np.all((th >= self.lo) & (th <= self.hi), axis=1)
                if self.cut is not None:
                    keep &= np.all((th >= self.cut[0]) & (th <= self.cut[1]), axis=1)
            else:                       # rejection against a wide t: marginal is prod (N0 S20 + SS)^-(N0+N)/2 * prior
                g = r.chisquare(3, (4096, 1)) / 3
                z = r.normal(size=(4096, self.d)) / np.sqrt(g)
                th = self.gmu + 1.5 * z @ L.T
                lq = -(3 + self.d) / 2 * np.log1p((z**2).sum(1) / 3)
                lp = self.logmarg(th)
                if not hasattr(self, 'M'):
                    self.M = self.bound(L)
                keep = (np.log(r.random(4096)) < lp - lq - self.M) & np.all((th >= self.lo) & (th <= self.hi), axis=1)
                if np.any(lp - lq > self.M):
                    raise AssertionError('envelope of the exact sampler too low')
            out.append(th[keep])
            got += int(keep.sum())
        th = np.vstack(out)[:n]
        if not self.updates:
            return th, None
        SS = np.array([self.ss(t) for t in th])
        s2 = 1 / r.gamma((self.N0 + self.N) / 2, 2 / (self.N0 * self.S20 + SS))
        return th, s2

    def logmarg(self, th):
        lp = -.5 * (((th - self.pmu) / self.psd)**2).sum(1)
        for k in range(self.K):
            q = (((th - self.mu) @ (self.A * self.W[k]).T)**2).sum(1)
            lp = lp - (self.N0[k] + self.N[k]) / 2 * np.log(self.N0[k] * self.S20[k] + self.base[k] + q)
        return lp

    def bound(self, L):
        r = np.random.default_rng(12345)
        g = r.chisquare(1, (60000, 1))
        z = r.normal(size=(60000, self.d)) / np.sqrt(np.maximum(g, .01))
        lq = -(3 + self.d) / 2 * np.log1p((z**2).sum(1) / 3)
        return float((self.logmarg(self.gmu + 1.5 * z @ L.T) - lq).max()) + .5

    def width(self):
        """Rough posterior standard deviations, for proposals."""
        th, _ = self.draw(400, np.random.default_rng(99))
        return np.percentile(th, [16, 84], axis=0).ptp(axis=0) / 2, np.cov(th.T).reshape(self.d, self.d)

    def features(self, th, s2):
        """Functions of the state whose distributions are compared."""
        r = np.random.default_rng(777)
        w, _ = self.width()
        F = [th[:, j] for j in range(self.d)]
        for _ in range(2 if self.d > 1 else 0):
            F.append((th / w) @ r.normal(size=self.d))
        SS = np.array([self.ss(t) for t in th])
        F += [SS[:, k] for k in range(self.K) if self.kind != 'custom']
        if s2 is not None:
            F += [np.log(s2[:, k]) for k in range(self.K)]
            F += [np.log(s2[:, k]) - np.log(SS[:, k]) for k in range(self.K)]
            F.append(np.log(s2[:, 0]) + 2 * (th / w)[:, 0])
        return F


# ------------------------------------------------------------------------------------- runs
def build(post, theta0, s2, opts, seed, extra=None):
    m = rec.MCMC(rngseed=seed)
    ms = dict(sos_function=lambda th, data: post.ss(th))
    if post.updates:
        for k in range(post.K):
            m.data.add_data_set(np.zeros(2), np.zeros(2), n=int(post.N[k]))
        ms.update(N0=post.N0.copy(), S20=post.S20.copy(), sigma2=s2.copy())
    else:
        m.data.add_data_set(np.zeros(2), np.zeros(2))
        ms['sigma2'] = post.s2.copy()
        if post.K > 1:
            for k in range(post.K - 1):
                m.data.add_data_set(np.zeros(2), np.zeros(2))
    if post.kind == 'custom':
        ms['prior_function'] = lambda th, mu, sigma: post.prior(th, mu, sigma)
    m.model_settings.define_model_settings(**ms)
    m.simulation_options.define_simulation_options(waitbar=False, verbosity=0, updatesigma=post.updates, **opts)
    for j in range(post.d):
        m.parameters.add_model_parameter('a%d' % j, theta0=float(theta0[j]), minimum=post.lo[j], maximum=post.hi[j],
                                         prior_mu=post.pmu[j], prior_sigma=post.psd[j])
    return m


def config(seed, i):
    r = np.random.default_rng([seed, i])
    kind = TARGETS[i % len(TARGETS)]
    post = Post(kind, int(r.integers(1, 2**31)))
    if post.cut is not None and i // len(TARGETS) % 4 == 0:
        post.cut = post.cut[:2] + (np.nan,)
    w, C = post.width()
    method = ['mh', 'dr'][(i + i // len(TARGETS)) % 2] if kind != 'undefined' else 'dr'
    shape = np.diag(w**2) if r.random() < .5 else C * (.4 if kind == 'custom' else 1)
    opts = dict(method=method, nsimu=int(r.choice([9, 16, 26])), qcov=shape * float(np.exp(r.uniform(-.5, 2.2) + 1.5 * (kind == 'undefined'))))
    if method == 'dr':
        opts['ntry'] = int(r.choice([2, 2, 3, 4])) if kind != 'undefined' else 3 + i // len(TARGETS) % 2
        if opts['ntry'] > 2 or r.random() < .5:
            opts['drscale'] = [float(x) for x in np.exp(r.uniform(.3, 1.6, opts['ntry'] - 1))]
    return post, opts


def cases(tier, seed):
    out = []
    nconf, runs, chunk = count(tier, 24, 96), count(tier, 2500, 10000), 250
    for c in range(nconf):
        for k in range(runs // chunk):
            out.append(dict(kind='short', conf=c, cseed=rec.sub(seed, 0, 20), k=k, n=chunk, seed=rec.sub(seed, c * 1000 + k, 20)))
    for i in range(count(tier, 24, 300)):
        out.append(dict(kind='adapt', i=i, seed=rec.sub(seed, i, 2020)))
    return out


def run(case):
    return run_short(case) if case['kind'] == 'short' else run_adapt(case)


def run_short(case):
    o = Out()
    post, opts = config(case['cseed'], case['conf'])
    r = np.random.default_rng(case['seed'])
    th, s2 = post.draw(case['n'], r)
    end, ends = np.zeros_like(th), None if s2 is None else np.zeros_like(s2)
    for k in range(case['n']):
        m = build(post, th[k], None if s2 is None else s2[k], opts, int(r.integers(1, 2**31)))
        m.run_simulation()
        res = m.simulation_results.results
        end[k] = res['chain'][-1]
        o.hit('final_states')
        o.hit('moved', bool(np.any(end[k] != th[k])))
        if k == 0:
            o.check(near(res['chain'][0], th[k], 1e-14) and res['chain'].shape == (opts['nsimu'], post.d), 'starts', 'run does not start at the exact draw')
        if s2 is not None:
            ends[k] = res['s2chain'][-1]
            if k == 0:
                o.check(near(res['s2chain'][0], s2[k], 1e-12), 'starts', 'run does not start at the exact variance')
    o.stat = dict(conf=case['conf'], cseed=case['cseed'], th=end.tolist(), s2=None if ends is None else ends.tolist())
    o.sig = '{}|{}|{}'.format(post.kind, case['conf'], case['cseed'])
    if case['k'] == 0:
        o.sample = dict(posterior=post.kind, parameters=post.d, method=opts['method'], steps=opts['nsimu'] - 1, stages=opts.get('ntry', 1))
    return o.done()


def run_adapt(case):
    """Adaptive runs from a poor proposal recover mean and spread."""
    o = Out()
    r = np.random.default_rng(case['seed'])
    kind = ['gauss', 'bounded', 'prior', 'components', 'variance', 'variance2'][case['i'] % 6]
    post = Post(kind, int(r.integers(1, 2**31)))
    th, s2 = post.draw(8000, r)
    mean, sd = th.mean(0), th.std(0)
    method = ['am', 'dram'][case['i'] // 6 % 2]
    opts = dict(method=method, nsimu=8000, adaptint=int(r.choice([50, 100])), burnintime=int(r.choice([0, 500])),
                qcov=np.diag(sd**2) * float(r.choice([.05, .5, 4])))
    m = build(post, th[0], None if s2 is None else s2[0], opts, int(r.integers(1, 2**31)))
    m.run_simulation()
    X = m.simulation_results.results['chain'][1000:]
    for j in range(post.d):
        dm, ds = abs(X[:, j].mean() - mean[j]) / sd[j], X[:, j].std() / sd[j]
        o.check(dm < .4 and 1 / 1.5 < ds < 1.5, 'adaptive', lambda: '{} run on a {} posterior: mean of parameter {} off by {:.2f} standard deviations, '
                'standard deviation off by a factor {:.2f}'.format(method, kind, j, dm, ds))
    o.stat = dict(dm=dm, ds=ds)
    o.sig = 'adapt|{}|{}|{}'.format(kind, method, case['seed'])
    return o.done()


def collect(case):
    return run_short(case)['stat']


def compare(post, cs, c, stats_, salt):
    th = np.vstack([np.array(s['th']) for s in stats_])
    s2 = np.vstack([np.array(s['s2']) for s in stats_]) if stats_[0]['s2'] is not None else None
    rt, rs = post.draw(20000 * (1 + 2 * (salt > 5)), np.random.default_rng([cs, c, salt]))
    return [(stats.ks_2samp(a, b, method='asymp'), a, b) for a, b in zip(post.features(th, s2), post.features(rt, rs))]


def aggregate(results, tier, clist):
    groups = {}
    for case, res in zip(clist, results):
        if case['kind'] == 'short' and res['stat']:
            groups.setdefault((case['cseed'], case['conf']), []).append((case, res['stat']))
    viol, ntests, npost, worst, again = [], 0, 0, 1., 0
    for (cs, c), L in sorted(groups.items()):
        post, opts = config(cs, c)
        npost += 1
        T = compare(post, cs, c, [s for _, s in L], 5)
        ntests += len(T)
        p = min(t.pvalue for t, _, _ in T)
        worst = min(worst, p)
        if LIMIT < p < 1e-3 and again < 6:
            # suspicious but undecided: judge fresh, four times as many, final states of this configuration alone
            again += 1
            n = len(L) * 4
            extra = [dict(L[0][0], k=-1 - j, seed=rec.sub(L[0][0]['seed'], j, 2121)) for j in range(n)]
            with mp.get_context('fork').Pool(int(os.environ.get('VERIF_JOBS') or os.cpu_count() or 1)) as pool:
                T = compare(post, cs, c, pool.map(collect, extra, chunksize=1), 6)
            ntests += len(T)
        for f, (t, a, b) in enumerate(T):
            if t.pvalue < LIMIT:
                viol.append((L[0][0], '{} with {} leaves a {} posterior: feature {} of {} final states differs from exact draws (KS distance {:.3f}, '
                             'p = {:.1g}; means {:.4g} and {:.4g})'.format(opts['method'], {k: v for k, v in opts.items() if k != 'qcov'}, post.kind, f, len(a),
                                                                           t.statistic, t.pvalue, a.mean(), b.mean())))
                break
    return dict(viol=viol, obs=dict(tests=ntests, posteriors=npost, followed_up=again, **{'worst p below 1e-%d' % k: 1 for k in (3, 5, 7) if worst < 10.**-k}))

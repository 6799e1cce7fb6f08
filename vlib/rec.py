"""Recorders: the global random stream, the user callbacks and the scenario generator.

numpy's global random stream is replaced, before the library is imported, by one that draws the same values and
appends what was drawn to the active event list.  Nothing else of the library is
touched: everything is observed at its boundary (callbacks, random stream, results, files, figures).
"""
import contextlib
import os
import sys
import warnings

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
ACTIVE = None   # the event list being recorded, or None
ZERO = None     # injected fault: every so often a single uniform draw is exactly zero (a legal value)
HIGH = False    # the same, but close to one

_NORMAL = ('randn', 'standard_normal', 'normal')
_UNIFORM = ('rand', 'random', 'random_sample', 'ranf', 'sample', 'uniform')
_OTHER = ('gamma', 'standard_gamma', 'chisquare', 'exponential', 'beta', 'choice', 'randint', 'permutation',
          'shuffle', 'seed')


class Stream(np.random.RandomState):
    """The global stream, recorded.  It stands in for numpy's own instance, so whichever way the library reaches the
    global stream (numpy.random functions, the instance itself, scipy) the draw is seen."""
    depth = 0


def _method(name, kind):
    orig = getattr(np.random.RandomState, name)

    def f(self, *a, **k):
        self.depth += 1
        try:
            r = orig(self, *a, **k)
        finally:
            self.depth -= 1
        if ACTIVE is not None and self.depth == 0:      # a draw made by another recorded function is part of that one
            kd = kind
            if name in ('normal', 'uniform', 'multivariate_normal'):      # only standard draws are read as such
                loc, sc = k.get('loc', k.get('low', k.get('mean', a[0] if a else 0))), k.get('scale', k.get('high', k.get('cov', a[1] if len(a) > 1 else 1)))
                one = np.eye(len(np.atleast_1d(loc))) if name == 'multivariate_normal' else 1
                if not (np.all(np.asarray(loc) == 0) and np.all(np.asarray(sc) == one)):
                    kd = 'o'
            if ZERO is not None and kd == 'u' and np.size(r) == 1:
                if HIGH:
                    if ZERO.random() < .6:
                        r = 1 - (1 - r) * 10**-ZERO.uniform(1, 5)
                elif ZERO.random() < .15:
                    r = r * 0.
            ACTIVE.append((kd, np.array(r, dtype=float, copy=True) if r is not None else None, name))
        return r
    f.__name__ = name
    setattr(Stream, name, f)


if not getattr(np.random, '_verif_wrapped', False):
    for _n in _NORMAL + ('multivariate_normal',):
        _method(_n, 'n')
    for _n in _UNIFORM:
        if hasattr(np.random.RandomState, _n):
            _method(_n, 'u')
    for _n in _OTHER:
        if hasattr(np.random.RandomState, _n):
            _method(_n, 'o')
    _base = np.random.mtrand._rand
    STREAM = Stream(_base._bit_generator)
    for _n in dir(np.random):
        if getattr(getattr(np.random, _n), '__self__', None) is _base:
            setattr(np.random, _n, getattr(STREAM, _n))
    np.random.ranf = np.random.sample = STREAM.random_sample
    np.random.mtrand._rand = STREAM
    np.random._verif_wrapped = True

sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
import pymcmcstat  # noqa
assert os.path.realpath(pymcmcstat.__file__).startswith(os.path.realpath(REPO) + os.sep), pymcmcstat.__file__
from pymcmcstat.MCMC import MCMC  # noqa


@contextlib.contextmanager
def recording():
    global ACTIVE
    ev = []
    prev, ACTIVE = ACTIVE, ev
    try:
        yield ev
    finally:
        ACTIVE = prev


def emit(*event):
    if ACTIVE is not None:
        ACTIVE.append(event)


class Refused(Exception):
    """The library refused a configuration (SystemExit / ValueError)."""


# ---------------------------------------------------------------------------------------------
class Marker:
    """A custom sampler that only looks: one event per step, after the step's variance draw."""
    def __init__(self):
        self.n = 0

    def setup(self):
        emit('setup',)
        return 'm0'

    def update(self, accept=None, isimu=None, current_set=None, **kw):
        self.n += 1
        emit('step', bool(accept), int(isimu), np.array(current_set.theta, dtype=float, copy=True),
             np.array(current_set.ss, dtype=float, copy=True),
             np.array(current_set.sigma2, dtype=float, copy=True).reshape(-1))
        return 'm%d' % self.n


# ---------------------------------------------------------------------------------------------
class Scen:
    """One random, valid configuration.  All randomness comes from the given generator (a private
    np.random.Generator), so a scenario is reproduced by its seed."""

    def __init__(self, r, **want):
        self.want = want
        W = want.get
        self.rngseed = int(r.integers(1, 2**31 - 1))
        ns = W('npar') or int(r.choice([1, 2, 2, 3, 3, 4, 1, 2, 3, 4, 6, 8]))
        nfix = W('nfix') if W('nfix') is not None else int(r.choice([0, 0, 0, 0, 1, 1, 2, 3]))
        nt = ns + nfix
        mask = np.array([True] * ns + [False] * nfix)
        if nfix:
            r.shuffle(mask)
        self.mask = mask
        self.ns, self.nt = ns, nt
        pat = str(r.choice(['q%d', 'q%d', 'q%d', 'a b%d', 'a_long_parameter_name_%d', r'$\alpha_{%d}$']))
        self.names = [pat % i if r.random() < .8 else None for i in range(nt)]
        self.par = np.flatnonzero(mask)
        if self.rngseed % 7 == 3:           # one name the beginning of the next
            self.names = ['k' + '1' * i for i in range(nt)][::1 if self.rngseed % 2 else -1]
        elif self.rngseed % 7 == 4:         # names that differ in case only
            self.names = [('kK'[i % 2]) + 'abcde'[i // 2] if i < 10 else 'x%d' % i for i in range(nt)]
        # ---- parameters
        scale = np.exp(r.uniform(-1.5, 1.5, nt)) if W('scaled', True) else np.ones(nt)
        if W('scaled', True) and W('wild', r.random() < .12):       # very large and very small parameters
            scale = scale * 10**r.uniform(-5, 5, nt)
        self.true = r.normal(size=nt) * scale + np.where(r.random(nt) < .5, 0, 3 * scale)
        self.scale = scale
        # ---- model and data
        self.form = W('form') or str(r.choice(['linear', 'linear', 'bent', 'wave', 'steps']))
        self.style = W('style') or str(r.choice(
            ['ss_float', 'ss_np', 'ss_arr', 'ss_arr', 'ss_reuse', 'ss_mutate', 'ss_keep', 'model']))
        self.nsos = W('nsos') or int(r.choice([1, 1, 1, 2, 3, 1, 2, 4]))
        if self.style in ('ss_float', 'ss_np'):
            self.nsos = 1
        if W('nbatch'):
            self.nbatch = W('nbatch')
        elif self.style == 'model':
            self.nbatch = self.nsos
        else:
            self.nbatch = int(r.choice([1, self.nsos])) if self.nsos > 1 else int(r.choice([1, 1, 1, 2]))
        if self.style == 'model':
            self.nsos = self.nbatch
        self.custom_kw = bool(W('custom_kw', r.random() < .5))
        self.noise = float(np.exp(r.uniform(-2, .5)))
        # very large and very small responses
        big = 1. if self.form != 'linear' or self.rngseed % 6 else [1e-4, 1e-2, 1e3, 1e5][self.rngseed // 6 % 4]
        self.noise *= big
        self.X, self.y, self.weight, self.grp, self.nuser = [], [], [], [], []
        for b in range(self.nbatch):
            n = int(r.integers(max(ns + 1, 3), 14)) if r.random() < .9 else int(r.integers(40, 80))
            X = r.normal(size=(n, nt)) / scale * big
            y = self._g(X @ self.true) + self.noise * r.normal(size=n)
            self.X.append(X)
            self.y.append(y.reshape(n, 1))
            self.weight.append(1 if self.style != 'model' or r.random() < .5 else float(np.exp(r.uniform(-1, 1))))
        # misfit components: per batch when nbatch == nsos, else split of the rows of all batches
        # ---- posterior scale (rough): used to choose sensible starting points and proposals
        Xa = np.vstack(self.X)[:, mask]
        H = Xa.T @ Xa + 1e-6 * big**2 * np.eye(ns)
        self.s2true = self.noise**2
        self.post = np.linalg.inv(H) * self.s2true
        sd = np.sqrt(np.diag(self.post))
        th0 = self.true.copy()
        th0[mask] += sd * r.normal(size=ns) * W('startspread', 1.0)
        if W('zero_start', r.random() < .1):
            th0[int(r.choice(self.par))] = 0.
        if W('tiny', r.random() < .05):      # starts around which the default proposal is minute
            th0[self.par] *= 10**r.uniform(-9, -5, ns)
        self.intstart = bool(W('intstart', r.random() < .08)) and np.abs(th0).max() > 3     # starts given as integers
        if self.intstart:
            th0 = np.round(th0)
        self.th0 = th0
        # ---- limits
        lo, hi = np.full(nt, -np.inf), np.full(nt, np.inf)
        bmode = W('bounds') or str(r.choice(['none', 'wide', 'tight', 'mixed', 'onbound']))
        self.bmode = bmode
        for k, i in enumerate(self.par):
            w = sd[k] * np.exp(r.uniform(-1, 1))
            if bmode == 'wide':
                lo[i], hi[i] = th0[i] - 50 * sd[k] - 1, th0[i] + 50 * sd[k] + 1
            elif bmode == 'tight':
                lo[i], hi[i] = th0[i] - w * r.uniform(.1, 2), th0[i] + w * r.uniform(.1, 2)
            elif bmode == 'mixed':
                m = r.integers(0, 4)
                if m & 1:
                    lo[i] = th0[i] - w * r.uniform(.1, 2)
                if m & 2:
                    hi[i] = th0[i] + w * r.uniform(.1, 2)
            elif bmode == 'onbound':
                if r.random() < .5:
                    lo[i], hi[i] = th0[i], th0[i] + w
                else:
                    lo[i], hi[i] = th0[i] - w, th0[i]
        for i in np.flatnonzero(~mask):
            if r.random() < .5:
                lo[i], hi[i] = th0[i] - 1e-3, th0[i] + 1e-3
        self.lo, self.hi = lo, hi
        # ---- prior
        self.pstyle = W('pstyle') or str(r.choice(['default'] * 5 + ['fn_float', 'fn_arr', 'fn_reuse', 'fn_mutate']))
        pmode = W('pmode') or str(r.choice(['flat', 'gauss', 'mixed', 'nanmu']))
        self.mu_user, self.sig_user = np.zeros(nt), np.full(nt, np.inf)
        for i in range(nt):
            g = pmode in ('gauss', 'nanmu') or (pmode == 'mixed' and r.random() < .5)
            if g:
                k = list(self.par).index(i) if mask[i] else 0
                self.mu_user[i] = np.nan if pmode == 'nanmu' and r.random() < .6 else th0[i] + sd[k] * r.normal()
                self.sig_user[i] = sd[k] * np.exp(r.uniform(-1, 1))
            elif r.random() < .2:
                self.sig_user[i] = r.choice([0., -1.])
            if g and self.rngseed % 11 == 5:       # priors so wide that the default proposal becomes huge
                self.sig_user[i] *= 1e4
            elif g and self.rngseed % 11 == 7 and W('farprior', True):     # starts far out in the tails of the prior
                self.sig_user[i] *= .01
            if pmode == 'nanmu' and r.random() < .25:      # centred at the start by default, and flat
                self.sig_user[i] = np.inf
        if W('narrow'):      # a prior of minute, but positive, deviation
            i = int(self.par[self.rngseed % ns])
            self.mu_user[i], self.sig_user[i] = th0[i], sd[list(self.par).index(i)] * 1e-12
        self.pmode = pmode
        # ---- holes in the user's prior (posterior zero or undefined there)
        self.phole = None
        if self.pstyle != 'default' and (W('phole') or r.random() < .2):
            k = int(r.integers(0, ns))
            self.phole = (k, th0[self.par[k]] + sd[k] * r.uniform(.3, 1.5), np.inf if r.random() < .6 else np.nan)
        self.mu = np.where(np.isnan(self.mu_user), th0, self.mu_user)
        self.sig = np.where(self.sig_user <= 0, np.inf, self.sig_user)
        self.adapt = np.ones(nt, dtype=bool)
        if W('adaptflags', r.random() < .2):
            self.adapt[r.random(nt) < .4] = False
        # ---- holes in the misfit
        self.hole = W('hole') if 'hole' in want else (None if r.random() < .8 else str(r.choice(['nan', 'inf'])))
        k = int(r.integers(0, ns))
        self.hole_at = (self.par[k], th0[self.par[k]] + sd[k] * r.uniform(.3, 1.5))
        if self.hole == 'inf' and W('hole_start', r.random() < .15):    # the start itself has no posterior mass
            self.hole_at = (self.par[k], th0[self.par[k]] - sd[k] * r.uniform(.05, .5))
        # ---- model settings
        self.updatesigma = bool(W('updatesigma')) if W('updatesigma') is not None else bool(r.random() < .5)
        ms = {}
        s2mode = W('s2mode') or str(r.choice(['none', 'scalar', 'array', 'npscalar', 'list']))
        self.s2mode = s2mode
        if s2mode == 'scalar':
            ms['sigma2'] = float(self.s2true * np.exp(r.uniform(-1, 1)))
        elif s2mode == 'npscalar':
            ms['sigma2'] = np.array([self.s2true * np.exp(r.uniform(-1, 1))])
        elif s2mode == 'array':
            ms['sigma2'] = self.s2true * np.exp(r.uniform(-1, 1, self.nsos))
        elif s2mode == 'list':
            ms['sigma2'] = [float(v) for v in self.s2true * np.exp(r.uniform(-1, 1, self.nsos))]
        if W('flat') and 'sigma2' in ms:       # a likelihood that hardly tells points apart
            ms['sigma2'] = ms['sigma2'] * 10**W('flat')
        if self.updatesigma and r.random() < .6:
            if r.random() < .5:
                ms['N0'] = int(r.choice([1, 2, 4])) if r.random() < .5 else float(r.uniform(.5, 6))
            else:
                ms['N0'] = r.uniform(.5, 6, self.nsos)
            if r.random() < .6:
                ms['S20'] = float(self.s2true) if r.random() < .5 else self.s2true * np.exp(r.uniform(-1, 1, self.nsos))
        self.ms = ms
        # ---- options
        o = {}
        o['nsimu'] = int(W('nsimu') or (r.choice([2 - (self.rngseed % 4 == 0), 3, 5, 17, 60, 150, 250, 400]) if r.random() > .02 else 1500))
        o['method'] = W('method') or str(r.choice(['mh', 'am', 'dr', 'dram', 'dram']))
        if W('ntry'):
            o['ntry'] = W('ntry')
        elif r.random() < .5 and o['method'] in ('dr', 'dram'):
            o['ntry'] = int(r.choice([2, 3, 4, 2, 3, 5, 6]))
        elif r.random() < .1:
            o['ntry'] = int(r.choice([1, 2]))
        o['waitbar'] = False
        o['verbosity'] = 0
        o['updatesigma'] = self.updatesigma and not ('N0' in ms and r.random() < .5)
        if W('adaptint'):
            o['adaptint'] = W('adaptint')
        elif r.random() < .7:
            o['adaptint'] = int(r.choice([5, 10, 20, 33, 50]))
        if W('burnin', r.random() < .3) and o['method'] in ('am', 'dram'):
            o['burnintime'] = int(r.choice([15, 45, 100]))
            if r.random() < .5:
                o['burnin_scale'] = float(r.uniform(1.5, 6)) if r.random() < .7 else float(r.uniform(12, 40))
        if r.random() < .3:
            o['lastadapt'] = int(r.choice([10, 40, 100, 200]))
        if r.random() < .25:
            o['initqcovn'] = float(r.choice([1, 2, 5, 20.5]))
        if r.random() < .3:
            o['adascale'] = float(r.uniform(.3, 3)) if r.random() < .8 else float(10**r.uniform(-3, 1.3))
        if r.random() < .2:
            o['qcov_adjust'] = float(10**r.uniform(-10, -5))
        if r.random() < .6:
            o['drscale'] = np.round(r.uniform(1.3, 6, int(r.choice([1, 2, 3, 5]))), 3)
            if r.random() < .3:
                o['drscale'] = np.maximum(2, o['drscale'].astype(int))
                if r.random() < .3:
                    o['drscale'] = [int(x) for x in o['drscale']]
        qmode = W('qmode') or str(r.choice(['none', 'full', 'full', 'vec']))
        self.qmode = qmode
        fac = np.exp(r.uniform(*W('qfac', (-1.5, 1.5))))
        sdall = scale * .1
        sdall[mask] = sd
        if qmode == 'full':
            A = r.normal(size=(nt, nt)) * .3 + np.eye(nt)
            o['qcov'] = (A @ A.T) * np.outer(sdall, sdall) * fac
        elif qmode == 'vec' and nt > 1:
            o['qcov'] = sdall**2 * fac * np.exp(r.uniform(-.5, .5, nt))
            if r.random() < .5:
                o['qcov'] = o['qcov'].reshape((1, nt) if r.random() < .5 else (nt, 1))
        self.opts = o
        eff_ntry = o.get('ntry', {'mh': 1, 'am': 1, 'ram': 1, 'dr': 2, 'dram': 2}[o['method']])
        self.ntry = eff_ntry
        if W('rdr', r.random() < .15) and eff_ntry > 1:
            o['RDR'] = []
            base = np.linalg.cholesky(self.post * fac + 1e-12 * np.eye(ns)).T
            for k in range(eff_ntry):
                o['RDR'].append(base * np.exp(r.uniform(-.3, .3)) / (1 + 1.5 * k))
        if not W('method') and self.rngseed % 13 == 5 and o['method'] in ('mh', 'am') and bool(np.all(self.adapt)) and 'RDR' not in o:
            o['method'] = 'ram'
            o.pop('adascale', None)
        o.update(W('opts', {}))
        self.marker = W('marker', True)
        self.buf = np.zeros(self.nsos)
        self.pbuf = np.zeros(1)
        self.kept = []

    # -- the user's model ---------------------------------------------------------------------
    def _g(self, z):
        if self.form == 'linear':
            return z
        if self.form == 'bent':
            return z + .15 * z**2
        if self.form == 'steps':        # misfit constant in places: different points, same misfit
            return np.round(2 * z) / 2
        return z + .5 * np.sin(z)

    def misfit(self, theta):
        """The pure misfit (array of nsos)."""
        theta = np.asarray(theta, dtype=float)
        out = np.zeros(self.nsos)
        if self.hole is not None and theta[self.hole_at[0]] > self.hole_at[1]:
            out[:] = np.nan if self.hole == 'nan' else np.inf
            return out
        if self.nbatch == self.nsos:
            for b in range(self.nbatch):
                out[b] = self.weight[b] * float(((self.y[b][:, 0] - self._g(self.X[b] @ theta))**2).sum())
        else:
            res = np.concatenate([(self.y[b][:, 0] - self._g(self.X[b] @ theta))**2 for b in range(self.nbatch)])
            for j in range(self.nsos):
                out[j] = res[j::self.nsos].sum()
        return out

    def prior_term(self, ts):
        """-2 log prior of the sampled vector."""
        ts = np.asarray(ts, dtype=float)
        mu, sig = self.mu[self.par], self.sig[self.par]
        if self.pstyle == 'default':
            return float((((mu - ts) / sig)**2).sum())
        if self.phole is not None and ts[self.phole[0]] > self.phole[1]:
            return self.phole[2]
        return float((((ts - mu) / np.where(np.isinf(sig), 1e3, sig))**2).sum() + .3 * np.abs(ts / self.scale[self.par]).sum())

    def full(self, ts):
        th = self.th0.copy()
        th[self.par] = ts
        return th

    # -- counts and variances, from the documentation -----------------------------------------
    def N(self):
        n = np.array([len(y) for y in self.y], dtype=float)
        if len(n) == self.nsos:
            return n
        if self.nsos == 1:
            return np.array([n.sum()])
        assert len(n) == 1
        return np.ones(self.nsos) * n[0]

    def sigma2_0(self):
        ms = self.ms
        if 'sigma2' in ms:
            s = np.atleast_1d(np.array(ms['sigma2'], dtype=float))
        elif 'N0' in ms and 'S20' in ms:
            s = np.atleast_1d(np.array(ms['S20'], dtype=float))
        else:
            s = np.ones(1)
        return np.ones(self.nsos) * s

    def S20(self):
        if 'S20' in self.ms:
            return np.ones(self.nsos) * np.atleast_1d(np.array(self.ms['S20'], dtype=float))
        return self.sigma2_0()

    def N0(self):
        if 'N0' in self.ms:
            return np.ones(self.nsos) * np.atleast_1d(np.array(self.ms['N0'], dtype=float))
        return np.ones(self.nsos) * (1. if 'sigma2' in self.ms else 0.)

    # -- initial proposal, from the documentation ---------------------------------------------
    def qcov0(self):
        q = self.opts.get('qcov')
        if q is None:
            v = np.where(np.isinf(self.sig), (np.abs(self.th0) * .05)**2, self.sig**2)
            v = np.where(v == 0, 1., v)
            q = np.diag(v)
        else:
            q = np.array(q, dtype=float)
            if q.ndim < 2 or min(q.shape) == 1:
                q = np.diag(q.reshape(-1))
        return q[np.ix_(self.par, self.par)]

    def R0(self):
        if 'RDR' in self.opts and (self.opts['method'] in ('dr', 'dram') or self.ntry > 1):
            return np.array(self.opts['RDR'][0], dtype=float)
        return np.linalg.cholesky(self.qcov0()).T

    def stage_factors(self, R, initial=True):
        """Stage proposals: user's list initially, else R divided by the cumulative scalings."""
        if initial and 'RDR' in self.opts:
            return [np.array(x, dtype=float) for x in self.opts['RDR']]
        ds = np.asarray(self.opts.get('drscale', np.array([5., 4., 3.])), dtype=float)
        out = [R]
        for k in range(1, self.ntry):
            out.append(out[-1] / ds[min(k, len(ds)) - 1])
        return out

    # -- build the library object -------------------------------------------------------------
    def user_ss(self):
        sc = self

        def core(theta, custom):
            th_in = np.array(theta, dtype=float, copy=True)
            out = sc.misfit(th_in)
            emit('ss', th_in, out.copy(), custom)
            st = sc.style
            if st == 'ss_float':
                return float(out[0])
            if st == 'ss_np':
                return np.float64(out[0])
            if st == 'ss_reuse':
                sc.buf[:] = out
                return sc.buf
            if st == 'ss_mutate':
                theta[:] = 1e3 + np.arange(len(theta))
                return out
            if st == 'ss_keep':
                sc.kept.append((theta, th_in))
                if len(sc.kept) > 50:
                    sc.kept.pop(0)
                return out
            return out
        if self.custom_kw:
            def ss(theta, data, custom=None):
                return core(theta, list(custom) if custom is not None else None)
        else:
            def ss(theta, data):
                return core(theta, None)
        return ss

    def user_model(self):
        sc = self

        def model(xdata, theta):
            th_in = np.array(theta, dtype=float, copy=True)
            y = sc._g(np.asarray(xdata) @ th_in).reshape(-1, 1)
            if sc.hole is not None and th_in[sc.hole_at[0]] > sc.hole_at[1]:
                y[len(y) // 2] = np.nan if sc.hole == 'nan' else np.inf
            emit('model', th_in, np.array(xdata, copy=True))
            if sc.rngseed % 3 == 0:
                theta[:] = -55.
            return y[:, 0] if sc.rngseed % 2 else y
        return model

    def user_prior(self):
        sc = self

        def prior(theta, mu, sigma):
            v = sc.prior_term(theta)
            emit('prior', np.array(theta, dtype=float, copy=True), np.array(mu, copy=True), np.array(sigma, copy=True))
            if sc.pstyle == 'fn_reuse':
                sc.pbuf[:] = v
                return sc.pbuf
            if sc.pstyle == 'fn_mutate':
                theta[:], mu[:], sigma[:] = 1e3, -4., .123
            return np.array([v]) if sc.pstyle == 'fn_arr' else v
        return prior

    def build(self, rngseed='own', opts=None, cls=MCMC):
        m = cls(rngseed=self.rngseed if rngseed == 'own' else rngseed)
        for b in range(self.nbatch):
            x = self.X[b]
            m.data.add_data_set(x, self.y[b], weight=self.weight[b])
        o = dict(self.opts)
        o.update(opts or {})
        m.simulation_options.define_simulation_options(**o)
        ms = dict(self.ms)
        if self.style == 'model':
            ms['model_function'] = self.user_model()
        else:
            ms['sos_function'] = self.user_ss()
        if self.pstyle != 'default':
            ms['prior_function'] = self.user_prior()
        m.model_settings.define_model_settings(**ms)
        for i in range(self.nt):
            kw = dict(theta0=int(self.th0[i]) if self.intstart and float(self.th0[i]).is_integer() else float(self.th0[i]), sample=bool(self.mask[i]), adapt=bool(self.adapt[i]))
            if self.names[i] is not None:
                kw['name'] = self.names[i]
            if np.isfinite(self.lo[i]):
                kw['minimum'] = float(self.lo[i])
            if np.isfinite(self.hi[i]):
                kw['maximum'] = float(self.hi[i])
            if not np.isinf(self.sig_user[i]):
                kw['prior_sigma'] = float(self.sig_user[i])
            if not np.isinf(self.sig_user[i]) or self.mu_user[i] != 0:
                kw['prior_mu'] = float(self.mu_user[i])
            m.parameters.add_model_parameter(**kw)
        if self.marker:
            m.custom_samplers.append(Marker())
        return m

    def expected_names(self):
        return [n if n is not None else '$p_{%d}$' % i for i, n in enumerate(self.names)]

    def describe(self):
        o = {k: (v if np.isscalar(v) else 'array') for k, v in self.opts.items()}
        return dict(sampled=self.ns, fixed=self.nt - self.ns, style=self.style, nsos=self.nsos, nbatch=self.nbatch,
                    bounds=self.bmode, prior=self.pstyle + '/' + self.pmode, sigma2=self.s2mode,
                    updatesigma=self.updatesigma, form=self.form, hole=self.hole, q=self.qmode, opts=o)

    def ident(self):
        o = self.opts
        return '|'.join(str(x) for x in (
            self.ns, self.nt - self.ns, self.style, self.nsos, self.nbatch, self.bmode, self.pstyle, self.pmode,
            self.s2mode, self.updatesigma, self.form, self.hole, self.qmode, o['method'], self.ntry, o['nsimu'],
            o.get('adaptint'), o.get('burnintime'), o.get('lastadapt'), o.get('initqcovn'), 'RDR' in o,
            'adascale' in o, self.rngseed))


# ---------------------------------------------------------------------------------------------
class Trace:
    """A finished recorded run."""
    def __init__(self, sc, m, ev, sigma2_start=None):
        self.sc, self.m, self.ev = sc, m, ev
        self.res = m.simulation_results.results
        self.chain = np.asarray(self.res['chain'])
        self.ss = np.asarray(self.res['sschain'])
        self.s2 = None if self.res['s2chain'] is None else np.asarray(self.res['s2chain'])

    def steps(self):
        """Events between step markers: (isimu, accept, [events of the step], marker event); the events
        before the set-up marker are the initial evaluations."""
        out, cur, init, started = [], [], [], False
        for e in self.ev:
            if e[0] == 'setup':
                started = True
                init, cur = cur, []
            elif e[0] == 'step':
                out.append((e[2], e[1], cur, e))
                cur = []
            else:
                cur.append(e)
        self.tail = cur
        self.init = init
        return out


def run_scen(sc, opts=None, m=None, **kw):
    with recording() as ev:
        if m is None:
            m = sc.build(opts=opts)
        m.run_simulation(**kw)
    return Trace(sc, m, ev)


@contextlib.contextmanager
def zeros(on, seed=0):
    global ZERO, HIGH
    ZERO = np.random.default_rng(seed) if on else None
    HIGH = on == 'high'
    try:
        yield
    finally:
        ZERO, HIGH = None, False


def gen(seed, **want):
    return Scen(np.random.default_rng(seed), **want)


def copy_scen(sc, last, opts):
    """The scenario as a continued run sees it: same priors, limits and fixed values, new start and options."""
    import copy
    s = copy.copy(sc)
    s.opts = opts
    s.ntry = opts.get('ntry', {'mh': 1, 'am': 1, 'ram': 1, 'dr': 2, 'dram': 2}[opts['method']])
    s.th0 = sc.full(last)
    return s


def sub(seed, i, salt=0):
    """A 63-bit case seed."""
    return int(np.random.SeedSequence([int(seed), int(i), int(salt)]).generate_state(2, np.uint32).astype(np.uint64)
               @ np.array([1, 2**31], dtype=np.uint64))


def group_model_events(events, sc):
    """Merge the per-batch model evaluations of the default misfit into 'ss' events."""
    if sc.style != 'model':
        return events
    out, k = [], 0
    for e in events:
        if e[0] == 'model':
            if k == 0:
                out.append(('ss', e[1], sc.misfit(e[1]), None))
            k = (k + 1) % sc.nbatch
        else:
            out.append(e)
    return out

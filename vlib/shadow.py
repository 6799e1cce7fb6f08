"""Reference semantics of the samplers, computed from the documentation and the recorded boundary events.

walk(trace) re-reads a recorded run step by step: for every step it gives the stages that were tried (the
normals drawn, the candidate evaluated or not, the uniform drawn), the state the step started from, and
what the reference says about the proposal factor, the candidate and the acceptance probability.
"""
import math

import numpy as np

from .rec import group_model_events


def logpost(sc, ss, ts, s2):
    """log posterior up to a constant; nan stays nan."""
    with np.errstate(all='ignore'):
        return float(-.5 * (np.asarray(ss, dtype=float) / s2).sum() - .5 * sc.prior_term(ts))


def inside(sc, ts):
    return bool(np.all(ts >= sc.lo[sc.par]) and np.all(ts <= sc.hi[sc.par]))


def loginv(R):
    return np.linalg.inv(R)


def dr_alpha(path, factors):
    """Delayed rejection acceptance probability (Mira / Haario et al.).  path: list of (theta, logpost),
    factors: stage proposal factors R_k (covariance R_k' R_k).  Returns nan if undefined."""
    inv = [np.linalg.inv(f) for f in factors[:len(path)]]

    def q(k, a, b):   # log density (up to a constant) of the k-th stage candidate b around a, k from 1
        d = (b - a) @ inv[k - 1]
        return -.5 * float(d @ d)

    def alpha(p):
        n = len(p) - 1
        if p[-1][1] == -math.inf:
            return 0.
        num, den = p[-1][1], p[0][1]
        for i in range(1, n):
            fwd, bwd = p[:i + 1], [p[n - j] for j in range(i + 1)]
            ab = alpha(bwd)
            if ab >= 1.:
                return 0.
            af = alpha(fwd)
            if af >= 1.:
                return float('nan')   # such a path cannot occur
            num += q(i, p[n][0], p[n - i][0]) + math.log1p(-ab)
            den += q(i, p[0][0], p[i][0]) + math.log1p(-af)
        if den == -math.inf:
            return float('nan')
        return math.exp(min(0., num - den))
    if math.isnan(path[0][1]):
        return float('nan')
    # a candidate without a posterior can never be accepted, which is what a posterior of zero means
    return alpha([(t, -math.inf if math.isnan(v) else v) for t, v in path])


def dr_edge(path, factors):
    """Whether some rejection probability along the path is within rounding of zero."""
    for n in range(2, len(path)):
        for p in (path[:n], path[::-1][:n]):
            a = dr_alpha(p, factors)
            if 1 - 1e-8 < a < 1:
                return True
    return False


def semichol(A):
    """Upper Cholesky factor of a positive semidefinite matrix; rows of negligible pivots are zero."""
    A = np.array(A, dtype=float)
    n = len(A)
    R = np.zeros((n, n))
    for j in range(n):
        d = A[j, j] - R[:j, j] @ R[:j, j]
        if d <= 1e-11 * abs(A[j, j]):
            continue
        R[j, j] = math.sqrt(d)
        for k in range(j + 1, n):
            R[j, k] = (A[j, k] - R[:j, j] @ R[:j, k]) / R[j, j]
    return R


# ---------------------------------------------------------------------------------------------
class AdaptRef:
    """Reference adaptation: proposal factor in use before each step."""
    def __init__(self, sc, chain, offset=0, R0=None, theta_start=None):
        self.sc, self.chain, self.off = sc, chain, offset
        o = sc.opts
        self.method = o['method']
        self.adaptint = {'mh': 0, 'dr': 0}.get(self.method, o['adaptint'] if o.get('adaptint') is not None else 1 if self.method == 'ram' else 100)
        self.nsimu = o['nsimu']
        self.lastadapt = o.get('lastadapt', 0)
        if self.lastadapt < 1:
            self.lastadapt = self.nsimu
        self.burnin = o.get('burnintime', 0)
        self.bscale = o.get('burnin_scale', 10)
        self.adj = o.get('qcov_adjust', 1e-8)
        a = o.get('adascale')
        self.scale = a if a is not None and a > 0 else 1. if self.method == 'ram' else 2.4 / math.sqrt(sc.ns)
        self.w = o.get('initqcovn')
        self.C0 = sc.qcov0()
        self.mu0 = np.array(chain[offset] if theta_start is None else theta_start, dtype=float)
        self.R = sc.R0() if R0 is None else R0
        self.initial = True
        self.noadapt = ~sc.adapt[sc.par]
        self.cov = None if self.w is None else self.C0
        self.mean = None if self.w is None else self.mu0
        self.nadapt = 0
        self.amb = None      # alternative factors when the branch is numerically ambiguous
        self.lost = False
        self.events = []

    def factors(self):
        return self.sc.stage_factors(self.R, self.initial)

    def reference_moments(self, upto):
        x = np.asarray(self.chain[:upto], dtype=float)
        n = len(x)
        xm = x.mean(0)
        d = x - xm
        S = d.T @ d
        if self.w is None:
            return (S / (n - 1) if n > 1 else S * 0.), xm
        w = float(self.w)
        W = w + n
        dm = (xm - self.mu0).reshape(-1, 1)
        C = ((w - 1) * self.C0 + S + (w * n / W) * (dm @ dm.T)) / (W - 1)
        return C, (w * self.mu0 + n * xm) / W

    def ram(self, i, step, prev):
        """Robust adaptive Metropolis: the factor stretches along the last move according to its acceptance probability."""
        if step is None or not step.parsed or prev:      # unknown from here on
            return self._settle([Cand('ram', self.R, np.inf * np.ones(len(self.R)))])
        st = step.stages[0]
        a = 0.
        if st['ss'] is not None:
            new = logpost(self.sc, st['ss'][2], st['obs'], step.s2)
            d = new - step.old_lp
            a = 0. if math.isnan(d) else math.exp(min(0., d))
        u = st['z'] / np.sqrt(st['z'] @ st['z'])
        M = np.eye(len(u)) + float(i)**-self.sc.opts.get('etaparam', .7) * (a - self.sc.opts.get('alphatarget', .234)) * np.outer(u, u)
        C = self.R.T @ M @ self.R
        d = np.sqrt(np.abs(np.diag(C)))
        with np.errstate(all='ignore'):
            lam = np.linalg.eigvalsh(C / np.outer(d, d)).min() if np.all(d > 0) and np.isfinite(C).all() else 0.
        if not lam > 1e-9:      # singular within rounding: rounding decides what happens
            return self._settle([Cand('ram', self.R, np.inf * np.ones(len(self.R)))])
        return self._settle([Cand('ram', np.linalg.cholesky(C).T * self.scale)])

    def after_step(self, i, nrej, step=None):
        """Called after step i of the run with the number of rejections in the current interval;
        returns True when an adaptation was due (the caller resets the interval count)."""
        if not (self.adaptint > 0 and i % self.adaptint == 0 and i <= self.lastadapt):
            return False
        self.nadapt += 1
        self.initial = False
        prev, self.amb = self.amb, None     # an earlier branch may still be undecided
        if i < self.burnin:
            f = nrej / self.adaptint
            down, up = 1. / self.bscale, self.bscale
            if prev:
                acts = [('hold', 1.), ('down', down), ('up', up)]
            elif abs(f - .95) < 1e-9:       # exactly at a threshold: rounding decides
                acts = [('hold', 1.), ('down', down)]
            elif abs(f - .05) < 1e-9:
                acts = [('hold', 1.), ('up', up)]
            else:
                acts = [('down', down) if f > .95 else ('up', up) if f < .05 else ('hold', 1.)]
            cands = [Cand(n, c.R * g, c.slack if c.slack is None else c.slack * g) for n, g in acts
                     for c in (prev or [Cand('', self.R)])]
            return self._settle(cands)
        self.cov, self.mean = self.reference_moments(self.off + i)
        if self.method == 'ram':
            return self.ram(i, step, prev)
        up = self.cov.copy()
        up[self.noadapt, :] = self.C0[self.noadapt, :]
        up[:, self.noadapt] = self.C0[:, self.noadapt]
        olds = [Cand('keep', c.R, c.slack) for c in prev] if prev else [Cand('keep', self.R)]
        lam = np.linalg.eigvalsh((up + up.T) / 2)
        big = max(abs(lam).max(), 1e-300)
        xmax = float(np.abs(self.chain[:self.off + i]).max())
        clear = max(1e-9 * big, (1e-9 * xmax)**2)

        def chol(m):
            try:
                return np.linalg.cholesky(m).T * self.scale
            except np.linalg.LinAlgError:
                return None
        a, b = chol(up), chol(up + np.eye(len(up)) * self.adj)
        if lam.min() > clear:
            cands = [Cand('adapt', a)]
        elif lam.min() + self.adj > max(1e-9 * (big + self.adj), clear) and lam.min() < -clear:
            cands = [Cand('adjust', b)]
        elif lam.min() + self.adj < -max(1e-9 * (big + self.adj), clear):
            cands = olds
        else:       # singular within rounding: rounding decides, and fills the degenerate directions
            sl = np.sqrt(np.maximum(np.diag(up), 0)) * 1e-3 + math.sqrt(clear)
            cands = [Cand('adapt', semichol(up) * self.scale, sl * self.scale)]
            if not self.adj > 100 * clear:     # otherwise the regularised matrix is certainly positive definite
                cands += olds
            if b is not None:
                cands.append(Cand('adjust', b, sl * self.scale))
            else:
                cands.append(Cand('adjust', semichol(up + np.eye(len(up)) * self.adj) * self.scale, sl * self.scale))
        return self._settle(cands)

    def _settle(self, cands):
        self.R = cands[0].R
        self.lost = False
        single = len(cands) == 1 and cands[0].slack is None
        self.events.append(cands[0].name if single else 'ambiguous')
        self.amb = None if single else cands
        return True

    def observe(self, obs, old, z):
        """An evaluated first-stage candidate while the branch is undecided; False when nothing explains it."""
        alive = [c for c in self.amb if c.explains(obs, old, z)]
        if not alive:
            self.lost = True
            return False
        self.amb = alive
        self.R = alive[0].R
        if len(alive) == 1 and alive[0].slack is None:
            self.amb = None
        return True


class Cand:
    """A possible proposal factor; slack is the uncertainty per component when it is degenerate."""
    def __init__(self, name, R, slack=None):
        self.name, self.R, self.slack = name, R, slack

    def explains(self, obs, old, z):
        if self.slack is None:
            return close_vec(obs, old + z @ self.R, self.R)
        d = np.abs(obs - old - z @ self.R)
        return bool(np.all(d <= self.slack * (4 + np.abs(z).sum()) + 1e-9 * (np.abs(obs) + np.abs(old))))


def close_vec(a, b, R, tol=1e-6):
    sd = np.sqrt(np.maximum((R**2).sum(0), 0))
    return bool(np.all(np.abs(a - b) <= tol * (sd * 4 + 1e-300) + 1e-9 * (np.abs(a) + np.abs(b))))


def same_draw(obs, old, z, R, tol=1e-6):
    """Is obs the candidate that the normals z give around old with covariance R'R?  Any square root of the
    covariance will do: another root gives the same distance in the metric of the covariance."""
    if close_vec(obs, old + z @ R, R, tol):
        return True
    try:
        w = np.linalg.solve(R.T, obs - old)
    except np.linalg.LinAlgError:
        return False
    n, m = float(np.sqrt(w @ w)), float(np.sqrt(z @ z))
    slack = 1e-9 * float(np.abs(np.linalg.solve(R.T, np.abs(obs) + np.abs(old))).max())
    return slack < 1e-4 * m and abs(n - m) <= tol * m + slack


def merge_scalars(ev, ns):
    """Normals drawn one by one, read as vectors."""
    out, run = [], []
    for e in ev + [('end',)]:
        if e[0] == 'n' and e[1].size == 1:
            run.append(float(e[1].reshape(-1)[0]))
            if len(run) == ns:
                out.append(('n', np.array(run), 'merged'))
                run = []
        else:
            out.extend(('n', np.array([x]), 'single') for x in run)
            run = []
            out.append(e)
    return out[:-1]


def split_stages(events, accept, ntry, ns, sc):
    """Stages of one step from its events; None when the random stream is not laid out as one normal
    vector per stage."""
    ev = group_model_events(events, sc)
    if ns > 1 and not any(e[0] == 'n' and e[1].size == ns for e in ev):
        ev = merge_scalars(ev, ns)
    nidx = [k for k, e in enumerate(ev) if e[0] == 'n' and e[1].size == ns]
    sidx = [k for k, e in enumerate(ev) if e[0] == 'ss']
    if accept:
        if not sidx:
            return None, ev
        nidx = [k for k in nidx if k < sidx[-1]]
        if not nidx or len(nidx) > ntry:
            return None, ev
    else:
        if len(nidx) < ntry:
            return None, ev
        nidx = nidx[:ntry]
    out = []
    for j, k in enumerate(nidx):
        end = nidx[j + 1] if j + 1 < len(nidx) else len(ev)
        st = dict(z=ev[k][1].reshape(-1), ss=None, u=None, prior=None, nss=0)
        last = j + 1 == len(nidx)
        for e in ev[k + 1:end]:
            if e[0] == 'ss':
                st['nss'] += 1
                if st['ss'] is None:
                    st['ss'] = e
            elif e[0] == 'u' and e[1].size == 1 and st['u'] is None:
                st['u'] = float(e[1].reshape(-1)[0])
            elif e[0] == 'prior' and st['prior'] is None:
                st['prior'] = e
            elif e[0] == 'n' and last:
                break       # variance draws follow
        out.append(st)
    if sidx and sidx[0] < nidx[0]:
        return None, ev
    return out, ev


class Step:
    __slots__ = ('i', 'row', 'accept', 'stages', 'evals', 'old', 'old_ss', 'old_lp', 's2', 'factors', 'ambiguous',
                 'parsed', 'new', 'marker', 'adapted', 'ref', 'events', 'nomatch')


READ = {'read': 0, 'unread': 0}     # steps whose random draws could be attributed, and others


def walk(tr, offset=0, theta_start=None, R0=None, sigma2=None):
    """Yields one Step per simulated step.  The stored chain is taken as the history (P01 checks it)."""
    sc = tr.sc
    steps = tr.steps()
    chain, ss, s2 = tr.chain, tr.ss, tr.s2
    ref = AdaptRef(sc, chain, offset, R0=R0, theta_start=theta_start)
    sig0 = sc.sigma2_0() if sigma2 is None else sigma2
    nrej = 0
    for isimu, accept, evs, mk in steps:
        s = Step()
        s.i, s.row, s.accept, s.marker, s.ref = isimu, offset + isimu, accept, mk, ref
        s.events = evs
        s.old, s.new, s.old_ss = chain[s.row - 1], chain[s.row], ss[s.row - 1]
        s.s2 = sig0 if s2 is None else (s2[s.row - 1])
        s.old_lp = logpost(sc, s.old_ss, s.old, s.s2)
        stages, ev = split_stages(evs, accept, sc.ntry, sc.ns, sc)
        s.evals = [e for e in ev if e[0] == 'ss']
        s.parsed = stages is not None
        READ['read' if s.parsed else 'unread'] += 1
        s.stages = stages or []
        s.nomatch = False
        if ref.amb is not None and not ref.lost and s.parsed and s.stages[0]['ss'] is not None:
            s.nomatch = not ref.observe(s.stages[0]['ss'][1][sc.par], s.old, s.stages[0]['z'])
        s.ambiguous = ref.amb is not None
        s.factors = ref.factors()
        for k, st in enumerate(s.stages):
            st['pred'] = s.old + st['z'] @ s.factors[k]
            st['pred_in'] = inside(sc, st['pred'])
            st['obs'] = st['ss'][1][sc.par] if st['ss'] is not None else None
            # distance of the prediction to the nearest limit, to leave rounding ties alone
            with np.errstate(all='ignore'):
                d = np.minimum(np.abs(st['pred'] - sc.lo[sc.par]), np.abs(st['pred'] - sc.hi[sc.par]))
            sd = np.sqrt((s.factors[k]**2).sum(0))
            st['tie'] = bool(np.any(d < 1e-6 * (4 * sd + np.abs(st['pred']) * 1e-3)))
            st['match'] = None if st['obs'] is None else close_vec(st['obs'], st['pred'], s.factors[k])
        if not accept:
            nrej += 1
        yield s
        s.adapted = ref.after_step(isimu, nrej, s)
        if s.adapted:
            nrej = 0

"""Custom samplers: an event log of their set-up, updates and outputs, checked against the stored chain and the misfit's calls."""
import os

import numpy as np

from vlib import rec
from .common import Out, count, eqn, near

PROP = 'P19'
LEVEL = 'exploration'
RULE = 'distinct (configuration, number and kind of custom samplers, returned values, log layout, continuations) runs'
ASSUMPTIONS = ['custom samplers only read the state they are given',
               'the evaluation before the samplers are set up has nothing to pass on',
               'a continued run sets the samplers up again and logs their new chains after the old ones']
REQUIRE = {'runs': 150, 'setups': 200, 'updates': 8000, 'passed_on': 5000, 'logged': 100, 'continued': 40, 'variance': 1500, 'blocks': 60, 'not_logged': 20}


def cases(tier, seed):
    return [dict(kind='cs', i=i, seed=rec.sub(seed, i, 19)) for i in range(count(tier, 220, 4000))]


class Sampler:
    """Records, returns a value of its own kind, optionally keeps a chain to be logged."""
    def __init__(self, k, log, nsimu, kind, save, r):
        self.k, self.log, self.nsimu, self.kind, self.r = k, log, nsimu, kind, r
        if save is not None:
            self.save_chain = save
        self.cols = int(r.integers(1, 3))
        self.nfile = int(r.choice([1, 2, 2, 3, 5]))
        self.done = []

    def value(self):
        v = float(self.r.normal())
        if self.kind == 'array':
            return np.array([v, self.k])
        if self.kind == 'dict':
            return dict(v=v)
        if self.kind == 'none':
            return None
        return v

    def setup(self):
        self.mtx = [np.zeros((self.nsimu, self.cols)) for _ in range(self.nfile)]
        self.chains = [dict(file='cs%d_%d' % (self.k, j), mtx=m) for j, m in enumerate(self.mtx)]
        for m in self.mtx:
            m[0] = self.r.normal(size=self.cols) * 1e3
        self.done.append(self.mtx)
        v = self.value()
        self.log.append(('setup', self.k, v))
        return v

    def _up(self, accept, isimu, cs):
        for m in self.mtx:
            m[isimu] = self.r.normal(size=self.cols) / 3
        v = self.value()
        self.log.append(('update', self.k, bool(accept), int(isimu), np.array(cs.theta, dtype=float), np.array(cs.ss, dtype=float).reshape(-1),
                         np.array(cs.sigma2, dtype=float).reshape(-1), float(np.ravel(cs.prior)[0]), v))
        return v


class Named(Sampler):
    def update(self, accept, isimu, current_set):
        return self._up(accept, isimu, current_set)


class Loose(Sampler):
    def update(self, **kw):
        return self._up(kw['accept'], kw['isimu'], kw['current_set'])


def same(a, b):
    if a is b:
        return True
    try:
        return bool(np.all(np.asarray(a == b)))
    except Exception:
        return False


def check_run(o, log, samplers, sc, res, nsimu, offset, what):
    """log: events of one run; offset: chain row at which this run starts."""
    chain, ss = np.asarray(res['chain']), np.asarray(res['sschain'])
    s2 = None if res['s2chain'] is None else np.asarray(res['s2chain'])
    n = len(samplers)
    sets = [e for e in log if e[0] == 'setup']
    o.check([e[1] for e in sets] == list(range(n)), 'setups', lambda: '{}: samplers set up in order {}'.format(what, [e[1] for e in sets]))
    first_up = next((k for k, e in enumerate(log) if e[0] == 'update'), len(log))
    last_set = max([k for k, e in enumerate(log) if e[0] == 'setup'] + [-1])
    o.check(last_set < first_up, 'setup_first', '{}: a sampler was set up after an update'.format(what))
    ups = [e for e in log if e[0] == 'update']
    order = [(e[3], e[1]) for e in ups]
    want = [(s, k) for s in range(1, nsimu) for k in range(n)]
    if not o.check(order == want, 'order', lambda: '{}: updates (step, sampler) {}... expected {}...'.format(what, *next(([order[j:j + 3], want[j:j + 3]] for j in range(max(len(order), len(want)))
                                                                                                              if order[j:j + 1] != want[j:j + 1]), [[], []]))):
        return
    points, step = {}, 1
    for e in log:
        if e[0] == 'update' and e[1] == n - 1:
            step = e[3] + 1
        elif e[0] == 'ss':
            points.setdefault(step, []).append(np.asarray(e[1])[sc.par])
    for e in ups:
        a = offset + e[3]
        moved = not eqn(chain[a], chain[a - 1])
        ok = eqn(e[4], chain[a])
        o.check(ok, 'updates', lambda: '{}: sampler {} saw parameters {} at step {}, stored {}'.format(what, e[1], e[4], e[3], chain[a]))
        o.check(eqn(e[5], ss[a]), 'updates', lambda: '{}: sampler {} saw misfit {} at step {}, stored {}'.format(what, e[1], e[5], e[3], ss[a]))
        # a candidate equal to the state may be accepted without a move
        o.check(e[2] == moved or (e[2] and any(np.array_equal(q, chain[a - 1]) for q in points.get(e[3], []))), 'accepts', lambda: '{}: sampler {} was told accept={} at step {} but the chain moved: {}'.format(what, e[1], e[2], e[3], moved))
        if s2 is not None:
            o.check(eqn(np.ones(len(s2[a])) * e[6], s2[a]), 'variance', lambda: '{}: sampler {} saw variance {} at step {}, stored {}'.format(what, e[1], e[6], e[3], s2[a]))
        else:
            o.check(near(np.ones(sc.nsos) * e[6], sc.sigma2_0(), 1e-12), 'fixedvariance', lambda: '{}: sampler {} saw variance {}, configured {}'.format(what, e[1], e[6], sc.sigma2_0()))
        o.check(near(e[7], sc.prior_term(chain[a]), 1e-9, 1e-12), 'priors', lambda: '{}: sampler {} saw prior term {} at step {}, {} expected'.format(
            what, e[1], e[7], e[3], sc.prior_term(chain[a])))
    # what the misfit receives
    if sc.custom_kw:
        cur, seen_setup = [], 0
        pending = []
        for e in log:
            if e[0] == 'setup':
                cur.append(e[2])
                seen_setup += 1
            elif e[0] == 'update':
                pending.append(e[8])
                if len(pending) == n:
                    cur, pending = pending, []
            elif e[0] == 'ss':
                if seen_setup == 0:
                    continue
                got = e[3]
                o.check(got is not None and len(got) == n and all(same(x, y) for x, y in zip(got, cur)), 'passed_on',
                        lambda: '{}: the misfit received {} instead of {}'.format(what, got, cur))


def run(case):
    from pymcmcstat.chain import ChainProcessing as CP
    o = Out()
    i = case['i']
    r = np.random.default_rng(case['seed'])
    nsimu = int(r.choice([2, 5, 30, 61, 120])) if i % 72 != 18 else 1100
    sc = rec.gen(case['seed'], nsimu=nsimu, marker=False, custom_kw=bool(i % 4), style=str(r.choice(['ss_arr', 'ss_float', 'ss_reuse', 'ss_mutate'])))
    log = []
    n = int(r.choice([1, 1, 2, 3]))
    samplers = []
    for k in range(n):
        save = [True, True, False, None][int(r.integers(0, 4))]
        samplers.append([Named, Loose][int(r.integers(0, 2))](k, log, nsimu, str(r.choice(['num', 'array', 'dict', 'none'])), save, r))
    fmt = ['h5', 'txt', 'both', 'none'][i % 4]
    size = int(r.choice([0, 1, 7, 10, 29, 30, nsimu - 1, nsimu])) if nsimu < 1000 else 100
    opts = dict(savesize=size, savedir='lg', save_to_bin=fmt in ('h5', 'both'), save_to_txt=fmt in ('txt', 'both'))
    m = sc.build(opts=opts)
    m.custom_samplers.extend(samplers)
    real = rec.emit

    # the scenario's misfit reports through rec.emit; collect its calls in our own log
    def emit(*e):
        if e[0] == 'ss':
            log.append(e)
        real(*e)
    rec.emit = emit
    what = '{} samplers, {} steps, method {}, log {} of {}'.format(n, nsimu, sc.opts['method'], fmt, size)
    try:
        offset = 0
        for run_no in range(1 + (i % 3 == 0) + (i % 9 == 0)):
            del log[:]
            m.run_simulation(use_previous_results=run_no > 0)
            res = m.simulation_results.results
            check_run(o, list(log), samplers, sc if run_no == 0 else rec.copy_scen(sc, res['chain'][offset], m_opts(sc, opts)), res, nsimu, offset,
                      '{}, run {}'.format(what, run_no + 1))
            offset += nsimu - 1
            o.hit('continued', run_no > 0)
            o.hit('runs')
    finally:
        rec.emit = real
    for ext in ('h5', 'txt'):
        on = fmt in (ext, 'both')
        for s in samplers:
            for j in range(s.nfile):
                f = os.path.join('lg', 'cs%d_%d.%s' % (s.k, j, ext))
                if not (on and getattr(s, 'save_chain', False)):
                    o.check(not os.path.exists(f), 'not_logged', '{}: {} was written though not asked for'.format(what, f))
                    continue
                got = CP.read_in_bin_file(f) if ext == 'h5' else CP.read_in_txt_file(f)
                want = np.vstack([d[j] for d in s.done])
                ok = len(got) == len(want) and (eqn(np.asarray(got), want) if ext == 'h5' else near(got, want, 1e-15))
                o.check(ok, 'logged', lambda: '{}: {} holds {} rows of {}, or other values'.format(what, f, len(got), len(want)))
                o.hit('blocks', 0 < size < nsimu)
    o.sig = sc.ident() + '|{}|{}|{}'.format(n, fmt, size)
    o.sample = dict(what=what, kinds=[s.kind for s in samplers])
    return o.done()


def m_opts(sc, opts):
    d = dict(sc.opts)
    d.update(opts)
    return d

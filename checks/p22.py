"""Printed tables and messages: captured output read back and compared with the values in use."""
import contextlib
import io
import math
import re
import time

import numpy as np

from vlib import rec, shadow
from .common import Out, count, near, seeds

PROP = 'P22'
LEVEL = 'exploration'
RULE = 'distinct configurations whose printed output was read back'
ASSUMPTIONS = ['printed numbers are compared at the displayed precision (two decimals, or three significant digits for very large or small values)',
               'the progress bar is driven by a replaced wall clock that advances at every reading']
REQUIRE = {'parameter_lines': 200, 'rejection_lines': 500, 'progress_lines': 300, 'settings': 300, 'not_adapted': 20, 'silent': 20}

NUM = r'[-+]?(?:inf|nan|\d+\.?\d*(?:[eE][-+]?\d+)?)'


def cases(tier, seed):
    out = seeds(seed, count(tier, 240, 4000), 22)
    for c in out:
        k = c['i'] % 4
        w = dict(nsimu=[60, 151, 250, 61, 150][c['i'] // 4 % 5])
        if k == 0:
            w.update(adaptflags=True, npar=3)
        elif k == 1:
            w.update(bounds='tight', qfac=(0, 3), method=['dram', 'am'][c['i'] // 4 % 2], adaptint=[10, 20, 33][c['i'] // 8 % 3])
        elif k == 2:
            w.update(bounds='mixed', qfac=(0, 3))
        c['want'] = w
        c['verb'] = [1, 2, 3, 2, 0, 3][c['i'] // 2 % 6]
        c['printint'] = [7, 10, 25, 1, 5000][c['i'] // 3 % 5]
        c['bar'] = c['i'] % 3 == 0
        c['save'] = [None, None, dict(save_to_txt=True, savesize=13, savedir='s'), dict(save_to_bin=True, savesize=30, savedir='s')][c['i'] // 5 % 4]
    return out


def shown(text, v):
    """Is the printed number the value v at the displayed precision?"""
    x = float(text)
    v = float(v)
    if math.isnan(v) or math.isinf(v):
        return (math.isnan(x) and math.isnan(v)) or x == v
    return abs(x - v) <= max(.00501 if 1e-2 < abs(v) < 1e4 else 0., .00501 * abs(v))


class Clock:
    """A wall clock that advances at every reading."""
    def __init__(self, seed):
        self.r, self.t = np.random.default_rng(seed), 1.6e9

    def __call__(self):
        self.t += float(self.r.choice([.001, .1, .4, .7]))
        return self.t


@contextlib.contextmanager
def clock(on, seed):
    real = time.time
    if on:
        time.time = Clock(seed)
    try:
        yield
    finally:
        time.time = real


def run(case):
    o = Out()
    sc = rec.gen(case['seed'], **case['want'])
    verb = case['verb']
    sc.opts.update(verbosity=verb, printint=case['printint'], waitbar=case['bar'], **(case['save'] or {}))
    buf = io.StringIO()
    with clock(case['bar'], case['seed']), contextlib.redirect_stdout(buf):
        tr = rec.run_scen(sc)
    text = buf.getvalue()
    lines = text.splitlines()
    table(o, sc, lines, verb)
    rejections(o, sc, tr, text, verb, case['printint'])
    if case['bar']:
        progress(o, text, sc.opts['nsimu'])
    else:
        o.check(' complete in ' not in text, 'silent', 'progress shown although it was switched off')
    display(o, sc, tr, text, verb)
    o.sig = sc.ident() + '|{}|{}|{}'.format(verb, case['printint'], case['bar'])
    o.sample = dict(scenario=sc.describe(), verbosity=verb, printed_lines=len(lines))
    return o.done()


def table(o, sc, lines, verb):
    """The table of sampled parameters."""
    names = sc.expected_names()
    at = [k for k, l in enumerate(lines) if l.strip() == 'Sampling these parameters:']
    if verb < 1:
        o.check(not at, 'silent', 'parameters listed although verbosity is {}'.format(verb))
        return
    o.check(len(at) == 1, 'tables', 'parameters listed {} times'.format(len(at)))
    if len(at) != 1:
        return
    body = lines[at[0] + 2:at[0] + 2 + sc.ns]
    for k, j in enumerate(sc.par):
        l = body[k] if k < len(body) else ''
        head = names[j] + ':'
        if not o.check(l.strip().startswith(head), 'parameter_lines', lambda: 'line {} of the parameter table is {!r}, expected parameter {}'.format(k + 1, l, names[j])):
            continue
        rest = l.strip()[len(head):]
        m = re.fullmatch(r'\s*({0})\s*\[\s*({0})\s*,\s*({0})\s*\]\s*N\(\s*({0})\s*,\s*({0})\s*(\^2)?\s*\)\s*(\(\*\))?\s*'.format(NUM), rest)
        if not o.check(m is not None, 'parameter_lines', lambda: 'cannot read {!r}'.format(l)):
            continue
        want = (sc.th0[j], sc.lo[j], sc.hi[j], sc.mu[j], sc.sig[j])
        o.check(all(shown(m.group(i + 1), v) for i, v in enumerate(want)), 'parameter_lines',
                lambda: 'parameter {} printed as {!r} but start, limits and prior are {}'.format(names[j], l, want))
        o.check((m.group(6) is None) == math.isinf(sc.sig[j]), 'parameter_lines', lambda: 'square sign in {!r}'.format(l))
        o.hit('not_adapted', not sc.adapt[j])
        o.check((m.group(7) is None) == bool(sc.adapt[j]), 'parameter_lines',
                lambda: 'parameter {} is {}adapted but printed as {!r}'.format(names[j], '' if sc.adapt[j] else 'not ', l))
    nxt = lines[at[0] + 2 + sc.ns] if len(lines) > at[0] + 2 + sc.ns else ''
    o.check(not any(nxt.strip().startswith(n + ':') for n in names), 'tables', lambda: 'further parameter {!r} listed'.format(nxt))


def rejections(o, sc, tr, text, verb, printint):
    """Rejection percentages: so far, since the last adaptation, and out of bounds so far."""
    tot = oob = here = nhere = 0
    clear = True
    want, adapt = {}, {}
    for s in shadow.walk(tr):
        nhere += 1
        if not s.accept:
            tot += 1
            here += 1
            if not s.parsed:
                clear = False
            elif s.stages[-1]['ss'] is None:
                oob += 1
        fig = (100. * tot / s.i, 100. * here / nhere, 100. * oob / s.i if clear else None)
        want[s.i] = fig
        if s.ref.adaptint > 0 and s.i % s.ref.adaptint == 0 and s.i <= s.ref.lastadapt:
            if s.i >= s.ref.burnin:
                adapt[s.i] = fig
            here = nhere = 0
    num = r'\s*({})\s*'.format(NUM)
    for what, pat, steps, level in (('rejection_lines', r'i:(\d+) \({0},{0},{0}\)'.format(num), {i: v for i, v in want.items() if i % printint == 0}, 2),
                                    ('adaptation_lines', r'i:(\d+) adapting \({0},{0},{0}\)'.format(num), adapt, 3)):
        got = re.findall(pat, text)
        exp = sorted(steps) if verb >= level else []
        o.check([int(g[0]) for g in got] == exp, 'silent' if verb < level else what,
                lambda: 'verbosity {}: {} printed for steps {} expected {}'.format(verb, what, [g[0] for g in got][:12], exp[:12]))
        for g in got:
            w = steps.get(int(g[0]))
            if w:
                o.check(all(b is None or near(float(a), b, 1e-9, 1e-9) for a, b in zip(g[1:], w)), what, lambda: 'step {}: printed {} but {} happened'.format(g[0], g[1:], w))


def progress(o, text, n):
    got = re.findall(r'\[([^\]]*)\] (\d+) of (\d+) complete in ([\d.]+) sec', text)
    o.check(bool(got) and int(got[-1][1]) == n, 'progress_lines', lambda: 'progress ends at {} of {}'.format(got[-1][1:3] if got else None, n))
    last, lt = 0, -1.
    for bar, i, m, t in got:
        i, t = int(i), float(t)
        o.check(int(m) == n and max(last, 1) <= i <= n and t >= lt, 'progress_lines', lambda: 'progress {} of {} after {} of {}'.format(i, m, last, n))
        p = re.search(r'(\d+)%', bar)
        o.check(p is not None and abs(int(p.group(1)) - 100. * i / n) <= 1., 'progress_lines', lambda: 'progress {} of {} shown as {}'.format(i, n, bar))
        # the filled part, apart from the few characters covered by the number
        filled = len(re.match(r'-*', bar).group(0))
        if filled < bar.find('%') - 3 and len(bar):
            o.check(abs(filled - len(bar) * i / n) <= 1.5, 'progress_lines', lambda: 'progress {} of {} drawn as {}'.format(i, n, bar))
        last, lt = i, t


def display(o, sc, tr, text, verb):
    """Settings displayed on request and before verbose runs."""
    m = tr.m
    res = tr.res
    if verb < 2:
        o.check('simulation options:' not in text, 'silent', 'settings listed although verbosity is {}'.format(verb))
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            m.display_current_mcmc_settings()
        text = buf.getvalue()
    so, ms = res['simulation_options'], res['model_settings']
    want = dict(nsimu=sc.opts['nsimu'], method=sc.opts['method'], ntry=sc.ntry, adaptint=so['adaptint'], nbatch=sc.nbatch, nsos=sc.nsos)
    for k, v in want.items():
        g = re.findall(r'^\s*{} = (.*)$'.format(k), text, flags=re.M)
        o.check(len(g) >= 1 and g[0].strip() == str(v), 'settings', lambda: 'setting {} displayed as {} but is {}'.format(k, g, v))
    for k, v in (('N', sc.N()), ('N0', sc.N0()), ('S20', sc.S20())):
        g = re.findall(r'^\s*{} = ((?:.|\n)*?)(?=^\s*\w+ = |^\w[\w ]*:|\Z)'.format(k), text, flags=re.M)
        if not o.check(len(g) >= 1, 'settings', lambda: 'setting {} is not displayed'.format(k)):
            continue
        x = [float(a) for a in re.findall(NUM, g[0])]
        o.check(len(x) == np.size(v) and near(np.array(x), np.asarray(v, dtype=float).reshape(-1), 1e-6, 1e-8), 'settings', lambda: 'setting {} displayed as {} but is {}'.format(k, g[0], v))
    if verb < 2:      # displayed after the run: the proposal now in use
        R = np.asarray(res['R'], dtype=float)
        g = re.findall(r'^\s*R = ((?:.|\n)*?)(?=^\s*\w+ = |^\w[\w ]*:|\Z)', text, flags=re.M)
        if o.check(len(g) >= 1, 'settings', 'the proposal in use is not displayed'):
            x = [float(a) for a in re.findall(NUM, g[0])]
            o.check(len(x) == R.size and near(np.array(x), R.reshape(-1), 1e-6, 6e-9 + 1e-6 * np.max(np.abs(R))), 'settings',
                    lambda: 'proposal displayed as {} but is {}'.format(g[0], R.tolist()))

"""Logs: read back with the library while the run is going on, after it ends, and after it is killed at a chosen step."""
import contextlib
import io
import os
import re
import signal
import time

import numpy as np

from vlib import rec, shadow
from .common import Out, count, eqn, near

PROP = 'P12'
LEVEL = 'exploration'
RULE = 'distinct (configuration, block size, file kind, interruption step, interruption kind) log states read back'
ASSUMPTIONS = ['interruptions (exception, interrupt, exit, kill) happen inside user code; a kill in the middle of a file write is '
               'outside what the file libraries guarantee',
               'a block is complete when its last row has been simulated and a further step has started']
REQUIRE = {'finished': 80, 'logrows': 5000, 'interrupted': 150, 'killed': 40, 'online': 500, 'continued': 30, 'covblocks': 200, 'index': 200,
           'adaptive_cov': 20, 'silent': 5, 'kinds': 60}
FILES = ('chain', 'sschain', 's2chain')


def cases(tier, seed):
    out = []
    for i in range(count(tier, 130, 1600)):
        out.append(dict(kind='finished', i=i, seed=rec.sub(seed, i, 12)))
    for i in range(count(tier, 40, 400)):
        out.append(dict(kind='online', i=i, seed=rec.sub(seed, i, 121)))
    n = count(tier, 10, 120)
    for i in range(n):
        out.append(dict(kind='interrupt', i=i, seed=rec.sub(seed, i, 122)))
    for i in range(count(tier, 32, 320)):
        out.append(dict(kind='kinds', i=i, seed=rec.sub(seed, i, 123)))
    return out


def run(case):
    return dict(finished=run_finished, online=run_online, interrupt=run_interrupt, kinds=run_kinds)[case['kind']](case)


def setup(case, **w):
    i = case['i']
    w.setdefault('nsimu', [2, 3, 17, 40, 90][i % 5] if i % 27 not in (26, 10, 22) else 1300 if i % 27 == 26 else 1)
    if i % 27 == 26:
        w.setdefault('npar', 5)
    if i % 3 == 0:
        w.setdefault('updatesigma', True)
        w.setdefault('nsos', 1 + i // 3 % 3)
    if i % 4 == 1:
        w.setdefault('method', ['am', 'dram'][i // 4 % 2])
        w.setdefault('adaptint', [5, 10, 20][i // 8 % 3])
    if i % 6 == 2:
        w.setdefault('npar', 1)
    sc = rec.gen(case['seed'], **w)
    exts = [['h5'], ['txt'], ['h5', 'txt']][i % 3] if i % 2 else ['h5', 'txt']
    opts = dict(savedir=['log', os.path.join('a', 'b')][i // 2 % 2], savesize=int([0, 1, 2, 5, 7, 10, 16, 17, 33, 1000][(i + i // 10) % 10]))
    if w['nsimu'] == 1300:       # long blocks
        opts['savesize'] = [0, 1000, 600, 7][i // 27 % 4]
    if 'h5' in exts:
        opts['save_to_bin'] = True
    if 'txt' in exts:
        opts['save_to_txt'] = True
    if i % 5 == 3:
        opts.update(chainfile='c_file', sschainfile='misfit', s2chainfile='var', covchainfile='prop')
    return sc, exts, opts


def tree():
    return sorted(os.path.join(d, f) for d, ds, fs in os.walk('.') for f in fs + ds)


def run_kinds(case):
    """Only the kinds of file asked for are written; nothing at all when nothing is asked for."""
    o = Out()
    i = case['i']
    sc, _, opts = setup(case, nsimu=[2, 17, 40, 130][i % 4])
    b, t, j = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1)][i % 8]
    opts.update(save_to_bin=bool(b), save_to_txt=bool(t), save_to_json=bool(j))
    if i // 8 % 2:
        del opts['savedir']
    if i // 8 % 4 == 2:
        opts['save_lightly'] = True
    before = tree()
    tr = rec.run_scen(sc, opts=opts)
    if i % 3 == 1:
        tr = rec.run_scen(sc, m=tr.m, use_previous_results=True)
    new = [f for f in tree() if f not in before and not os.path.isdir(f)]
    if not (b or t or j):
        o.check(tree() == before, 'silent', 'nothing was to be saved, but {} was written'.format([f for f in tree() if f not in before][:4]))
    where = tr.m.simulation_options.savedir
    o.check(all(os.path.dirname(os.path.relpath(f)) == os.path.normpath(where) for f in new), 'inside',
            lambda: 'files written outside the output directory {}: {}'.format(where, new[:4]))
    for ask, ext in ((b, '.h5'), (j, '.json')):
        n = sum(f.endswith(ext) for f in new)
        o.check((n > 0) == bool(ask), 'kinds', '{} {} files written, asked for: {}'.format(n, ext, bool(ask)))
    n = sum(os.path.basename(f) == '{}.txt'.format(opts.get('chainfile', 'chainfile')) for f in new)
    o.check(n == t, 'kinds', '{} text logs of the chain written, asked for: {}'.format(n, bool(t)))
    o.sig = sc.ident() + str((b, t, j, opts.get('savesize'), 'savedir' in opts))
    return o.done()


def read(opts, ext):
    from pymcmcstat.chain import ChainProcessing as CP
    kw = {k: opts[k] for k in ('chainfile', 'sschainfile', 's2chainfile', 'covchainfile') if k in opts}
    if not os.path.isdir(opts['savedir']):
        return dict(chain=[], sschain=[], s2chain=[], covchain=[])
    return CP.read_in_savedir_files(opts['savedir'], extension=ext, **kw)


def index_entries(opts, ext):
    p = os.path.join(opts['savedir'], 'binlogfile.txt' if ext == 'h5' else 'txtlogfile.txt')
    if not os.path.exists(p):
        return []
    out = []
    for line in open(p):
        m = re.search(r'(\d+)\s+(\d+)\s*$', line)
        out.append((int(m.group(1)), int(m.group(2))) if m else None)
    return out


def prefix(o, got, want, lo, hi, where, key='logrows'):
    """got are exactly the first rows of want, at least lo and at most hi of them."""
    n = len(got)
    if n:
        ok = np.asarray(got).shape[1:] == want.shape[1:] and n <= len(want) and eqn(np.asarray(got, dtype=float), want[:n])
        o.hit(key, n)
        if not ok:
            bad = [k for k in range(min(n, len(want))) if not eqn(np.asarray(got)[k], want[k])]
            o.bad('{}: {} logged rows are not the first rows of the chain (first difference at row {})'.format(
                where, n, bad[0] if bad else len(want)))
            return
    if not lo <= n <= hi:
        o.bad('{}: {} rows logged, expected between {} and {}'.format(where, n, lo, hi))


def finished(o, sc, exts, opts, res, steps_R, upto):
    """All rows are there; index entries tile the rows; covariances belong to their blocks."""
    want = dict(chain=np.asarray(res['chain']), sschain=np.asarray(res['sschain']),
                s2chain=None if res['s2chain'] is None else np.asarray(res['s2chain']))
    n = upto
    from pymcmcstat.chain import ChainProcessing as CP
    for ext in exts:
        got = read(opts, ext)
        for f in FILES:
            if want[f] is None:
                o.check(len(got[f]) == 0, 'none', 'a variance log exists although variances are not sampled')
            else:
                prefix(o, got[f], want[f], n, n, '{} log of {} after the run'.format(ext, f))
        ent = index_entries(opts, ext)
        shown = io.StringIO()
        with contextlib.redirect_stdout(shown):
            CP.print_log_files(opts['savedir'])
        f = os.path.join(opts['savedir'], 'binlogfile.txt' if ext == 'h5' else 'txtlogfile.txt')
        body = open(f).read() if os.path.exists(f) else ''
        o.check(body.strip() and body.strip() in shown.getvalue(), 'displayed', '{} index is not displayed: {}'.format(ext, shown.getvalue()[:200]))
        ok = bool(ent) and all(e is not None for e in ent) and ent[0][0] == 0 and ent[-1][1] == n - 1 and \
            all(a[1] + 1 == b[0] for a, b in zip(ent, ent[1:])) and all(a <= b for a, b in ent)
        o.check(ok, 'index', '{} index entries {} do not tile rows 0..{}'.format(ext, ent, n - 1))
        if ok:
            cov = np.asarray(got['covchain'])
            if not o.check(cov.shape == (sc.ns * len(ent), sc.ns), 'covblocks', '{} covariance log has shape {} for {} blocks'.format(ext, cov.shape, len(ent))):
                continue
            for b, (s, e) in enumerate(ent):
                C = cov[b * sc.ns:(b + 1) * sc.ns]
                cands = [c for j in range(s, min(e + 2, n)) for c in steps_R.get(j, [])]
                if any(c is None for c in cands) or not cands:
                    continue
                o.hit('covblocks')
                if len({id(c) for c in cands}) > 1 or len(steps_R['all']) > 1:
                    o.hit('adaptive_cov')
                if not any(near(C, c, 1e-6, 1e-7 * float(np.abs(np.diag(c)).max()) + 1e-15 * float(np.abs(want['chain']).max())**2) for c in cands):
                    o.bad('{} covariance logged with rows {}..{} is {} but the proposal then was {}'.format(ext, s, e, C.tolist(), cands[0].tolist()))


def proposals(tr, offset=0, into=None):
    """row -> reference proposal covariances in use after that row's step (None while undecided)."""
    out = into if into is not None else dict(all=[])
    ref = None
    key = None
    for s in shadow.walk(tr, offset=offset):
        ref = s.ref
        # state before this step = after the previous one
        C = None if s.ambiguous or s.nomatch else ref.R.T @ ref.R
        if C is not None and key is not None and eqn(C, key):
            C = key
        else:
            key = C
            if C is not None:
                out['all'].append(C)
        out.setdefault(s.row - 1, []).append(C)
    if ref is not None:
        C = None if ref.amb is not None else ref.R.T @ ref.R
        out.setdefault(s.row, []).append(key if C is not None and key is not None and eqn(C, key) else C)
    return out


def run_finished(case):
    o = Out()
    sc, exts, opts = setup(case)
    tr = rec.run_scen(sc, opts=opts)
    n = sc.opts['nsimu']
    R = proposals(tr) if n > 1 else dict(all=[])
    finished(o, sc, exts, opts, tr.res, R, n)
    o.hit('finished')
    if case['i'] % 3 == 1 and not o.viol:
        r = np.random.default_rng(case['seed'] + 1)
        for leg in range(1 + case['i'] % 2):
            n2 = int(r.choice([2, 5, 17, 40])) if case['i'] % 9 != 4 else 1 + leg
            new = dict(sc.opts, **opts)
            new.update(nsimu=n2, savesize=int(r.choice([0, 1, 5, 7, 1000])))
            tr.m.simulation_options.define_simulation_options(**new)
            sc2 = rec.copy_scen(sc, tr.chain[-1], dict(sc.opts, nsimu=n2))
            tr = rec.run_scen(sc2, m=tr.m, use_previous_results=True)
            off = n - 1
            n += n2 - 1
            R = proposals(tr, off, R)
            finished(o, sc, exts, opts, tr.res, R, n)
            o.hit('continued')
            if o.viol:
                break
    o.sig = sc.ident() + str((opts['savesize'], exts))
    o.sample = dict(scenario=sc.describe(), savesize=opts['savesize'], files=exts, rows=n)
    return o.done()


class Peek(rec.Marker):
    """Reads the logs back at every step."""
    def __init__(self, o, exts, opts, size, start):
        rec.Marker.__init__(self)
        self.o, self.exts, self.opts, self.size, self.rows = o, exts, opts, size, [start]

    def update(self, accept=None, isimu=None, current_set=None, **kw):
        done = len(self.rows)          # rows of all completed steps
        self.rows.append(np.array(current_set.theta, dtype=float, copy=True))
        for ext in self.exts:
            got = read(self.opts, ext)
            prefix(self.o, got['chain'], np.array(self.rows), self.size * ((done - 1) // self.size), done,
                   '{} log during step {}'.format(ext, isimu))
            ent = index_entries(self.opts, ext)
            self.o.check(not ent or ent[-1][1] + 1 == len(got['chain']), 'online', 'index {} but {} rows logged'.format(ent, len(got['chain'])))
        return rec.Marker.update(self, accept=accept, isimu=isimu, current_set=current_set, **kw)


def run_online(case):
    o = Out()
    sc, exts, opts = setup(case, nsimu=[17, 40][case['i'] % 2], marker=False)
    opts['savesize'] = [1, 3, 5, 8][case['i'] % 4]
    m = sc.build(opts=opts)
    m.custom_samplers.append(Peek(o, exts, opts, opts['savesize'], sc.th0[sc.par]))
    m.run_simulation()
    for ext in exts:
        prefix(o, read(opts, ext)['chain'], np.asarray(m.simulation_results.results['chain']), sc.opts['nsimu'], sc.opts['nsimu'],
               '{} log after the run'.format(ext))
    o.sig = sc.ident() + 'online' + str(opts['savesize'])
    return o.done()


class Fault(Exception):
    pass


class Trip(rec.Marker):
    """Interrupts the run in the chosen step, from the sampler or from the misfit."""
    def __init__(self, at, how, where):
        rec.Marker.__init__(self)
        self.at, self.how, self.where = at, how, where

    def go(self):
        with open('tripped', 'w') as f:
            f.write(str(self.n))
        if self.how == 'kill':
            os.kill(os.getpid(), signal.SIGKILL)
            time.sleep(10)
        elif self.how == 'exit':
            os._exit(9)
        elif self.how == 'raise':
            raise Fault('user function failed')
        elif self.how == 'sysexit':
            raise SystemExit(4)
        raise KeyboardInterrupt()

    def update(self, accept=None, isimu=None, current_set=None, **kw):
        if self.where == 'sampler' and self.n + 1 == self.at:
            self.go()
        return rec.Marker.update(self, accept=accept, isimu=isimu, current_set=current_set, **kw)


def run_interrupt(case):
    o = Out()
    i = case['i']
    nsimu = 26
    sc, exts, opts = setup(case, nsimu=nsimu, style=['ss_arr', 'ss_float', 'model'][i % 3])
    opts['savesize'] = [1, 4, 5, 8, 25, 26][i % 6]
    size = opts['savesize']
    base = opts['savedir']
    # the uninterrupted run
    opts['savedir'] = 'whole'
    tr = rec.run_scen(sc, opts=opts)
    want = dict(chain=tr.chain, sschain=tr.ss, s2chain=tr.s2)
    hows = ['kill', 'raise', 'exit', 'interrupt', 'sysexit']
    for at in range(1, nsimu):
        how = hows[(at + i) % 5]
        where = ['sampler', 'misfit'][(at // 5 + i) % 2]
        opts['savedir'] = base + '%d' % at
        if os.path.exists('tripped'):
            os.remove('tripped')
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                sc2 = rec.gen(case['seed'], **sc.want)
                sc2.marker = False
                trip = Trip(at, how, where)
                raw = sc2.misfit

                def misfit(theta):
                    if where == 'misfit' and trip.n + 1 >= at:
                        trip.go()
                    return raw(theta)
                sc2.misfit = misfit
                if sc2.style == 'model':
                    g = sc2._g

                    def _g(z):
                        if where == 'misfit' and trip.n + 1 >= at:
                            trip.go()
                        return g(z)
                    sc2._g = _g
                m = sc2.build(opts=opts)
                m.custom_samplers.append(trip)
                if where == 'misfit' and at == 1:
                    pass
                m.run_simulation()
            except (Fault, KeyboardInterrupt, SystemExit):
                rc = 5
            except BaseException:
                import traceback
                traceback.print_exc()
                rc = 77
            finally:
                os._exit(rc)
        _, st = os.waitpid(pid, 0)
        code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        if not o.check(code != 77, 'interrupted', 'the run to be interrupted at step {} ({}, {}) failed otherwise'.format(at, how, where)):
            break
        if not os.path.exists('tripped'):
            o.hit('nottripped')     # no evaluation after that step
            continue
        step = int(open('tripped').read()) + 1        # the step that was under way
        o.hit({'kill': 'killed', 'raise': 'raised'}.get(how, how))
        ran = 1 if (where == 'misfit' and at == 1) else None
        lo = size * ((step - 1) // size)
        for ext in exts:
            got = read(opts, ext)
            for f in FILES:
                if want[f] is None:
                    o.check(len(got[f]) == 0, 'none', 'a variance log exists although variances are not sampled')
                else:
                    prefix(o, got[f], want[f], 0 if ran else lo, step + 1, '{} log of {} after {} in the {} of step {} (block size {})'.format(
                        ext, f, how, where, step, size))
        o.sig.append(sc.ident() + str((at, how, where, size)))
        if o.viol:
            break
    o.sample = dict(scenario=sc.describe(), savesize=size, steps=nsimu - 1)
    return o.done()

"""Case runner, verdicts and evidence shared by all monitors.

A check module (checks/pNN.py) provides

    PROP, LEVEL, RULE, ASSUMPTIONS
    cases(tier, seed) -> list of small dicts (each fully determines one execution, with the code)
    run(case)         -> dict(viol=[str], obs={counter: int}, sig=str or [str], sample=..., stat=...)
    aggregate(results, tier) -> optional dict(viol=[(case, str)], obs={}, inconclusive=str)

Verdicts: 0 held on everything observed, 1 violated (with a replay file), 2 inconclusive
(nothing relevant was observed, or the machinery itself was starved).
"""
import argparse
import collections
import importlib
import json
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
FAILFAST = bool(os.environ.get('VERIF_FAILFAST'))
CASE_TIMEOUT = int(os.environ.get('VERIF_CASE_TIMEOUT', '300'))


class CaseTimeout(BaseException):
    pass


class Inconclusive(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def _short_tb(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ['{}:{}:{}'.format(os.path.basename(f.filename), f.lineno, f.name) for f in tb[-6:]]
    return ' <- '.join(reversed(where))


def run_one(mod, case):
    """Run one case in this process. Any exception on a valid scenario is itself a violation:
    every scenario of every check is valid input which the unchanged library accepts."""
    t0 = time.time()
    res = dict(viol=[], obs={}, sig=[], sample=None, stat=None)
    cwd = os.getcwd()
    scratch = tempfile.mkdtemp(prefix='vcase_')
    devnull = os.open(os.devnull, os.O_WRONLY)
    so, se = os.dup(1), os.dup(2)
    sys.stdout.flush()
    sys.stderr.flush()
    if not os.environ.get('VERIF_SHOW'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        os.chdir(scratch)
        case = dict(case, scratch=scratch)
        before = _read()
        out = mod.run(case)
        for k, v in out.items():
            res[k] = v
        for k, v in _read().items():
            if v > before.get(k, 0):
                res['obs'] = dict(res['obs'], **{'steps_' + k: v - before.get(k, 0)})
    except CaseTimeout:
        res['timeout'] = True
    except Inconclusive as ex:
        res['incon'] = str(ex)
    except (Exception, SystemExit) as ex:
        res['viol'] = ['unexpected {} from a valid scenario: {} [{}]'.format(
            type(ex).__name__, str(ex)[:300], _short_tb(ex))]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(so, 1)
        os.dup2(se, 2)
        for fd in (so, se, devnull):
            os.close(fd)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    if isinstance(res['sig'], str):
        res['sig'] = [res['sig']]
    res['wall'] = time.time() - t0
    return res


def _read():
    m = sys.modules.get('vlib.shadow')
    return dict(m.READ) if m else {}


def _worker(modname, caselist, conn):
    mod = importlib.import_module(modname)
    while True:
        try:
            ii = conn.recv()
        except EOFError:
            return
        if ii is None:
            conn.close()
            return
        try:
            res = run_one(mod, caselist[ii])
        except BaseException as ex:  # noqa
            res = dict(viol=[], obs={}, sig=[], sample=None, stat=None, incon='runner: {!r}'.format(ex), wall=0)
        conn.send((ii, res))


def run_all(modname, caselist, nproc):
    """Static fork workers, dynamic assignment, non-daemonic (cases may fork pools)."""
    results = [None] * len(caselist)
    ctx = mp.get_context('fork')
    pending = collections.deque(range(len(caselist)))
    live = {}

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(modname, caselist, b))
        p.daemon = False
        p.start()
        b.close()
        return p, a

    def feed(conn):
        if pending:
            ii = pending.popleft()
            conn.send(ii)
            return ii
        conn.send(None)
        return None

    for _ in range(min(nproc, len(caselist))):
        p, a = start()
        live[a] = [p, feed(a)]
    while live:
        for conn in mp.connection.wait(list(live), timeout=5):
            p, ii = live[conn]
            try:
                jj, res = conn.recv()
                results[jj] = res
                if FAILFAST and any(not v.startswith('[') for v in res['viol']):
                    pending.clear()         # development only: one violation is enough
                nxt = feed(conn)
                if nxt is None:
                    p.join()
                    del live[conn]
                else:
                    live[conn][1] = nxt
            except (EOFError, OSError):
                p.join()
                del live[conn]
                if ii is not None and results[ii] is None:
                    results[ii] = dict(viol=[], obs={}, sig=[], sample=None, stat=None, wall=0,
                                       incon='worker died (exit {})'.format(p.exitcode))
                if pending:
                    p2, a2 = start()
                    live[a2] = [p2, feed(a2)]
    return results


def load_known():
    """KNOWN_FINDINGS.txt: 'known: property=<id> key=<mechanism> <text>' lines suppress violations whose
    message starts with '[key] '; 'fixed:' lines suppress nothing."""
    known = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--slow', action='store_true')
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    pid = a.prop.upper()
    modname = 'checks.' + pid.lower()
    from . import rec  # installs the recorders, imports the library from REPO
    mod = importlib.import_module(modname)
    assert mod.PROP == pid
    os.makedirs(EVID, exist_ok=True)
    if a.replay:
        rp = json.load(open(a.replay))
        clist = [rp['case']]
    else:
        clist = mod.cases(tier, seed)
        frac = float(os.environ.get('VERIF_FRACTION', '1'))      # development only
        if frac < 1:
            pick = random.Random(7)
            clist = [c for c in clist if pick.random() < frac]
            mod.REQUIRE = {}
    results = run_all(modname, clist, a.jobs) if not a.replay else [run_one(mod, clist[0])]
    if FAILFAST:
        clist, results = zip(*[(c, r) for c, r in zip(clist, results) if r is not None])
    known = load_known()
    viol, incon, hits = [], [], {}

    def add(case, msg):
        m = re.match(r'\[([\w.-]+)\] ', msg)
        if m and (pid, m.group(1)) in known:
            hits[m.group(1)] = hits.get(m.group(1), 0) + 1
            return
        viol.append((case, msg))

    obs = collections.Counter()
    sigs = set()
    samples = []
    for case, res in zip(clist, results):
        for msg in res['viol']:
            add(case, msg)
        if res.get('timeout'):
            incon.append('case {} exceeded {} s'.format(case, CASE_TIMEOUT))
        if res.get('incon'):
            incon.append('case {}: {}'.format(case, res['incon']))
        obs.update(res['obs'])
        sigs.update(res['sig'])
        if res['sample'] is not None and len(samples) < 5:
            samples.append(res['sample'])
    if hasattr(mod, 'aggregate'):
        agg = mod.aggregate(results, tier, clist)
        for case, msg in agg.get('viol', []):
            add(case, msg)
        obs.update(agg.get('obs', {}))
        if agg.get('inconclusive') and not a.replay:
            incon.append(agg['inconclusive'])
    need = getattr(mod, 'REQUIRE', {})
    if not a.replay and not viol:
        # counters that need the random stream to be readable are not asked for when the library draws in another way:
        # the distributional tests decide then
        blind = obs['steps_unread'] > obs['steps_read']
        for k, v in need.items():
            if blind and k in getattr(mod, 'STREAM', ()):
                continue
            if obs[k] < v:
                incon.append('monitor counter {} = {} < {}'.format(k, obs[k], v))
    for key, n in sorted(hits.items()):
        print('KNOWN-FINDING: property={} {} (seen in {} executions)'.format(pid, known[(pid, key)], n))
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=dict(evaluations=len(clist), distinct_nontrivial=len(sigs), rule=mod.RULE,
                            samples=samples or ['(none)'], observed=dict(sorted(obs.items()))),
              assumptions=list(mod.ASSUMPTIONS), wall_s=round(wall, 2), violations=len(viol))
    if not a.replay and not FAILFAST:
        with open(os.path.join(EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    if a.slow:
        for w, c in sorted([(r['wall'], str(c)) for r, c in zip(results, clist)], reverse=True)[:8]:
            print('slow', round(w, 2), c)
    if viol:
        rpath = os.path.join(EVID, '{}.replay.json'.format(pid))
        case, msg = viol[0]
        if not a.replay and not FAILFAST:
            with open(rpath, 'w') as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, case=case, message=msg,
                               all=[m for _, m in viol[:50]],
                               how='./run.sh {} --replay {}'.format(pid, rpath)), f, indent=1, default=str)
        else:
            rpath = a.replay
        print('VIOLATION property={} replay={}'.format(pid, rpath))
        for case, msg in viol[:8]:
            print('  case {}: {}'.format({k: v for k, v in case.items()}, msg))
        print('  {} violation(s) in {} executions, {:.1f} s'.format(len(viol), len(clist), wall))
        return 1
    if incon:
        print('INCONCLUSIVE property={} ({} reasons)'.format(pid, len(incon)))
        for m in incon[:8]:
            print('  ' + str(m)[:600])
        return 2
    print('HELD property={} on {} executions ({} distinct), observed {}; {:.1f} s'.format(
        pid, len(clist), len(sigs), dict(sorted(obs.items())), wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())

"""First-stage acceptance: recorded uniform against the Metropolis probability of the recorded state."""
import math

import numpy as np

from vlib import rec, shadow
from .common import Out, binom_z, count, eqn, seeds

PROP = 'P03'
LEVEL = 'exploration'
RULE = 'distinct configurations whose first-stage decisions were all re-decided from the recorded uniform draws'
ASSUMPTIONS = ['decisions within 1e-6 (log scale) of the threshold are not judged',
               'if no uniform draw can be attributed to a decision, acceptance is tested as a martingale (6 sigma)']
REQUIRE = {'decisions': 3000, 'nonfinite': 20, 'prior_args': 200}
STREAM = ('decisions', 'nonfinite')


def cases(tier, seed):
    out = seeds(seed, count(tier, 400, 6000), 3)
    for c in out:
        w = {}
        k = c['i'] % 8
        if k == 0:
            w = dict(pstyle='default', pmode='gauss')
            if c['i'] // 8 % 5 == 3:
                w.update(narrow=True, pstyle=['default', 'fn_arr'][c['i'] // 40 % 2])
        elif k == 1:
            w = dict(updatesigma=True, nsos=3, nsimu=250)
        elif k == 2:
            w = dict(hole=['nan', 'inf'][c['i'] // 8 % 2], style='ss_arr', startspread=.3, qfac=(0, 2), nsimu=250)
        elif k == 3:
            w = dict(pstyle=['fn_float', 'fn_arr', 'fn_reuse', 'fn_mutate'][c['i'] // 8 % 4], phole=c['i'] // 8 % 3 == 0)
        elif k == 4:
            w = dict(method='dram', bounds='tight', pmode='mixed')
        elif k == 5:
            w = dict(method='am', updatesigma=True, adaptint=10)
        elif k == 6:
            w = dict(hole=['nan', 'inf'][c['i'] // 8 % 2], style='ss_arr', startspread=.3, qfac=(0, 2), nsimu=150, updatesigma=False,
                     pstyle=['default', 'fn_arr'][c['i'] // 16 % 2], phole=True)
            c['zero'] = True
        elif c['i'] // 8 % 3 == 1:
            w = dict(s2mode='scalar', flat=[1, 2, 3, 4][c['i'] // 24 % 4], hole=None, pmode='flat', updatesigma=False, nsimu=250,
                     bounds='none')
            c['zero'] = 'high'
        elif c['i'] // 8 % 5 == 0:
            w = dict(nsimu=[1300, 2400][c['i'] // 40 % 2], adaptint=[None, 100][c['i'] // 80 % 2])
        c['want'] = w
    return out


def judge(o, dec):
    """dec: list of (step, alpha, u or None, accepted). Either convention for the uniform draw is fine as long as one
    explains all decisions of the run."""
    withu = [d for d in dec if d[2] is not None]
    bad = []
    for conv in (lambda u: u, lambda u: 1 - u):
        b = []
        for i, a, u, acc in withu:
            v = conv(u)
            if v <= 0:          # below every positive probability, including those that underflow
                continue
            if a <= 0:
                if acc:
                    b.append((i, a, u, acc))
                continue
            if abs(math.log(v) - math.log(a)) < 1e-6:
                continue
            if (v < a) != acc:
                b.append((i, a, u, acc))
        bad.append(b)
    b = min(bad, key=len)
    o.hit('decisions', len(withu))
    for i, a, u, acc in b[:3]:
        o.bad('step {}: acceptance probability {:.6g}, uniform {:.6g}, but {}'.format(i, a, u, 'accepted' if acc else 'rejected'))
    nou = [d for d in dec if d[2] is None]
    for i, a, u, acc in nou:
        if a >= 1 - 1e-9:
            o.hit('decisions')
            if not acc:
                o.bad('step {}: candidate with acceptance probability 1 was rejected'.format(i))
        elif withu and acc and a < 1 - 1e-6:
            o.hit('decisions')
            o.bad('step {}: accepted with probability {:.6g} without any random decision'.format(i, a))
    if not withu:
        return [(a, bool(acc)) for i, a, u, acc in nou if a < 1]
    return []


def run(case):
    o = Out()
    sc = rec.gen(case['seed'], **case['want'])
    with rec.zeros(case.get('zero'), case['seed']):
        tr = rec.run_scen(sc)
    dec = []
    for s in shadow.walk(tr):
        if s.parsed:
            st = s.stages[0]
            if st['ss'] is None:
                continue
            acc = s.accept and len(s.stages) == 1
            e, u = st['ss'], st['u']
        elif sc.ntry == 1 and s.evals:
            e, u, acc = s.evals[0], None, s.accept
        else:
            continue
        lp = shadow.logpost(sc, e[2], e[1][sc.par], s.s2)
        d = lp - s.old_lp
        if math.isnan(d) or lp == -math.inf:
            o.hit('zero_uniform', u == 0.)
            o.check(not acc, 'nonfinite', 'step {}: candidate with log posterior {} was accepted'.format(s.i, lp))
            continue
        a = math.exp(min(0., d))
        o.hit('close', u is not None and .9 < a < 1 and not acc)
        dec.append((s.i, a, u, acc))
    o.stat = judge(o, dec)
    if case.get('zero'):
        o.stat = []     # not the distribution of the stream
    for e in tr.ev:
        if e[0] == 'prior':
            o.check(eqn(e[2].reshape(-1), sc.mu[sc.par]) and eqn(e[3].reshape(-1), sc.sig[sc.par]), 'prior_args',
                    'prior called with mu {} sigma {}'.format(e[2], e[3]))
    o.sig = sc.ident()
    o.sample = dict(scenario=sc.describe(), decisions=len(dec), accepted=sum(d[3] for d in dec),
                    uncertain=sum(1e-3 < d[1] < .999 for d in dec))
    return o.done()


def aggregate(results, tier, clist):
    a = [x for r in results for x in (r['stat'] or [])]
    if not a:
        return {}
    z = binom_z([x[1] for x in a], [x[0] for x in a])
    v = [(clist[0], 'acceptance differs from its probability over {} decisions (z = {:.1f})'.format(len(a), z))] if abs(z) > 6 else []
    return dict(viol=v, obs=dict(decisions=len(a)))

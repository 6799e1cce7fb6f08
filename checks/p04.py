"""Delayed rejection: stages and acceptance re-decided from the recorded draws with the reference probability."""
import math

import numpy as np

from vlib import rec, shadow
from .common import Out, binom_z, count, seeds
from .p03 import judge

PROP = 'P04'
LEVEL = 'exploration'
RULE = 'distinct delayed-rejection configurations whose later-stage decisions were re-decided'
ASSUMPTIONS = ['decisions within 1e-6 (log scale) of the threshold are not judged',
               'an unevaluated out-of-bounds candidate is reconstructed from the recorded normals']
REQUIRE = {'stages': 2000, 'rejected_all_stages': 300}
STREAM = ('stages', 'rejected_all_stages')


def cases(tier, seed):
    out = seeds(seed, count(tier, 400, 6000), 4)
    for c in out:
        w = dict(method='dr', ntry=[2, 3, 4, 5, 3, 2, 6][c['i'] % 7], qfac=(0, 3.5), nsimu=[60, 150, 250][c['i'] % 3])
        k = c['i'] // 5 % 6
        if k == 0:
            w.update(bounds='tight')
        elif k == 1:
            w.update(bounds='none', hole=None)
        elif k == 2:
            w.update(updatesigma=True, nsos=2)
        elif k == 3:
            w.update(method='dram', adaptint=[10, 20][c['i'] % 2])
        elif k == 4:
            w.update(rdr=True)
        elif k == 5:
            w.update(method=['mh', 'am'][c['i'] % 2], hole='nan' if c['i'] % 3 else 'inf', style='ss_arr')
        if k in (1, 5) and c['i'] // 30 % 2:
            w.update(hole=['nan', 'inf'][c['i'] % 2], style='ss_arr', updatesigma=False, startspread=.3)
            c['zero'] = True
        elif c['i'] % 9 == 4:
            w.update(s2mode='scalar', flat=[1, 2, 3, 4][c['i'] // 9 % 4], hole=None, pmode='flat', updatesigma=False, nsimu=250)
            c['zero'] = 'high'
        c['want'] = w
    return out


def run(case):
    o = Out()
    sc = rec.gen(case['seed'], **case['want'])
    with rec.zeros(case.get('zero'), case['seed']):
        tr = rec.run_scen(sc)
    unlimited = not np.isfinite(sc.lo[sc.par]).any() and not np.isfinite(sc.hi[sc.par]).any()
    dec = []
    nstage = {}
    short, seen = [], 0
    for s in shadow.walk(tr):
        # stage structure, independent of the random-stream layout
        o.check(len(s.evals) <= sc.ntry, 'steps', 'step {}: {} evaluations for {} stages'.format(s.i, len(s.evals), sc.ntry))
        if unlimited and not s.accept:
            o.check(len(s.evals) == sc.ntry, 'rejected_all_stages',
                    'step {}: rejected after {} of {} stages'.format(s.i, len(s.evals), sc.ntry))
        if s.accept and s.evals:
            o.check(np.array_equal(s.evals[-1][1][sc.par], s.new), 'accepted_last',
                    'step {}: stages followed an acceptance'.format(s.i))
        if not s.parsed and unlimited and s.evals and not s.ambiguous and len(s.evals) <= sc.ntry:
            # the draws cannot be attributed, but without limits every stage is evaluated
            path = [(s.old, s.old_lp)]
            for k, e in enumerate(s.evals):
                lp = shadow.logpost(sc, e[2], e[1][sc.par], s.s2)
                path.append((e[1][sc.par], lp))
                acc = s.accept and k + 1 == len(s.evals)
                if math.isnan(lp) or lp == -math.inf:
                    o.check(not acc, 'nonfinite', 'step {} stage {}: candidate with log posterior {} accepted'.format(s.i, k + 1, lp))
                elif k:
                    a = shadow.dr_alpha(path, s.factors)
                    if not math.isnan(a) and not shadow.dr_edge(path, s.factors):
                        dec.append(('{} stage {}'.format(s.i, k + 1), a, None, acc))
        if not s.parsed:
            nn = sum(e[0] == 'n' and e[1].size == sc.ns for e in s.events)
            if nn and not s.accept and not (sc.updatesigma and sc.ns == 1):
                short.append('step {}: rejected after {} proposals, {} stages requested'.format(s.i, nn, sc.ntry))
            continue
        seen += bool(s.stages[0]['match'])
        if not s.accept:
            o.hit('rejected_all_stages')
        if s.ambiguous or s.stages[0]['match'] is False:
            o.hit('unclear_proposal')
            continue
        path = [(s.old, s.old_lp)]
        for k, st in enumerate(s.stages):
            if st['obs'] is None:
                if st['pred_in']:
                    break        # not what was proposed, or a rounding tie: P02 decides
                path.append((st['pred'], -math.inf))
                continue
            if k >= 1:
                ok = shadow.same_draw(st['obs'], s.old, st['z'], s.factors[k])
                o.check(ok, 'candidates', 'step {} stage {}: candidate {} is not the current state {} plus its normals {} times '
                        'the stage factor {}'.format(s.i, k + 1, st['obs'], s.old, st['z'], s.factors[k].tolist()))
                if not ok:
                    break
            lp = shadow.logpost(sc, st['ss'][2], st['obs'], s.s2)
            path.append((st['obs'], lp))
            acc = s.accept and k + 1 == len(s.stages)
            if k == 0:
                continue
            o.hit('stages')
            nstage[k] = nstage.get(k, 0) + 1
            if math.isnan(lp) or lp == -math.inf:
                o.hit('zero_uniform', st['u'] == 0.)
                o.check(not acc, 'nonfinite', 'step {} stage {}: candidate with log posterior {} accepted'.format(s.i, k + 1, lp))
                continue
            a = shadow.dr_alpha(path, s.factors)
            if math.isnan(a):
                o.hit('undefined')
                continue
            if shadow.dr_edge(path, s.factors):
                o.hit('edge')
                continue
            o.hit('close', shadow.dr_alpha(path[:2], s.factors) > .9)
            dec.append(('{} stage {}'.format(s.i, k + 1), a, st['u'], acc))
    for m in short if seen > 2 else []:      # the normals are known to be proposals
        o.bad(m)
    o.stat = judge(o, dec)
    if case.get('zero'):
        o.stat = []     # not the distribution of the stream
    for k, n in nstage.items():
        o.hit('stage%d' % (k + 1), n)
    o.sig = sc.ident()
    o.sample = dict(scenario=sc.describe(), later_stage_decisions=len(dec), accepted=sum(d[3] for d in dec),
                    uncertain=sum(1e-3 < d[1] < .999 for d in dec))
    return o.done()


def aggregate(results, tier, clist):
    a = [x for r in results for x in (r['stat'] or [])]
    if not a:
        return {}
    z = binom_z([x[1] for x in a], [x[0] for x in a])
    v = [(clist[0], 'acceptance differs from its probability over {} decisions (z = {:.1f})'.format(len(a), z))] if abs(z) > 6 else []
    return dict(viol=v)

"""C23: the evaluation of success, asked at any point of simulated runs."""
import math
import sys

import numpy as np

import cbx.utils.success as csuc

from . import model, world as worldmod
from .checks import Check, register, bad, gen_case, key
from .faults import outcome, first_diff
from .observe import FaultyOut, value, reg_part
from .twins import Recorder
from .util import Violation, pick, h64, same, arr
from .world import World, make_exc


class Own:
    """a criterion of the caller"""

    def __init__(self, spec, M):
        self.spec = spec
        idx = [r for r in spec['idx'] if r < M]
        kind = spec.get('as', 'array')
        self.idx = {'array': np.array(idx, dtype=int), 'list': list(idx), 'tuple': tuple(idx),
                    'twice': np.array(idx + idx[::-1], dtype=int), 'ro': np.array(idx, dtype=int)}[kind]
        if kind == 'ro':
            self.idx.setflags(write=False)
        self.good = set(idx)
        self.n = 0
        self.fail = spec.get('fail')
        self.exc = spec.get('exc', 'Injected')

    def __call__(self, dyn):
        self.n += 1
        if self.fail is not None and self.n == self.fail + 1:
            raise make_exc(self.exc, 'criterion')
        return {'idx': self.idx}


def dist(p, u):
    u = [abs(float(t)) for t in u]
    if p == math.inf:
        return max(u)
    if p == 1:
        return math.fsum(u)
    return math.sqrt(math.fsum(t * t for t in u))


@register
class C23(Check):
    id = 'C23'
    extra = ('reg', 'resample', 'prox', 'sched', 'post', 'obs')
    quick = 15000
    thorough = 300000
    real = Check.real + ['cbx.utils.success']
    stub = Check.stub + ['stdout']
    rule = ('Simulated runs (batches, per-run termination, injected answers) are stopped at random steps and at their end, and asked which runs '
            'are successful: distances in three norms, values, criteria of the caller, thresholds at and next to the boundary; the output, a criterion '
            'or the objective fail at random calls. Non-trivial: a step was taken.')

    def gen(self, rng):
        c = gen_case(rng, max_steps=5, x_none=.05, heavy_draws=False, multi_d=True, p_multi=.35)
        c.pop('mode', None)
        M = c['M']
        crits = []
        for _ in range(int(pick(rng, [1, 2, 3], [3, 2, 1]))):
            k = pick(rng, ['dist', 'value', 'own'], [3, 3, 1])
            if k == 'dist':
                crits.append({'k': 'dist', 'at': int(rng.integers(0, M)), 'off': [round(float(v), 3) for v in rng.normal(size=2) * pick(rng, [0., .1, 2.])],
                              'p': pick(rng, ['inf', 2, 1]), 'q': int(rng.integers(0, M)), 'edge': pick(rng, ['in', 'out', 'mid', 'exact', 'default'], [2, 2, 2, 2, 1]),
                              'shape': pick(rng, ['d', '1d', 'ro'], [4, 1, 1])})
            elif k == 'value':
                crits.append({'k': 'value', 'q': int(rng.integers(0, M)), 'edge': pick(rng, ['in', 'out', 'exact', 'default', 'inf'], [2, 2, 3, 1, .5])})
            else:
                crits.append({'k': 'own', 'idx': sorted(int(r) for r in range(M) if rng.random() < .6), 'as': pick(rng, ['array', 'list', 'tuple', 'twice', 'ro'])})
                if rng.random() < .3:
                    crits[-1].update(fail=int(rng.integers(0, 3)), exc=pick(rng, ['Injected', 'KeyboardInterrupt', 'KeyError', 'StopIteration', 'IndexError']))
        c['crits'] = [q for q in crits if q.get('exc') != 'KeyError'] or crits[:1]
        for q in c['crits']:
            if q.get('exc') == 'KeyError':
                q['exc'] = 'ValueError'
        c['stops'] = sorted(int(rng.integers(1, 5)) for _ in range(int(pick(rng, [0, 1, 2]))))
        v = pick(rng, [None, 0, 1, 2], [2, 2, 1, 1])
        c['say'] = v
        if v != 0 and rng.random() < .2:
            c['out'] = int(rng.integers(0, 12))
            c['exc'] = pick(rng, ['OSError', 'KeyboardInterrupt', 'ValueError'])
        if rng.random() < .1 and any(q['k'] == 'value' for q in c['crits']):
            c['objfail'] = {'n': int(rng.integers(0, 2 * M)), 'exc': pick(rng, ['Injected', 'KeyboardInterrupt', 'ValueError', 'OverflowError'])}
            if c['objfail']['exc'] == 'OverflowError':
                c['objfail']['exc'] = 'FloatingPointError'
        elif rng.random() < .15:        # other answers when it is asked again
            c['again'] = [{'n': int(rng.integers(0, 3 * M)), 'v': pick(rng, ['nan', 'inf', '-inf', '0'])} for _ in range(2)]
        return c

    # -------------------------------------------------------------------------------
    def run(self, case, stats):
        w = World(case, [], stats)
        worldmod.MADE.clear()
        w.build()
        self.own = [Own(q, case['M']) if q['k'] == 'own' else None for q in case['crits']]
        self.prepare(case, w)
        n = 0
        for s in case['stops']:
            if s <= n:
                continue
            w.drive(max_steps=s - n)
            n = s
            self.ask(case, w, stats, 'after step %d' % w.steps)
            if w.steps < n:
                break
        w.drive()
        self.ask(case, w, stats, 'at the end')
        self.ask(case, w, stats, 'at the end, again')
        if not case.get('again') and not case.get('objfail'):
            v = World(case, [], stats)
            v.run()
            a, b = outcome(w), outcome(v)
            for o in (a, b):
                o.pop('asked', None)
            k = first_diff(a, b)
            if k:
                bad('passive', 'asking for the success changed %s of the run', k)
            stats['reach.passive_twins'] += 1
        return h64(w.signature(), case['crits'], case['stops']), w.simtime(), w.steps > 0

    def prepare(self, case, w):
        """answers and failures of the objective while it is asked by a criterion"""
        self.asking = None
        self.count = 0
        one = w.obj.one
        again = {a['n']: float(a['v']) for a in case.get('again') or []}
        fail = case.get('objfail')

        def answer(v):
            if self.asking is None:
                return one(v)
            i, self.count = self.count, self.count + 1
            if fail and fail['n'] == i:
                w.stats['fault.objective_raises'] += 1
                raise make_exc(fail['exc'], 'objective')
            f = w.obj.scalar(v)
            if i in again:
                w.stats['fault.objective_value_' + str(again[i])] += 1
                f = again[i]
            self.asking.append((np.array(v, dtype=float), f))
            return f
        w.obj.one = answer

    def ask(self, case, w, stats, when):
        M, d = case['M'], tuple(case['d'])
        best = arr(w.dyn.best_particle)
        crits, good, self.fuzzy = [], [], set()
        values = []
        for q, own in zip(case['crits'], self.own):
            if q['k'] == 'dist':
                p = math.inf if q['p'] == 'inf' else q['p']
                n = int(np.prod(d))
                t = best[q['at']].ravel() + np.resize(np.array(q['off']), n)
                D = [dist(p, best[r].ravel() - t) for r in range(M)]
                e = D[q['q']]
                tol = {'in': e * (1 + 1e-6) + 1e-9, 'out': e * (1 - 1e-6) - 1e-9, 'mid': (min(D) + max(D)) / 2, 'exact': e, 'default': .25}[q['edge']]
                if not math.isfinite(tol):
                    tol = 1.
                x = t.reshape((1,) + d if q.get('shape') == '1d' else d)
                if q.get('shape') == 'ro':
                    x.setflags(write=False)
                kw = {} if q['edge'] == 'default' else {'tol': tol}
                if p != math.inf or q['at'] % 2:
                    kw['p'] = p
                cr = csuc.dist_to_min(x, **kw)
                good.append({r for r in range(M) if D[r] < tol})
                if p != math.inf:       # up to rounding
                    self.fuzzy |= {r for r in range(M) if abs(D[r] - tol) <= 1e-12 * (1 + abs(tol)) + 4e-16 * float(np.abs(best[r]).max())}
                res = self.direct(lambda: csuc.dist_to_min_success(best.copy(), x, **dict(kw)))
                for r in range(M):
                    if not abs(float(res['normdiff'][r]) - D[r]) <= 1e-9 * (1 + D[r]):
                        bad('distance', '%s: the distance of run %d is %r, reported is %r', when, r, D[r], float(res['normdiff'][r]))
            elif q['k'] == 'value':
                V = [value(w, r, best[r].ravel()) for r in range(M)]
                e = V[q['q']]
                if e != e:
                    e = 1.
                th = {'in': e + 1e-6 * (1 + abs(e)), 'out': e - 1e-6 * (1 + abs(e)), 'exact': e, 'default': .1, 'inf': math.inf}[q['edge']]
                cr = csuc.value_thresh() if q['edge'] == 'default' else csuc.value_thresh(thresh=th)
                values.append((len(crits), th))
                good.append(None)
            else:
                cr = own
                good.append(own.good)
            crits.append(cr)
        kw = {} if case['say'] is None else {'verbosity': case['say']}
        ev = csuc.evaluation(criteria=crits, **kw) if M % 2 else csuc.evaluation(crits, **kw)
        S = w.snap()
        ask0 = w.obj.F, len(w.obj.F)
        out = FaultyOut(case.get('out'), case.get('exc', 'OSError'))
        worldmod.MADE.clear()
        self.asking = []
        old, sys.stdout = sys.stdout, out
        got = None
        try:
            res = ev(w.dyn)
        except Violation:
            raise
        except BaseException as e:
            if not worldmod.MADE:
                raise Violation('crash:' + type(e).__name__, '%s: the evaluation raised %s: %s' % (when, type(e).__name__, e)) from e
            got = e
        finally:
            sys.stdout = old
            asked, self.asking = self.asking, None
        if worldmod.MADE:
            made = worldmod.MADE[-1]
            if got is None:
                bad('swallowed', '%s: %r was raised while the success was evaluated, but the evaluation went on', when, made)
            if got is not made:
                bad('changed', '%s: %r was raised while the success was evaluated, the caller was given %r', when, made, got)
            stats['reach.failed_evaluation'] += 1
        T = w.snap()
        for k in worldmod.SNAP:
            if k in S and not (k in T and same(S[k], T[k])):
                bad('passive', '%s: %s changed while the success was evaluated', when, k)
        if got is not None:
            return
        # what was asked: the best particle of every run
        known = len(asked) // M
        if len(asked) % M or known > len(values):
            bad('asked', '%s: the objective was evaluated at %d points for %d runs', when, len(asked), M)
        for i, _ in values[known:]:         # there is no need to ask when no run is left
            good[i] = set(range(M))
        for j, (i, th) in enumerate(values[:known]):
            part = asked[j * M:(j + 1) * M]
            g = set()
            for r in range(M):
                v, f = part[r]
                if key(v) != key(best[r]):
                    bad('asked', '%s: the value of run %d was taken at %s instead of its best particle %s', when, r, v, best[r].ravel())
                reg = reg_part(w, r, v)
                f2 = f + reg
                if reg != 0 and abs(f2 - th) <= 1e-9 * (1 + abs(th)):
                    self.fuzzy.add(r)
                if f2 < th:
                    g.add(r)
            good[i] = g
        want = set(range(M)).intersection(*good)
        if known < len(values) and want:
            bad('asked', '%s: the objective was evaluated at %d points for %d criteria and %d runs', when, len(asked), len(values), M)
        idx = [int(i) for i in res['idx']]
        for r in range(M):
            if (r in idx) != (r in want) and r not in self.fuzzy:
                bad('classification', '%s: run %d %s the criteria %s, but it was %s as a success', when, r, 'meets' if r in want else 'does not meet',
                    case['crits'], 'not counted' if r in want else 'counted')
        if idx != sorted(set(idx)):
            bad('idx', '%s: the successful runs are listed as %s', when, idx)
        if int(res['num']) != len(idx) or abs(float(res['rate']) - len(idx) / M) > 1e-12:
            bad('rate', '%s: %d of %d runs are successful, reported are %r and a rate of %r', when, len(idx), M, res['num'], res['rate'])
        text = out.getvalue()
        if case['say'] == 0:
            if text:
                bad('output', '%s: with verbosity 0, this was printed: %r', when, text[:100])
        elif str(res['rate']) not in text or str(res['idx']) not in text or str(res['num']) not in text:
            bad('output', '%s: the results are not in the output %r', when, text[:200])
        stats['reach.evaluations'] += 1
        stats['reach.successes'] += len(idx)
        stats['reach.failures'] += M - len(idx)

    def direct(self, fn):
        try:
            return fn()
        except Exception as e:
            raise Violation('crash:' + type(e).__name__, 'the distance raised %s: %s' % (type(e).__name__, e)) from e

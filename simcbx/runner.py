"""Runs the cases of a property in forked workers, minimises and confirms violations, writes
evidence. The outcome of a case depends on nothing but the case and the code of the library."""
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

WORKERS = int(os.environ.get('SIM_WORKERS', '8'))
WALL = {'quick': 780, 'thorough': 6 * 3600}
CASE_WALL = 60


def main(argv, repo, here):
    try:
        import numpy, scipy.special, matplotlib.pyplot, torch  # noqa: F401,E401
        sys.pycache_prefix = os.path.join(here, 'out', 'no-pycache')    # never load bytecode of an older tree
        import cbx
        path = os.path.realpath(cbx.__file__)
        if not path.startswith(os.path.realpath(repo) + os.sep):
            print('ERROR: cbx was imported from %s, not from %s' % (path, repo))
            return 2
        import cbx.dynamics, cbx.plotting, cbx.utils.torch_utils  # noqa: F401,E401
        sys.pycache_prefix = None
        from . import checks
    except Exception:
        traceback.print_exc()
        print('ERROR: the library could not be imported')
        return 2
    if argv and argv[0] == '--selftest':
        return selftest(int(argv[1]) if len(argv) > 1 else 40)
    if not argv or argv[0] not in checks.REGISTRY:
        print('usage: check.py ID [--replay FILE]; ids:', ' '.join(sorted(checks.REGISTRY)))
        return 2
    check = checks.REGISTRY[argv[0]]
    if len(argv) > 2 and argv[1] == '--replay':
        return replay(check, argv[2])
    return Run(check, repo, here).main()


# -- one case ----------------------------------------------------------------------------
class Outcome:
    __slots__ = ('kind', 'cls', 'msg', 'sig', 'time', 'nontrivial', 'index')

    def __init__(self, kind, cls=None, msg=None, sig=None, t=0., nontrivial=False):
        self.kind, self.cls, self.msg, self.sig, self.time, self.nontrivial = kind, cls, msg, sig, t, nontrivial
        self.index = None


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def run_case(check, case, stats):
    from .util import Violation, HarnessError
    from .world import quiet, MADE
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_WALL)
    try:
        with quiet():
            sig, t, nt = check.run(json.loads(json.dumps(case)), stats)
        return Outcome('ok', sig=sig, t=t, nontrivial=nt)
    except Violation as v:
        return Outcome('violation', v.cls, str(v))
    except CaseTimeout as e:
        if in_library(e):
            return Outcome('violation', 'hang', 'the library did not return within %d s' % CASE_WALL)
        return Outcome('error', 'timeout', 'the case did not end within %d s' % CASE_WALL)
    except HarnessError as e:
        return Outcome('error', 'harness', ''.join(traceback.format_exception(e))[-3000:])
    except BaseException as e:
        if in_library(e) and not any(e is m for m in MADE):
            return Outcome('violation', 'crash:' + type(e).__name__, 'the library raised %s: %s' % (type(e).__name__, str(e)[:200]))
        if isinstance(e, (LookupError, TypeError, ValueError, AttributeError)) and not any(e is m for m in MADE):
            # what the library did does not even have the form the oracle reads (shapes, rows, entries missing)
            return Outcome('violation', 'malformed:' + type(e).__name__, 'the observed state cannot be read: %s at %s' % (
                str(e)[:200], traceback.extract_tb(e.__traceback__)[-1]))
        return Outcome('error', type(e).__name__, ''.join(traceback.format_exception(e))[-3000:])
    finally:
        signal.alarm(0)


def in_library(e):
    import cbx
    root = os.path.dirname(os.path.realpath(cbx.__file__)) + os.sep
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def case_for(check, seed, i):
    from .util import rng_for
    return json.loads(json.dumps(check.gen(rng_for(seed, check.id, i))))


# -- forked workers ----------------------------------------------------------------------
def spawn(fn, *args):
    """fn(*args) in a forked child; returns (pid, read end)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            data = pickle.dumps(fn(*args))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    return pid, r


def in_child(fn, *args, wall=120):
    pid, r = spawn(fn, *args)
    buf, end = b'', time.time() + wall
    while True:
        ready, _, _ = select.select([r], [], [], max(0., end - time.time()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(buf)
    except Exception:
        return None


def do_chunk(check, seed, lo, hi):
    stats, outs = Counter(), []
    for i in range(lo, hi):
        try:
            case = case_for(check, seed, i)
        except BaseException as e:
            o = Outcome('error', 'generator', ''.join(traceback.format_exception(e))[-3000:])
        else:
            o = run_case(check, case, stats)
        o.index = i
        outs.append(o)
        if o.kind == 'violation' and not known_key(check, case, o):
            break
    return stats, outs


KNOWN = {}


def load_known(here):
    KNOWN.clear()
    p = os.path.join(here, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding:'):
                f = dict(t.split('=', 1) for t in line.split()[1:3])
                KNOWN[(f['property'], f['key'])] = line.split(None, 3)[3].strip()


def known_key(check, case, o):
    k = check.known(case, o.cls, o.msg)
    return k if k is not None and (check.id, k) in KNOWN else None


class Run:
    def __init__(self, check, repo, here):
        self.check, self.repo, self.here = check, repo, here
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = 'thorough' if os.environ.get('VERIF_TIER', 'quick') == 'thorough' else 'quick'
        self.t0 = time.time()
        self.out = os.path.join(here, 'out')
        os.makedirs(self.out, exist_ok=True)
        os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)

    def main(self):
        check, ck = self.check, self.check.id
        load_known(self.here)
        total = int(os.environ.get('SIM_CASES', getattr(check, self.tier)))
        print('%s seed=%d tier=%s cases=%d' % (ck, self.seed, self.tier, total), flush=True)
        stats, sigs = Counter(), set()
        n = nontrivial = 0
        simtime = 0.
        violations, errors, knowns = [], [], Counter()
        samples = []
        jobs = [(lo, min(lo + check.chunk, total)) for lo in range(0, total, check.chunk)]
        live, next_job, timed_out = {}, 0, False
        deadline = self.t0 + WALL[self.tier]
        while live or (next_job < len(jobs) and not violations and not timed_out and len(errors) < 20):
            while len(live) < WORKERS and next_job < len(jobs) and not violations and not timed_out and len(errors) < 20:
                lo, hi = jobs[next_job]
                next_job += 1
                pid, r = spawn(do_chunk, check, self.seed, lo, hi)
                live[r] = [pid, b'', lo, hi]
            ready, _, _ = select.select(list(live), [], [], 5.)
            if time.time() > deadline:
                timed_out = True
                for r, (pid, _, lo, hi) in live.items():
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                live.clear()
                break
            for r in ready:
                b = os.read(r, 1 << 20)
                if b:
                    live[r][1] += b
                    continue
                pid, buf, lo, hi = live.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                try:
                    st, outs = pickle.loads(buf)
                except Exception:
                    errors.append((lo, 'worker', 'a worker running cases %d..%d died' % (lo, hi)))
                    continue
                stats.update(st)
                for o in outs:
                    n += 1
                    if o.kind == 'ok':
                        simtime += o.time
                        if o.nontrivial:
                            nontrivial += 1
                            sigs.add(o.sig)
                    elif o.kind == 'error':
                        errors.append((o.index, o.cls, o.msg))
                    else:
                        k = known_key(check, case_for(check, self.seed, o.index), o)
                        if k:
                            knowns[k] += 1
                        else:
                            violations.append(o)
        search_wall = time.time() - self.t0
        for i in range(min(3, total)):
            samples.append({'case': i, 'schedule': case_for(check, self.seed, i)})
        rc = 0
        reported = 0
        if violations:
            o = min(violations, key=lambda o: (o.cls.startswith('malformed'), o.index))
            path = self.report(o)
            if path is None:
                print('ERROR: case %d violated the property (%s: %s) but does not replay' % (o.index, o.cls, o.msg))
                rc = 2
            else:
                print('VIOLATION property=%s replay=%s' % (ck, path), flush=True)
                rc, reported = 1, 1
        elif timed_out:
            print('ERROR: stopped after %d s with %d of %d cases run' % (search_wall, n, total))
            rc = 2
        elif errors:
            for e in errors[:5]:
                print('ERROR: case %s: %s %s' % e)
            rc = 2
        for (pid_, key), text in sorted(KNOWN.items()):
            if pid_ == ck:
                print('KNOWN-FINDING: property=%s %s' % (ck, text))
        self.evidence(n, nontrivial, sigs, stats, simtime, samples, knowns, reported, errors, search_wall)
        print('%s: %d cases, %d distinct non-trivial, %.1f s, exit %d' % (ck, n, len(sigs), time.time() - self.t0, rc))
        return rc

    # -- reporting
    def report(self, o):
        check = self.check
        case = case_for(check, self.seed, o.index)
        alone = in_child(run_one, check, case)
        lo = o.index - o.index % check.chunk
        if alone is not None and alone.kind == 'violation':
            small = self.minimise(case, alone)
            res = in_child(run_one, check, small)
            for cand, rr in ((small, res), (case, alone)):
                if rr is None or rr.kind != 'violation':
                    continue
                p = self.write(o, cand, rr, None)
                if self.confirm(p):
                    print('%s: case %d (seed %d): %s: %s' % (check.id, o.index, self.seed, rr.cls, rr.msg))
                    return p
        # state left behind by the cases before it
        prefix = [case_for(check, self.seed, i) for i in range(lo, o.index)]
        p = self.write(o, case, o, prefix)
        if self.confirm(p):
            print('%s: case %d (seed %d) after its predecessors: %s: %s' % (check.id, o.index, self.seed, o.cls, o.msg))
            return p
        return None

    def write(self, o, case, rr, prefix):
        p = os.path.join(self.out, '%s-seed%d-case%d.json' % (self.check.id, self.seed, o.index))
        with open(p, 'w') as f:
            json.dump({'property': self.check.id, 'seed': self.seed, 'index': o.index, 'class': rr.cls,
                       'message': rr.msg, 'case': case, 'before': prefix}, f, indent=1)
        return p

    def confirm(self, p):
        r = subprocess.run([sys.executable, os.path.join(self.here, 'check.py'), self.check.id, '--replay', p],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        return r.returncode == 1

    def minimise(self, case, o, wall=60.):
        end = time.time() + wall
        tried = set()
        progress = True
        while progress and time.time() < end:
            progress = False
            for cand in quietly(self.check.shrink(case)):
                cand = json.loads(json.dumps(cand))
                k = json.dumps(cand, sort_keys=True)
                if k in tried or cand == case:
                    continue
                tried.add(k)
                if time.time() > end:
                    break
                r = in_child(run_one, self.check, cand, wall=30)
                if r is not None and r.kind == 'violation' and r.cls == o.cls and not known_key(self.check, cand, r):
                    case, progress = cand, True
                    break
        return case

    def evidence(self, n, nontrivial, sigs, stats, simtime, samples, knowns, reported, errors, wall):
        check = self.check
        faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault.')}
        probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('reach.')}
        cov = {
            'evaluations': n, 'distinct_nontrivial': len(sigs), 'rule': check.rule, 'samples': samples,
            'nontrivial_runs': nontrivial,
            'distinct_measure': 'hash of configuration, fault plan and schedule (which runs were active in each step)',
            'runs_per_hour': int(n / max(wall, 1e-9) * 3600),
            'seeds': 'case i uses the seed hash(VERIF_SEED=%d, %s, i), i < %d' % (self.seed, check.id, n),
            'steps': int(stats.get('steps', 0)), 'simulated_time': simtime,
            'faults_injected': faults, 'conditions_reached': probes,
            'real_components': check.real, 'stubbed_components': check.stub,
            'known_findings_hit': dict(knowns), 'harness_errors': len(errors), 'workers': WORKERS,
        }
        ev = {'property': check.id, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': check.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': reported}
        with open(os.path.join(self.here, 'evidence', check.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)


def quietly(it):
    """a shrinker that fails only ends the minimisation"""
    try:
        yield from it
    except Exception:
        return


def run_one(check, case):
    return run_case(check, case, Counter())


def replay(check, path):
    doc = json.load(open(path))
    for c in doc.get('before') or []:
        run_case(check, c, Counter())
    o = run_case(check, doc['case'], Counter())
    if o.kind == 'violation':
        print('%s: %s: %s' % (check.id, o.cls, o.msg))
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    if o.kind == 'error':
        print('ERROR: %s %s' % (o.cls, o.msg))
        return 2
    print('%s: the replayed case satisfies the property' % check.id)
    return 0


# -- determinism -------------------------------------------------------------------------
def digests(ids, n, seed):
    from . import checks
    out = {}
    for k in ids:
        ch = checks.REGISTRY[k]
        for i in range(n):
            case = case_for(ch, seed, i)
            st = Counter()
            o = run_case(ch, case, st)
            out['%s/%d' % (k, i)] = [o.kind, o.cls, o.sig, repr(o.time), sorted(st.items())]
    return out


def selftest(n):
    from . import checks
    ids = sorted(checks.REGISTRY)
    if os.environ.get('SIM_DIGESTS'):
        ids = os.environ['SIM_DIGESTS'].split(',')
        json.dump(digests(ids, n, int(os.environ.get('VERIF_SEED', '1'))), open(os.environ['SIM_OUT'], 'w'), sort_keys=True)
        return 0
    import tempfile
    bad = 0
    with tempfile.TemporaryDirectory() as tmp:
        for seed in ('1', '7'):
            procs = []
            for rep, hs in enumerate(('0', '0', '12345', '999')):
                groups = [ids] if rep == 0 else [ids[g::4] for g in range(4)]
                for g, grp in enumerate(groups):
                    o = os.path.join(tmp, '%s-%d-%d.json' % (seed, rep, g))
                    env = dict(os.environ, SIM_DIGESTS=','.join(grp), SIM_OUT=o, VERIF_SEED=seed, PYTHONHASHSEED=hs)
                    procs.append((rep, o, subprocess.Popen([sys.executable, sys.argv[0], '--selftest', str(n)], env=env)))
            res = {}
            for rep, o, p in procs:
                p.wait()
                res.setdefault(rep, {}).update(json.load(open(o)))
            for rep in (1, 2, 3):
                diff = [k for k in res[0] if res[0][k] != res[rep].get(k)]
                bad += len(diff)
                for k in diff[:5]:
                    print('DIVERGES seed=%s rep=%d %s\n  %s\n  %s' % (seed, rep, k, res[0][k], res[rep].get(k)))
            print('seed %s: %d cases run 4 times in %d processes' % (seed, len(res[0]), len(procs)))
    print('determinism: %s' % ('FAILED' if bad else 'ok'))
    return 2 if bad else 0

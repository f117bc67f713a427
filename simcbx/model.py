"""Executable reference model: one run, one particle at a time, straight from the published
schemes. It is re-synchronised with the observed state before each step."""
import itertools
import math

import numpy as np

BIG = 1e8


def vec(a):
    return np.asarray(a, dtype=float).ravel()


# -- constraints, regularisation ---------------------------------------------------------
class Con:
    def __init__(self, c):
        self.c = c
        self.name = c['name']

    def g(self, x):
        c = self.c
        if self.name == 'sphere':
            return float(x @ x) - c.get('r', 1.) ** 2
        if self.name == 'plane':
            a = np.array(c['a'], float)
            return (float(a @ x) - c.get('b', 1.)) / np.linalg.norm(a)
        A, b = np.array(c['A'], float), np.array(c['b'], float)
        return float(x @ A @ x) + float(b @ x) + c.get('c', 0)

    def grad(self, x):
        c = self.c
        if self.name == 'sphere':
            return 2 * x
        if self.name == 'plane':
            a = np.array(c['a'], float)
            return a / np.linalg.norm(a)
        A, b = np.array(c['A'], float), np.array(c['b'], float)
        return 2 * A @ x + b

    def hess(self, x):
        n = len(x)
        if self.name == 'sphere':
            return 2 * np.eye(n)
        if self.name == 'plane':
            return np.zeros((n, n))
        return 2 * np.array(self.c['A'], float)


def reg_rows(case, x, p=False):
    x = vec(x)
    if case['dyn'] == 'RegCombinationCBO':
        cs = [Con(c) for c in (case['kw'].get('constraints') or []) if c is not None]
        return sum(c.g(x) ** 2 for c in cs)
    g = case['reg']
    f = g['func']
    n = f['name'] if isinstance(f, dict) else f
    if n == 'L1':
        v = np.abs(x).sum() * (f.get('lamda', 1.) if isinstance(f, dict) else 1.)
    elif n == 'L0':
        v = float((np.abs(x) > 1e-8).sum()) * (f.get('lamda', 1.) if isinstance(f, dict) else 1.)
    elif n == 'Quadric':
        v = abs(float(x @ np.array(f['A']) @ x) + float(np.dot(f['b'], x)) + f.get('c', 0.))
    elif n == 'Sphere':
        v = abs(np.linalg.norm(x) - (f.get('r', 1.) if isinstance(f, dict) else 1.))
    else:
        v = abs(float(np.dot(f['a'], x)) - f.get('b', 0)) / np.linalg.norm(f['a'])
    return v ** g['p'] if p else v


def reg_value(case, x, lam=None):
    """what a regularised objective adds, with the regularisation parameter of the run"""
    if case.get('reg'):
        return (case['reg']['lamda'] if lam is None else lam) * float(reg_rows(case, x, True))
    if case['dyn'] != 'RegCombinationCBO':
        return 0.
    return (1 / case.get('kw', {}).get('nu', 1) if lam is None else lam) * reg_rows(case, x)


def run_lam(S, r):
    return float(S.reg_lamda[r, 0]) if 'reg_lamda' in S else None


# -- batches -----------------------------------------------------------------------------
class Plan:
    """who took part in a step: per active run the batch and the updated particles"""

    def __init__(self):
        self.active = []
        self.B = {}
        self.P = {}
        self.E = {}
        self.ambiguous = False      # equal particles: the indices are one possible choice
        self.repeated = False       # a particle taken twice ('concat' across a pass)
        self.error = None


def batch_conf(case):
    N = case['N']
    b = case.get('kw', {}).get('batch_args') or {}
    size = b.get('size', N)
    size = N if size is None else min(size, N)
    return size < N, size, b.get('partial', True), b.get('var', 'resample')


def match_rows(rows, X, plan, repeat=False):
    """indices of the rows in X (bitwise); each particle at most once unless repeat"""
    used, out = set(), []
    Xf = X.reshape(X.shape[0], -1)
    for r in rows:
        hit = [i for i in range(len(Xf)) if i not in used and np.array_equal(Xf[i], r, equal_nan=True)]
        if not hit and repeat:
            hit = [i for i in range(len(Xf)) if np.array_equal(Xf[i], r, equal_nan=True)]
            plan.repeated = True
        if not hit:
            return None
        if len(hit) > 1:
            plan.ambiguous = True
        used.add(hit[0])
        out.append(hit[0])
    return out


def softmax(E, alpha):
    E = np.asarray(E, float)
    if np.any(np.isnan(E)) or np.any(E == -np.inf):
        return None
    fin = np.isfinite(E)
    if not fin.any():
        return None
    w = np.zeros(len(E))
    w[fin] = np.exp(-alpha * (E[fin] - E[fin].min()))
    return w / w.sum()


def plan_step(st, case, mem_energy=True):
    """reconstruct who took part in the step from what the objective was asked"""
    p = Plan()
    p.active = st.active
    name = case['dyn']
    N = case['N']
    batched, bs, partial, var = batch_conf(case)
    rep = batched and var == 'concat'
    k = len(p.active)
    S0 = st.S0
    if name in ('ParticleDynamic', 'CBXDynamic'):
        return p
    rows = st.X
    if name in ('CBOMemory', 'PSO'):
        xm = st.pp_pre if st.pp_pre is not None else st.S1.x
        nP = bs if (batched and partial) else N
        if len(rows) < k * nP:
            p.error = 'only %d evaluations in a step of %d runs with %d particles' % (len(rows), k, nP)
            return p
        tail = rows[len(rows) - k * nP:]
        tailF = st.F[len(rows) - k * nP:]
        for a, r in enumerate(p.active):
            blk = tail[a * nP:(a + 1) * nP]
            if batched and partial:
                idx = match_rows(blk, xm[r], p, rep)
                if idx is None:
                    p.error = 'run %d: evaluated points are not its particles' % r
                    return p
                p.P[r] = p.B[r] = idx
            else:
                idx = match_rows(blk, xm[r], p)
                if idx is None:
                    p.error = 'run %d: evaluated points are not its particles' % r
                    return p
                p.P[r] = list(range(N))
                if not batched:
                    p.B[r] = list(range(N))
            p.E[r] = [e + reg_value(case, x, run_lam(S0, r)) for e, x in zip(tailF[a * nP:(a + 1) * nP], blk)]
        if batched and not partial:
            # the batch is only visible through the consensus
            for a, r in enumerate(p.active):
                c = vec(st.S1.consensus[a])
                al = float(st.S0.alpha[r, 0])
                best, bd = None, np.inf
                for comb in itertools.combinations(range(N), bs):
                    wts = softmax(S0.energy[r, list(comb)], al)
                    if wts is None:
                        continue
                    ref = sum(w * vec(S0.y[r, i]) for w, i in zip(wts, comb))
                    dd = np.abs(ref - c).max()
                    if dd < bd:
                        best, bd = list(comb), dd
                p.B[r] = best
        return p
    if len(rows) < k * bs:
        p.error = 'only %d evaluations in a step of %d runs with batches of %d' % (len(rows), k, bs)
        return p
    for a, r in enumerate(p.active):
        blk = rows[a * bs:(a + 1) * bs]
        idx = match_rows(blk, S0.x[r], p, rep)
        if idx is None:
            p.error = 'run %d: the objective was evaluated at points that are not particles of the run' % r
            return p
        p.B[r] = idx
        p.P[r] = idx if (batched and partial) else list(range(N))
        p.E[r] = [e + reg_value(case, x, run_lam(S0, r)) for e, x in zip(st.F[a * bs:(a + 1) * bs], blk)]
        if not batched:
            # unbatched: particles in order
            p.E[r] = [p.E[r][idx.index(i)] for i in range(N)]
            p.B[r] = list(range(N))
    return p


# -- consensus ---------------------------------------------------------------------------
def kernel_neg_log(case, XP, XB):
    kw = case.get('kw', {})
    kind, kappa = kw.get('kernel', 'Gaussian'), kw.get('kappa', 1.0)
    D = np.array([[math.sqrt(float(((vec(a) - vec(b)) ** 2).sum())) for b in XB] for a in XP])
    with np.errstate(all='ignore'):
        if kind == 'Gaussian':
            return D ** 2 / (2 * kappa ** 2)
        if kind == 'Laplace':
            return D / kappa
        if kind == 'Constant':
            q = D / kappa
            return np.where(q < 1, 0., np.where(q == 1, 1., np.inf))
        if kind == 'InverseQuadratic':
            return np.log1p((D / kappa) ** 2)
        if kind == 'user':
            return np.array([[np.abs(vec(a) - vec(b)).sum() / kappa for b in XB] for a in XP])
        if kind == 'Taz':
            m = D.max()
            return ((D / (m if m > 0 else 1.)) / kappa) ** 2
    raise ValueError(kind)


def consensus(case, x, E, B, P, alpha):
    """reference consensus point(s) of one run: list of (point, weights, exponent size)"""
    XB = [vec(x[i]) for i in B]
    if case['dyn'] == 'PolarCBO':
        XP = [vec(x[i]) for i in P]
        nl = kernel_neg_log(case, XP, XB)
        fac = alpha if case.get('kw', {}).get('kernel_factor_mode', 'alpha') == 'alpha' else 1.
        out = []
        for i in range(len(XP)):
            with np.errstate(all='ignore'):
                ex = np.where(np.isinf(nl[i]), np.inf if fac > 0 else np.nan, fac * nl[i]) + alpha * np.asarray(E)
            w = softmax(ex, 1.)
            mag = sum(np.abs(q[np.isfinite(q)]).max(initial=0.) for q in (fac * nl[i], alpha * np.asarray(E, float)))
            if case['kw'].get('kernel') == 'InverseQuadratic':
                mag += fac      # the logarithm of something close to one
            out.append((None if w is None else sum(a * b for a, b in zip(w, XB)), w, mag))
        return out
    if case.get('kw', {}).get('compute_consensus') == 'user':
        if np.isnan(np.asarray(E, float)).any():
            return [(None, None, 0.)]
        return [(.5 * XB[int(np.argmin(E))] + .5 * sum(XB) / len(XB), None, 0.)]
    w = softmax(E, alpha)
    E = np.asarray(E, float)
    mag = np.abs(alpha * E[np.isfinite(E)]).max() if np.isfinite(E).any() else 0.
    return [(None if w is None else sum(a * b for a, b in zip(w, XB)), w, mag)]


# -- noise and correction ----------------------------------------------------------------
def psd_sqrt(C):
    w, V = np.linalg.eigh(C)
    return (V * np.sqrt(np.maximum(w, 0.))) @ V.T


def noise_kind(case):
    n = case.get('kw', {}).get('noise')
    if n is None:
        n = 'covariance' if case['dyn'] == 'CBS' else 'isotropic'
    return 'covariance' if n == 'sampling' else n


def noise_mode(case):
    if case['dyn'] == 'CBS':
        return case.get('kw', {}).get('mode', 'sampling')
    return 'sampling'


def noise_term(case, dt, alpha, drift, z, cov):
    """noise for one particle; cov: covariance matrix (or None)"""
    k = noise_kind(case)
    d, z = vec(drift), vec(z)
    if k == 'isotropic':
        nrm = math.sqrt(float(d @ d)) if case['kw'].get('norm') != 'user' else 2 * math.sqrt(float(d @ d))
        return math.sqrt(dt) * nrm * z
    if k == 'user':
        return math.sqrt(dt) * (np.abs(d) + .1) * z
    if k == 'useralias':
        return d
    if k == 'userdet':
        return math.sqrt(dt) * .5 * d
    if k == 'anisotropic':
        return math.sqrt(dt) * d * z
    if k == 'constant':
        return math.sqrt(dt) * z
    fac = math.sqrt(2 * dt * (1 + alpha)) if noise_mode(case) == 'sampling' else math.sqrt(2 * dt)
    return fac * (psd_sqrt(cov) @ z)


def cov_matrix(w, drifts):
    return sum(a * np.outer(vec(d), vec(d)) for a, d in zip(w, drifts))


def user_gate(n):
    return np.array([1., .5, -.25, .75])[np.arange(n) % 4]


def gate(case, E, fc):
    c = case.get('kw', {}).get('correction', 'no_correction')
    if c == 'no_correction':
        return 1.
    if c == 'user':
        return user_gate(int(np.prod(case['d'])))
    z = E - fc
    if c == 'heavi_side':
        return 1. if z > 0 else 0.
    eps = case.get('kw', {}).get('correction_eps', 1e-3)
    with np.errstate(all='ignore'):
        return 0.5 + 0.5 * math.tanh(z / eps) if z == z else math.nan


def clip(x):
    x = np.where(np.isnan(x), BIG, x)
    return np.clip(x, -BIG, BIG)


# -- mirror maps -------------------------------------------------------------------------
def mirror_spec(case):
    m = case.get('kw', {}).get('mirrormap')
    if m is None:
        return {'name': 'L2'}
    if isinstance(m, str):
        return {'name': m}
    return m


def mirror_grad(case, x):
    """derivative of the mirror map; not finite where the library may do as it likes"""
    m = mirror_spec(case)
    n = m['name']
    x = vec(x)
    with np.errstate(all='ignore'):
        if n == 'user':
            return 2 * np.arctanh(x)
        if n in ('L2', 'None'):
            return m.get('lamda', 1.) * x
        if n.startswith('Projection'):
            return x
        if n == 'LogBarrierBox':
            return np.where(np.abs(x) < .999, 2 * x / (1 - x * x), np.nan)
        if n == 'NonsmoothBarrier':
            return np.where(np.abs(x) < .999, np.sign(x) / (1 - np.abs(x)) ** 2, np.nan)
        if n == 'ElasticNet':
            return x / m.get('delta', 1.) + m.get('lamda', 1.) * np.sign(x)
        if n == 'Entropy':      # the library shifts it a little, so that zero is allowed
            return np.where(x > .02, -np.log(x) - 1, np.nan)
        if n == 'EntropySimplex':
            return np.where(x > 1e-10, np.log(x) + 1, np.nan)
    raise ValueError(n)


def mirror_grad_conj(case, y):
    m = mirror_spec(case)
    n = m['name']
    y = vec(y)
    with np.errstate(all='ignore'):
        if n == 'user':
            return np.tanh(y / 2)
        if n in ('L2', 'None'):
            return y / m.get('lamda', 1.)
        if n == 'ProjectionBall':
            c = np.array(m.get('center', 0.), float)
            r = m.get('radius', 1.)
            v = y - c
            nv = np.linalg.norm(v)
            return c + (v if nv <= r else r * v / nv)
        if n == 'ProjectionHyperplane':
            a = np.array(m['a'], float)
            return y - (float(a @ y) - m.get('b', 0)) / float(a @ a) * a
        if n == 'ProjectionSphere':
            if not y.any():
                y = np.ones_like(y)     # every point of the sphere is nearest to the center: the library takes this one
            return m.get('r', 1.) * y / np.linalg.norm(y)
        if n == 'ProjectionSquare':
            r = m.get('r', 1.)
            v = np.clip(y, -r, r)
            i = int(np.argmax(np.abs(v)))
            v[i] = -r if v[i] < 0 else r
            return v
        if n == 'LogBarrierBox':
            return np.array([0. if t == 0 else (math.sqrt(1 + t * t) - 1) / t if abs(t) > 1e-4
                             else t / 2 - t ** 3 / 8 for t in y])
        if n == 'NonsmoothBarrier':
            return np.array([np.sign(t) * max(1 - math.sqrt(1 / abs(t)), 0) if t != 0 else 0. for t in y])
        if n == 'ElasticNet':
            return m.get('delta', 1.) * np.sign(y) * np.maximum(np.abs(y) - m.get('lamda', 1.), 0)
        if n == 'Entropy':
            return np.exp(-(y + 1))
        if n == 'ProjectionStiefel':
            return polar_factor(y, m['nk'])
        if n == 'EntropySimplex':
            z = np.exp(y - y.max())
            return z / z.sum()
    raise ValueError(n)


def polar_factor(y, nk):
    """Y (Y^T Y)^(-1/2), the nearest matrix with orthonormal columns"""
    Y = y.reshape(nk)
    if not np.isfinite(Y).all():
        return y * np.nan
    w, V = np.linalg.eigh(Y.T @ Y)
    if w.min() < 1e-7 * w.max():
        return y * np.nan       # no unique nearest matrix
    return (Y @ (V / np.sqrt(w)) @ V.T).ravel()


# -- one step ----------------------------------------------------------------------------
class Pred:
    """predicted values of named arrays for (run, particle), with a scale for rounding"""

    def __init__(self):
        self.items = []   # (name, run, particle, value, scale)

    def add(self, name, r, i, val, scale):
        self.items.append((name, r, i, vec(val), vec(scale) + np.zeros_like(vec(val))))


def predict(st, case, plan, fval):
    """predict the state after the inner step, given the consensus the library used"""
    kw = case.get('kw', {})
    name = case['dyn']
    S0, S1 = st.S0, st.S1
    dt, sigma, lam = float(S0.dt), float(S0.sigma), float(S0.lamda)
    pr = Pred()
    cov_noise = noise_kind(case) == 'covariance'

    def ns(nz, s, z, C):
        """size of the rounding errors of a noise term, relative to rtol; the square root of a
        nearly singular matrix amplifies them"""
        if C is None:
            return np.linalg.norm(nz)
        if not np.all(np.isfinite(C)):
            return np.inf
        return abs(s) * math.sqrt(2 * dt * (1 + alpha)) * math.sqrt(max(np.trace(C), 0.)) * np.linalg.norm(z) * covfac

    for a, r in enumerate(plan.active):
        alpha = float(S0.alpha[r, 0])
        P, B = plan.P[r], plan.B[r]
        cons = [vec(c) for c in S1.consensus[a]]
        fin = [abs(alpha * e) for e in np.ravel(S1.energy[r]) if np.isfinite(e)] + [0.]
        covfac = 1e3 + math.sqrt(max(fin) * 2.3e-16) * 1e9 + max(fin) * 1e-5
        c_of = (lambda j: cons[j]) if name == 'PolarCBO' else (lambda j: cons[0])
        x0 = S0.x[r]
        if name in ('CBOMemory', 'PSO'):
            E_of = {i: float(S0.energy[r, i]) for i in range(case['N'])}
        else:
            E_of = {i: (float(S0.energy[r, i])) for i in range(case['N'])}
            for i, e in zip(B, plan.E[r]):
                E_of[i] = float(e)
        raw = {i: vec(x0[i]) - c_of(j) for j, i in enumerate(P)}
        gates = {i: gate(case, E_of[i], fval(c_of(j), r)) if kw.get('correction', 'no_correction') != 'no_correction' else 1.
                 for j, i in enumerate(P)}
        z1 = {i: vec(st.draws[0][a][j]) for j, i in enumerate(P)} if st.draws else None
        if z1 is None:
            if sigma != 0 and noise_kind(case) not in ('userdet', 'useralias'):
                return None
            z1 = {i: 0 * raw[i] for i in P}

        def covs(drift):
            if not cov_noise:
                return {i: None for i in P}
            if name == 'PolarCBO':
                nl = kernel_neg_log(case, [x0[i] for i in P], [x0[i] for i in B])
                fac = alpha if kw.get('kernel_factor_mode', 'alpha') == 'alpha' else 1.
                out = {}
                for j, i in enumerate(P):
                    ex = fac * nl[j] + alpha * np.array([E_of[b] for b in B])
                    w = softmax(ex, 1.)
                    out[i] = cov_matrix(w, [drift[b] for b in B])
                return out
            w = softmax([E_of[i] for i in P], alpha)
            C = cov_matrix(w, [drift[i] for i in P])
            return {i: C for i in P}

        if name in ('CBO', 'CBS', 'PolarCBO', 'CBOMemory', 'MirrorCBO'):
            drift = {i: gates[i] * raw[i] for i in P}
            cv = covs(drift)
            mid = {}
            for i in P:
                nz = sigma * noise_term(case, dt, alpha, drift[i], z1[i], cv[i])
                base = vec(S0.y[r, i]) if name == 'MirrorCBO' else vec(x0[i])
                mid[i] = (base - lam * dt * drift[i] + nz,
                          np.abs(base) + np.abs(lam * dt * drift[i]) + ns(nz, sigma, z1[i], cv[i]) + np.abs(c_of(P.index(i))) * (lam * dt + sigma * math.sqrt(dt) * np.abs(z1[i]).max()))
            if name == 'MirrorCBO':
                for i in P:
                    pr.add('y', r, i, mid[i][0], mid[i][1])
                continue
            if name == 'CBOMemory':
                lm, sm = float(kw.get('lamda_memory', 0.4)), kw.get('sigma_memory')
                sm = lm * sigma if sm is None else sm
                if len(st.draws) < 2:
                    if sm != 0 and noise_kind(case) not in ('userdet', 'useralias'):
                        return None
                    z2 = {i: 0 * raw[i] for i in P}
                else:
                    z2 = {i: vec(st.draws[1][a][j]) for j, i in enumerate(P)}
                drift = {i: mid[i][0] - vec(S0.y[r, i]) for i in P}
                cv = covs(drift)
                for i in P:
                    nz = sm * noise_term(case, dt, alpha, drift[i], z2[i], cv[i])
                    sc = mid[i][1] * (1 + lm * dt + sm * math.sqrt(dt) * np.abs(z2[i]).max() * 3)
                    pr.add('x', r, i, mid[i][0] - lm * dt * drift[i] + nz,
                           sc + np.abs(lm * dt * drift[i]) + ns(nz, sm, z2[i], cv[i]))
            else:
                for i in P:
                    pr.add('x', r, i, *mid[i])
        elif name == 'PSO':
            lm, sm = float(kw.get('lamda_memory', 0.4)), kw.get('sigma_memory')
            sm = lm * sigma if sm is None else sm
            m = float(kw.get('m', 0.001))
            gam = kw.get('gamma')
            gam = 1 - m if gam is None else gam
            if len(st.draws) < 2:
                if sm != 0 and noise_kind(case) not in ('userdet', 'useralias'):
                    return None
                z2 = {i: 0 * raw[i] for i in P}
            else:
                z2 = {i: vec(st.draws[1][a][j]) for j, i in enumerate(P)}
            mem = {i: vec(x0[i]) - vec(S0.y[r, i]) for i in P}
            cv1, cv2 = covs(raw), covs(mem)
            for i in P:
                n1 = sigma * noise_term(case, dt, alpha, raw[i], z1[i], cv1[i])
                n2 = sm * noise_term(case, dt, alpha, mem[i], z2[i], cv2[i])
                den = m + gam * dt
                num = m * vec(S0.v[r, i]) - gates[i] * lam * dt * raw[i] - lm * dt * mem[i] + n1 + n2
                sc = (np.abs(m * vec(S0.v[r, i])) + np.abs(lam * dt * raw[i]) + np.abs(lm * dt * mem[i])
                      + ns(n1, sigma, z1[i], cv1[i]) + ns(n2, sm, z2[i], cv2[i])
                      + (np.abs(vec(x0[i])) + np.abs(cons[0])) * (dt + sigma * math.sqrt(dt) * np.abs(z1[i]).max())) / den
                pr.add('v', r, i, num / den, sc)
                pr.add('x', r, i, vec(x0[i]) + dt * num / den, np.abs(vec(x0[i])) + dt * sc)
        elif name == 'AdamCBO':
            b1, b2 = kw.get('betas', (0.9, 0.99))
            eps = kw.get('eps', 1e-8)
            it = int(S0.it)
            cv = covs(raw)
            for i in P:
                mm = b1 * vec(S0.m[r, i]) + (1 - b1) * raw[i]
                vv = b2 * vec(S0.v[r, i]) + (1 - b2) * raw[i] ** 2
                mh, vh = mm / (1 - b1 ** (it + 1)), vv / (1 - b2 ** (it + 1))
                nz = sigma * noise_term(case, dt, alpha, raw[i], z1[i], cv[i])
                upd = lam * mh / (np.sqrt(vh) + eps)
                pr.add('m', r, i, mm, np.abs(mm) + np.abs(vec(x0[i])) + np.abs(cons[0]))
                pr.add('v', r, i, vv, np.abs(vv) + (np.abs(vec(x0[i])) + np.abs(cons[0])) * np.abs(raw[i]))
                # relative error of the drift enters through mh / sqrt(vh)
                rel = (np.abs(vec(x0[i])) + np.abs(cons[0])) / (np.sqrt(vh) + eps)
                pr.add('x', r, i, vec(x0[i]) - upd + nz,
                       np.abs(vec(x0[i])) + np.abs(upd) + np.abs(lam) * rel + ns(nz, sigma, z1[i], cv[i])
                       + np.abs(cons[0]) * sigma * math.sqrt(dt) * np.abs(z1[i]).max())
        elif name == 'DriftConstrainedCBO':
            eps = kw.get('eps', 0.01)
            cs = [Con(c) for c in (kw.get('constraints') or []) if c is not None]
            cv = covs(raw)
            for i in P:
                x = vec(x0[i])
                g = sum((2 * c.g(x) * c.grad(x) for c in cs), 0 * x)
                H = sum((2 * (np.outer(c.grad(x), c.grad(x)) + c.g(x) * c.hess(x)) for c in cs), np.zeros((len(x),) * 2))
                nz = sigma * noise_term(case, dt, alpha, raw[i], z1[i], cv[i])
                rhs = lam * dt * raw[i] + dt / eps * g + nz
                A = np.eye(len(x)) + dt / eps * H
                cond = np.linalg.cond(A)
                if not cond < 1e7:
                    continue
                s = np.linalg.solve(A, rhs)
                mag = (np.abs(rhs).sum() + ns(nz, sigma, z1[i], cv[i]) + (np.abs(x).sum() + np.abs(cons[0]).sum()) * (lam * dt + sigma)
                       + dt / eps * sum(abs(2 * c.g(x)) * np.abs(c.grad(x)).sum() + (np.abs(x) ** 2).sum() * np.abs(c.grad(x)).sum() for c in cs))
                pr.add('x', r, i, x - s, np.abs(x) + np.abs(s) * cond + np.linalg.norm(np.linalg.inv(A)) * mag)
        elif name == 'RegCombinationCBO':
            eps = kw.get('eps', 0.01)
            cs = [Con(c) for c in (kw.get('constraints') or []) if c is not None]
            cv = covs(raw)
            for i in P:
                x = vec(x0[i])
                nz = sigma * noise_term(case, dt, alpha, raw[i], z1[i], cv[i])
                xt = x - lam * dt * raw[i] + nz
                sct = np.abs(x) + np.abs(lam * dt * raw[i]) + ns(nz, sigma, z1[i], cv[i]) + np.abs(cons[0]) * (lam * dt + sigma * np.abs(z1[i]).max())
                if not cs or not eps < 1e15:
                    pr.add('x', r, i, xt, sct)
                    continue
                c, fac = cs[0], dt / eps
                if c.name == 'sphere':
                    den = 1 + 4 * fac * c.g(x)
                    if abs(den) < 1e-3 * (1 + 4 * fac * (float(x @ x) + 1)):
                        continue
                    pr.add('x', r, i, xt / den, sct / abs(den) * (1 + (1 + 4 * fac * float(x @ x)) / abs(den)))
                elif c.name == 'plane':
                    an = np.array(c.c['a'], float)
                    an = an / np.linalg.norm(an)
                    pr.add('x', r, i, xt - 2 * fac * c.g(x) * an, sct + 2 * fac * (np.abs(x).sum() + abs(c.c.get('b', 1.))))
                else:
                    A = np.eye(len(x)) + 4 * fac * c.g(x) * np.array(c.c['A'], float)
                    cond = np.linalg.cond(A)
                    if not cond < 1e6:
                        continue
                    rhs = xt - 2 * fac * c.g(x) * np.array(c.c['b'], float)
                    gs = np.abs(x).sum() ** 2 * np.abs(np.array(c.c['A'])).sum() + 1
                    pr.add('x', r, i, np.linalg.solve(A, rhs),
                           (sct.sum() + 2 * fac * gs * np.abs(np.array(c.c['b'])).sum()) * np.linalg.norm(np.linalg.inv(A)) * cond)
        elif name == 'HyperSurfaceCBO':
            s = kw.get('sdf') or {'name': 'sphere'}
            for i in P:
                x, z, c = vec(x0[i]), z1[i], cons[0]
                d = raw[i]
                nz = sigma * noise_term(case, dt, alpha, d, z, None)
                tang = dt * c + nz
                n2 = float(d @ d)
                if s['name'] == 'sphere':
                    nrm = np.linalg.norm(x)
                    g = x / nrm
                    lap = (len(x) - 1) / nrm
                    t = tang - g * float(g @ tang)
                elif s['name'] == 'plane':
                    av = np.array(s['a'], float)
                    g = av / np.linalg.norm(av)
                    lap = 0.
                    t = tang - g * float(g @ tang)
                else:
                    n, kk = s['nk']
                    Xm, Zm = x.reshape(n, kk), tang.reshape(n, kk)
                    g = x
                    lap = (2 * n - kk - 1) / 2
                    t = (Zm - 0.5 * Xm @ (Zm.T @ Xm + Xm.T @ Zm)).ravel()
                if noise_kind(case) == 'anisotropic':
                    corr = dt * sigma ** 2 / 2 * (n2 + d ** 2 - 2 * float(d @ x) ** 2) * x
                else:
                    corr = dt * sigma ** 2 / 2 * lap * n2 * g
                xt = x + t - corr
                mag = np.abs(x).sum() + np.abs(tang).sum() + np.abs(corr).sum()
                if s['name'] == 'sphere':
                    nn = np.linalg.norm(xt)
                    if nn < 1e-6 * mag:
                        continue
                    pr.add('x', r, i, xt / nn, 10 * mag / nn + 1)
                elif s['name'] == 'plane':
                    av = np.array(s['a'], float)
                    pr.add('x', r, i, xt - (float(av @ xt) - s.get('b', 1.)) / float(av @ av) * av, mag + abs(s.get('b', 1.)))
                else:
                    n, kk = s['nk']
                    U, sv, Vh = np.linalg.svd(xt.reshape(n, kk), full_matrices=False)
                    if sv.min() < 1e-5 * mag:
                        continue
                    pr.add('x', r, i, (U @ Vh).ravel(), 100 * mag / sv.min() + 1)
    return pr

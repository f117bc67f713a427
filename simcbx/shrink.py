"""Smaller variants of a case, most drastic first."""
import copy


def candidates(case):
    c = case

    def mod(**kw):
        d = copy.deepcopy(c)
        for k, v in kw.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        return d

    def modkw(k, v=None):
        d = copy.deepcopy(c)
        if v is None:
            d['kw'].pop(k, None)
        else:
            d['kw'][k] = v
        return d

    fl = c.get('faults') or []
    if fl:
        yield mod(faults=[])
        for i in range(len(fl)):
            yield mod(faults=fl[:i] + fl[i + 1:])
        for i, f in enumerate(fl):
            for k in ('row', 'n', 'draw', 'line'):
                if f.get(k, 0) > 0:
                    for v in (0, f[k] // 2, f[k] - 1):
                        g = copy.deepcopy(fl)
                        g[i][k] = v
                        yield mod(faults=g)
    if 'kw' in c:
        kw = c['kw']
        for k in ('batch_args', 'correction', 'correction_eps', 'lamda_memory', 'sigma_memory', 'gamma', 'm', 'betas',
                  'kernel_factor_mode', 'nu', 'lamda', 'kappa'):
            if k in kw and not (k in ('sigma_memory', 'gamma') and (c.get('change') or c.get('sched'))):
                yield modkw(k)
        for k in ('norm', 'compute_consensus'):
            if k in kw:
                yield modkw(k)
        for k, v in (('noise', 'isotropic'), ('kernel', 'Gaussian'), ('alpha', 1.), ('sigma', 1.), ('dt', .1)):
            if k in kw and kw[k] != v and c['dyn'] != 'CBS':
                yield modkw(k, v)
        b = kw.get('batch_args')
        if b:
            for k in ('seed', 'var', 'partial'):
                if k in b:
                    yield modkw('batch_args', {a: v for a, v in b.items() if a != k})
            if (b.get('size') or 0) > 1:
                yield modkw('batch_args', dict(b, size=b['size'] - 1))
        if len(kw.get('constraints') or []) > 1:
            for i in range(len(kw['constraints'])):
                yield modkw('constraints', kw['constraints'][:i] + kw['constraints'][i + 1:])
    if c.get('dyn') not in (None, 'CBO'):
        d = copy.deepcopy(c)
        d['dyn'] = 'CBO'
        d['kw'] = {k: v for k, v in d.get('kw', {}).items() if k in ('alpha', 'sigma', 'dt', 'noise', 'batch_args', 'correction', 'lamda')}
        yield d
    M = c.get('M', 1)
    if M > 1:
        for drop in range(M):
            d = copy.deepcopy(c)
            d['M'] = M - 1
            if isinstance(d.get('kw', {}).get('alpha'), list):
                d['kw']['alpha'].pop(drop)
            ok = True
            for t in d.get('term') or []:
                if t['k'] == 'sched':
                    t['at'].pop(drop)
                if t['k'] == 'pulse':
                    ok = False
            if ok:
                yield d
    if c.get('N', 1) > 1:
        d = copy.deepcopy(c)
        d['N'] -= 1
        b = (d.get('kw') or {}).get('batch_args')
        if b and b.get('size'):
            b['size'] = min(b['size'], d['N'])
        yield d
    if c.get('d') and len(c['d']) == 1 and c['d'][0] > 1 and not set(c.get('kw', {})) & {'sdf', 'constraints', 'mirrormap'}:
        yield mod(d=[c['d'][0] - 1])
    tm = c.get('term') or []
    if len(tm) > 1:
        for i in range(len(tm)):
            if tm[i]['k'] != 'max_it':
                yield mod(term=tm[:i] + tm[i + 1:])
    for i, t in enumerate(tm):
        if t['k'] == 'max_it' and (t['v'] or 0) > 1:
            for v in (t['v'] // 2, t['v'] - 1):
                g = copy.deepcopy(tm)
                g[i]['v'] = v
                yield mod(term=g)
        if t['k'] == 'sched':
            for j, a in enumerate(t['at']):
                if a > 0:
                    g = copy.deepcopy(tm)
                    g[i]['at'][j] = a - 1
                    yield mod(term=g)
    for k in ('sched', 'pp', 'check_f_dims', 'track', 'seed', 'xdim', 'print_int', 'verbosity'):
        if c.get(k) is not None and not (k == 'seed' and c.get('x') is None):
            yield mod(**{k: None})
    for k in ('hooks', 'attach', 'mytrack', 'mysched', 'objcls', 'own', 'inst', 'reg', 'change', 'blind'):
        if c.get(k):
            yield mod(**{k: None})
    for k in ('change', 'blind'):
        v = c.get(k) or {}
        for i in v if len(v) > 1 else []:
            yield mod(**{k: {a: b for a, b in v.items() if a != i}})
    for i, q in (c.get('change') or {}).items():
        for j in range(len(q) if len(q) > 1 else 0):
            yield mod(change={**c['change'], i: q[:j] + q[j + 1:]})
    for k in ('hooks', 'forms'):
        v = c.get(k) or []
        if len(v) > 1:
            for i in range(len(v)):
                yield mod(**{k: v[:i] + v[i + 1:]})
    rs = c.get('resample')
    if rs and len(rs.get('crits') or []) > 1:
        for i in range(len(rs['crits'])):
            yield mod(resample=dict(rs, crits=rs['crits'][:i] + rs['crits'][i + 1:]))
    if c.get('f_dim') in ('2D', '3D') and len(c.get('d', [1])) == 1:
        yield mod(f_dim='1D')
    o = c.get('obj')
    if o:
        for k, v in (('poison', None), ('offset', 0.), ('scale', 1.)):
            if k in o and o[k] != v:
                d = copy.deepcopy(c)
                if v is None:
                    d['obj'].pop(k)
                else:
                    d['obj'][k] = v
                yield d
        if o['name'] != 'quad':
            d = copy.deepcopy(c)
            d['obj']['name'] = 'quad'
            yield d
    if c.get('mode') == 'optimize':
        yield mod(mode='loop')

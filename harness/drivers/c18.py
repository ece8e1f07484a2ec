"""C18: the mutual information recursion, single and joint."""
from common import *

TRACE_SPEC = 'T18'
RULE = ('mutual_information_recursion and joint_mutual_information_recursion on batches of 0-4 sequences, S 0-4 x T 0-5, both forms, random boundaries (also empty), impossible steps, '
        'garbage outside the boundary, float32/float64, shifted scores, strided input; totals, occupations, gradients and the breakdown; non-trivial: some total is positive')
CASE_TIMEOUT = 30
OUTS = ('e', 'parts')
SKIP = ('b', 'x', 'y', 'w', 'a')
UNIT = 100000


def MODELS(tier):
    return [dict(module='MC18', cfg='MC18.cfg' if tier == 'quick' else 'MC18_deep.cfg', workers=4, actions=['SetX', 'SetY'])]


def lat_total(mod, b, X, Y):
    f = {}
    for s in range(b[0], b[2] + 1):
        for t in range(b[1], b[3] + 1):
            if (s, t) == (b[0], b[1]):
                f[s, t] = 1
                continue
            v = 0
            p = (s - 1, t - 1) if mod else (s - 1, t)
            if p in f:
                v += f[p] * X[p[0]][p[1]]
            if (s, t - 1) in f:
                v += f[s, t - 1] * Y[s][t - 1]
            f[s, t] = v
    return max(f.values())


def gen(rng, tier, ctx):
    N = 6000 if tier == 'quick' else 20000
    for i in range(N):
        mod = rng.choice([0, 1])
        B = rng.choice([1, 1, 2, 3, 4]) if rng.random() < .98 else 0
        S, T = rng.choice([0, 1, 1, 2, 2, 3, 4]), rng.choice([0, 1, 2, 2, 3, 3, 4, 5])
        bnd = rng.choice([0, 1, 1])
        zp = rng.choice([0, 0, .15])
        E = []
        while len(E) < B:
            b = [0, 0, S, T]
            if bnd and rng.random() < .9:
                b = [rng.choice([0, 0, rng.randint(0, S)]), rng.choice([0, 0, rng.randint(0, T)])]
                b += [rng.randint(b[0], S), rng.randint(b[1], T)]
            wt = lambda: 0 if rng.random() < zp else rng.choice([1, 1, 1, 2, 3])
            X = [[wt() for _ in range(T if mod else T + 1)] for _ in range(S)]
            Y = [[wt() for _ in range(T)] for _ in range(S + 1)]
            if lat_total(mod, b, X, Y) < 20000:
                E.append(dict(b=b, x=X, y=Y, w=rng.choice([1, 1, 2, 3])))
        joint = rng.random() < .4 and B > 0
        yield dict(mod=mod, B=B, S=S, T=T, bnd=bnd, E=E, joint=rng.choice([1, 2, 2, 3]) if joint else 0, dbl=rng.choice([0, 1]), shift=rng.choice([0, 0, -50, 50, -7]),
                   junk=rng.choice([0, 1, 2]), occ=rng.choice([0, 1]), grad=rng.choice([0, 1, 1]), strided=rng.choice([0, 0, 1]), seed=rng.randrange(1 << 30))


def run(c):
    torch, k2, _k2 = k2mods()
    rng = random.Random(c['seed'])
    dt = torch.float64 if c['dbl'] else torch.float32
    B, S, T, mod = c['B'], c['S'], c['T'], c['mod']
    T1 = T if mod else T + 1
    # joint: one more part per extra term, small integers; the first part has the rest
    shift = 0 if c['joint'] else c['shift']
    parts = [dict(x=[[[rng.randint(-2, 2) for _ in range(T1)] for _ in range(S)] for _ in range(B)], y=[[[rng.randint(-2, 2) for _ in range(T)] for _ in range(S + 1)] for _ in range(B)])
             for _ in range(max(0, c['joint'] - 1))]
    lg = lambda v: math.log(v) + shift if v else -math.inf

    def junk(s, t, b, kind):
        """a step not inside the rectangle"""
        d = (s, t + 1) if kind == 'y' else (s + 1, t + 1) if mod else (s + 1, t)
        return not (b[0] <= s and b[1] <= t and d[0] <= b[2] and d[1] <= b[3])
    jv = lambda: rng.choice([0., 3., -math.inf, 1e4, -1e4] if c['joint'] else [0., 5., -math.inf, 1e30, -1e30])
    X, Y = [], []
    for i, e in enumerate(c['E']):
        X.append([[jv() if c['junk'] and c['bnd'] and junk(s, t, e['b'], 'x') else lg(v) - sum(p['x'][i][s][t] for p in parts) for t, v in enumerate(r)] for s, r in enumerate(e['x'])])
        Y.append([[jv() if c['junk'] and c['bnd'] and junk(s, t, e['b'], 'y') else lg(v) - sum(p['y'][i][s][t] for p in parts) for t, v in enumerate(r)] for s, r in enumerate(e['y'])])

    def tens(v, shape):
        t = torch.tensor(v, dtype=torch.float64).reshape(shape).to(dt)
        if c['strided']:
            t = t.permute(2, 1, 0).contiguous().permute(2, 1, 0)
        return t.requires_grad_(bool(c['grad']))
    px, py = tens(X, (B, S, T1)), tens(Y, (B, S + 1, T))
    bd = torch.tensor([e['b'] for e in c['E']], dtype=torch.int64).reshape(B, 4) if c['bnd'] else None
    w = torch.tensor([e['w'] for e in c['E']], dtype=dt)
    ev = dict(op='rec', mod=mod, S=S, T=T, q=200 if shift and not c['dbl'] else 10000, occ=0, grad=0, parts=[], shape=1, e=[])
    fx = lambda x: NAN if x != x else round(x) if abs(x) < 1e9 else NONINT
    occ = None
    if c['joint']:
        pp = [tens(p['x'], (B, S, T1)) for p in parts]
        qq = [tens(p['y'], (B, S + 1, T)) for p in parts]
        P = k2.joint_mutual_information_recursion([px] + pp, [py] + qq, bd)
        sc = P.detach().sum(0)
        ev['shape'] = 1 if P.shape == (c['joint'], B) and P.dtype == dt else 0
    else:
        r = k2.mutual_information_recursion(px, py, bd, return_grad=bool(c['occ']))
        if c['occ']:
            sc, occ = r
            ev['shape'] = 1 if isinstance(r, tuple) and occ[0].shape == px.shape and occ[1].shape == py.shape else 0
            ev['occ'] = 1
        else:
            sc = r
        if sc.shape != (B,) or sc.dtype != dt:
            ev['shape'] = 0
    tots = []
    for i, e in enumerate(c['E']):
        b = e['b']
        nS, nT = b[2] - b[0], b[3] - b[1]
        steps = nT if mod else nS + nT
        v = float(sc[i]) - shift * steps
        tots.append(NAN if v != v else math.exp(v) if v < 20 else math.inf)
    g3 = lambda t, i, k: [[fx(v * k) for v in r] for r in t[i].tolist()]
    for i, e in enumerate(c['E']):
        v = tots[i]
        d = dict(b=e['b'], x=e['x'], y=e['y'], w=e['w'], tot=fx(v * 1000))
        if occ:
            d.update(ox=g3(occ[0], i, v * 1000), oy=g3(occ[1], i, v * 1000))
        ev['e'].append(d)
    if c['grad'] and not c['joint']:
        (sc * w).sum().backward()
        ev['grad'] = 1
        for i, d in enumerate(ev['e']):
            d.update(gx=g3(px.grad, i, tots[i] * 1000), gy=g3(py.grad, i, tots[i] * 1000))
    if c['joint'] and c['grad']:
        a = [rng.choice([1, 2, 3]) for _ in range(c['joint'])]
        (P * torch.tensor(a, dtype=dt).reshape(-1, 1)).nan_to_num(0, 0, 0).sum().backward()
        ev['grad'] = 1
        for i, d in enumerate(ev['e']):
            d.update(w=a[0], gx=g3(px.grad, i, tots[i] * 1000), gy=g3(py.grad, i, tots[i] * 1000))
        for j, p in enumerate(parts):
            ev['parts'].append(dict(x=p['x'], y=p['y'], a=a[j + 1], d=[fx(float(P[j + 1][i]) * tots[i] * 1000) for i in range(B)],
                                    gx=[g3(pp[j].grad, i, tots[i] * 1000) for i in range(B)], gy=[g3(qq[j].grad, i, tots[i] * 1000) for i in range(B)]))
    return [ev]


def nontrivial(c, ev):
    return any(d['tot'] for e in ev for d in e.get('e', ()))


def finding_match(f, case, ev, l):
    return False

"""C19: transducer losses, pruning windows, pruned losses, lattices from windows."""
from common import *

TRACE_SPEC = 'T19'
RULE = ('rnnt_loss, rnnt_loss_simple, rnnt_loss_pruned (also HAT), rnnt_loss_smoothed with its log-probabilities, get_rnnt_prune_ranges (also the deprecated one), do_rnnt_pruning, pruned_ranges_to_lattice on '
        'batches of 1-3, S 0-4, T 1-5, all topologies, boundaries, reductions, delay penalty, returned occupations, gradients to every class score, float32/float64; classes weigh integers with a constant sum '
        'under arbitrary offsets; non-trivial: a positive total, or a window list with more than one window')
CASE_TIMEOUT = 30
OUTS = ('e', 'ranges', 'arcs', 'oam', 'olm', 'lmix', 'pco', 'red')
SKIP = ('b', 'u', 'v', 'w', 'k', 'sym')
UNIT = 100000


def MODELS(tier):
    return [dict(module='MC19', cfg='MC19.cfg' if tier == 'quick' else 'MC19_deep.cfg', workers=4, actions=['Want'])]


def windows(rng, S, T, r, regular, wild=False):
    """arbitrary valid window starts"""
    if wild:
        return [rng.randint(0, S + 1 - r) for _ in range(T)]
    w = [0]
    hi = S + 1 - r
    for t in range(1, T):
        w.append(min(hi, w[-1] + rng.choice([0, 0, 1, r - 1 if regular else 1])))
    if rng.random() < .7 and regular:       # make it reach the end
        w[-1] = hi
        for t in range(T - 2, -1, -1):
            w[t] = max(w[t], w[t + 1] - (r - 1))
        if w[0] != 0:
            w = [min(hi, t * (r - 1)) for t in range(T)]
    return w


def row(rng, C, N, pos):
    """C nonnegative integers that sum to N"""
    while 1:
        cut = sorted(rng.randint(0, N) for _ in range(C - 1))
        v = [b - a for a, b in zip([0] + cut, cut + [N])]
        if not pos or min(v) > 0:
            return v


def bound(rng, S, T, regular, begin=True, minT=0):
    while 1:
        b = [0, 0, S, T]
        if begin and rng.random() < .25:
            b[0], b[1] = rng.randint(0, S), rng.randint(0, T)
        if rng.random() < .7:
            b[2], b[3] = rng.randint(b[0], S), rng.randint(b[1], T)
        if b[3] >= minT and (regular or b[3] >= b[2]):
            return b


def gen(rng, tier, ctx):
    N = 5200 if tier == 'quick' else 16000
    for i in range(N):
        op = rng.choice(['full', 'full', 'simple', 'simple', 'pruned', 'pruned', 'pruned', 'hat', 'smooth', 'ranges', 'ranges', 'ranges', 'gather', 'lattice', 'lattice'])
        topo = rng.choice(['regular', 'regular', 'modified', 'constrained'])
        reg = topo == 'regular'
        S, T = rng.choice([0, 1, 1, 2, 2, 3, 4]), rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
        if not reg and S > T:
            S = T
        B = rng.choice([1, 1, 2, 3])
        c = dict(op=op, topo=topo, S=S, T=T, B=B, dbl=rng.choice([0, 1]), seed=rng.randrange(1 << 30), bnd=1 if op in ('ranges',) or rng.random() < .7 else 0, red=rng.choice(['mean', 'sum', 'none']),
                 occ=rng.choice([0, 1]), grad=rng.choice([0, 1]), strided=rng.choice([0, 0, 1]), noise=rng.choice([0, 1, 2]))
        if op in ('full', 'simple', 'pruned', 'hat', 'smooth'):
            c['delay'] = rng.choice([0, 0, 0, 1]) if T <= 4 and S <= 3 else 0
            C = c['C'] = 4 if op in ('simple', 'smooth') else rng.choice([2, 3, 4])
            c['blank'] = 0 if op == 'hat' else rng.choice([0, 0, C - 1, rng.randrange(C)])
            steps = S + T if reg else T + (S if topo == 'constrained' else 0)
            N_ = max(n for n in (2, 3, 4, 5, 6) if n == 2 or n ** steps < 30000)
            if op == 'hat':
                N_, M = 2, 2
            else:
                M = 1
            if op in ('simple', 'smooth'):
                A = rng.randint(1, max(1, min(4, N_ - 1)))
                Yv = max(1, N_ - A)
                N_ = A + Yv
                perm = rng.sample(range(4), 4)
            c['N'], c['M'] = N_, M
            r = c['r'] = S + 1 if op not in ('pruned', 'hat') else rng.randint(1, S + 1)
            E = []
            tries = 0
            while len(E) < B and tries < 200:
                tries += 1
                b = bound(rng, S, T, reg) if c['bnd'] else [0, 0, S, T]
                sym = [rng.randrange(C) if rng.random() < .05 and op != 'hat' else rng.choice([x for x in range(C) if x != c['blank']]) for _ in range(S)]
                e = dict(b=b, sym=sym, k=rng.choice([1, 1, 2, 3]), w=[0] * T)
                if op in ('simple', 'smooth'):
                    if op == 'simple':
                        a = [rng.randint(0, A) for _ in range(S + 1)]
                        y = [rng.randint(0, Yv) for _ in range(T)]
                        e['u'] = [[[x, A - x, 1, 1][p] for p in perm] for x in a]
                        e['v'] = [[[1, 1, x, Yv - x][p] for p in perm] for x in y]
                    else:
                        e['u'] = [row(rng, 4, 6, True) for _ in range(S + 1)]
                        e['v'] = [[rng.randint(1, 3) for _ in range(4)] for _ in range(T)]
                elif op == 'hat':
                    e['w'] = windows(rng, S, T, r, reg, rng.random() < .1)
                    e['e'] = [[[1] + row(rng, C - 1, M, False) for _ in range(r)] for _ in range(T)]
                else:
                    if op == 'pruned':
                        e['w'] = windows(rng, S, T, r, reg, rng.random() < .1)
                    pos = rng.random() < .3 and N_ >= C
                    e['e'] = [[row(rng, C, N_, pos) for _ in range(r)] for _ in range(T)]
                if op != 'smooth' and total(c, e) * N_ * M * M > 60000:
                    continue
                E.append(e)
            if len(E) < B:
                continue
            c['E'] = E
            if op == 'smooth':
                c['M'] = 6
                c['l'], c['a'] = rng.choice([(0, 0), (1, 1), (2, 1), (0, 3), (3, 0), (5, 5), (4, 1)])
        elif op == 'ranges':
            if reg and S == 0:
                S = c['S'] = 1
            E = []
            for _ in range(B):
                b = bound(rng, S, T, reg, begin=False, minT=1)
                kind = rng.choice(['rand', 'peak', 'big'])
                hi = 3 if kind == 'rand' else 60
                gx = [[rng.randint(0, hi) for _ in range(T + reg)] for _ in range(S)]
                gy = [[rng.randint(0, hi) for _ in range(T)] for _ in range(S + 1)]
                if kind == 'peak':
                    for t in range(T):
                        gy[rng.randint(0, S)][t] += 500
                E.append(dict(b=b, gx=gx, gy=gy))
            c['E'] = E
            c['old'] = 1 if rng.random() < .25 else 0
            c['r0'] = rng.randint(2 if reg else 1, S + 2)
            if c['old'] and reg:
                c['r0'] = max(2, c['r0'])
        elif op == 'gather':
            r = c['r'] = rng.randint(1, S + 1)
            c['w'] = [windows(rng, S, T, r, reg, rng.random() < .2) for _ in range(B)]
            c['D'], c['D2'] = rng.randint(1, 3), rng.randint(1, 3)
        else:
            c['topo'] = 'regular'
            c['C'] = rng.choice([2, 3, 4])
            r = c['r'] = rng.randint(2, S + 1) if S else 1
            if r == 1:
                S = c['S'] = 1
                r = c['r'] = 2
            c['w'] = [windows(rng, S, T, r, True) for _ in range(B)]
            c['frames'] = [rng.choice([T, rng.randint(0, T)]) for _ in range(B)]
            c['sym'] = [[rng.randint(1, c['C'] - 1) for _ in range(S)] for _ in range(B)]
            c['ty'] = rng.choice([0, 1, 2])
        yield c


def total(c, e):
    """upper bound of what the specification will sum"""
    T, S, r, N = c['T'], c['S'], c['r'], c['N']
    blank, reg = c['blank'], c['topo'] == 'regular'

    def cw(s, t, k):
        if t >= T or not (e['w'][t] <= s < e['w'][t] + r):
            return 0
        if 'u' in e:
            return e['u'][s][k] * e['v'][t][k]
        x = e['e'][t][s - e['w'][t]]
        return x[k] if c['op'] != 'hat' else x[0] * c['M'] if k == 0 else (N - x[0]) * x[k]
    f = {(e['b'][0], e['b'][1]): 1}
    for s in range(e['b'][0], e['b'][2] + 1):
        for t in range(e['b'][1], e['b'][3] + 1):
            v = f.get((s, t), 0)
            f[s, t] = v
            x = cw(s, t, e['sym'][s]) * (2 ** (T - 1 - t) if c['delay'] and t < T else 1) if s < S else 0
            y = cw(s, t, blank)
            if c['topo'] == 'constrained':
                x *= cw(s + 1, t, blank)
            d = (s + 1, t) if reg else (s + 1, t + 1)
            f[d] = f.get(d, 0) + v * x
            f[s, t + 1] = f.get((s, t + 1), 0) + v * y
    return max(f.values())


def run(c):
    torch, k2, _k2 = k2mods()
    rng = random.Random(c['seed'])
    dt = torch.float64 if c['dbl'] else torch.float32
    B, S, T, topo, op = c['B'], c['S'], c['T'], c['topo'], c['op']
    reg = topo == 'regular'
    fx = lambda x: NAN if x != x else POSINF if x > 1e9 else NEGINF if x < -1e9 else round(x)
    lg = lambda v: math.log(v) if v else -math.inf
    noise = lambda: {0: 0., 1: rng.uniform(-2, 2), 2: rng.choice([-30., 30., 0.])}[c['noise']]

    def tens(v, shape, grad=None):
        t = torch.tensor(v, dtype=torch.float64).reshape(shape).to(dt)
        if c['strided']:
            p = list(range(t.dim()))[::-1]
            t = t.permute(p).contiguous().permute(p)
        return t.requires_grad_(bool(c['grad'] if grad is None else grad))
    if op in ('full', 'simple', 'pruned', 'hat', 'smooth'):
        E, C, N, M = c['E'], c['C'], c['N'], c['M']
        bd = torch.tensor([e['b'] for e in E], dtype=torch.int64).reshape(B, 4) if c['bnd'] else None
        sym = torch.tensor([e['sym'] for e in E], dtype=torch.int64).reshape(B, S)
        kw = dict(symbols=sym, termination_symbol=c['blank'], boundary=bd, rnnt_type=topo)
    if op in ('full', 'simple', 'pruned', 'hat'):
        dp = dict(delay_penalty=math.log(2) if c['delay'] else 0.0)
        if op == 'simple':
            lm, am = [], []
            for e in E:
                lm.append([[lg(x) + n for x in u] for u in e['u'] for n in [noise()]])
                am.append([[lg(x) + n for x in u] for u in e['v'] for n in [noise()]])
            lm, am = tens(lm, (B, S + 1, C)), tens(am, (B, T, C))
            call = lambda red, rg=False: k2.rnnt_loss_simple(lm=lm, am=am, reduction=red, return_grad=rg, **kw, **dp)
            ins = (lm, am)
        else:
            L = []
            for e in E:
                if op == 'hat':
                    L.append([[[lg(x[0]) - lg(N - x[0])] + [lg(v) + n for v in x[1:]] for x in cell for n in [noise()]] for cell in e['e']])
                else:
                    L.append([[[lg(v) + n for v in x] for x in cell for n in [noise()]] for cell in e['e']])
            lo = tens(L, (B, T, c['r'], C))
            ins = (lo,)
            if op == 'full':
                call = lambda red, rg=False: k2.rnnt_loss(logits=lo, reduction=red, **kw, **dp)
            else:
                ra = torch.tensor([[[w + k for k in range(c['r'])] for w in e['w']] for e in E], dtype=torch.int64).reshape(B, T, c['r'])
                call = lambda red, rg=False: k2.rnnt_loss_pruned(logits=lo, ranges=ra, reduction=red, use_hat_loss=op == 'hat', **kw, **dp)
        before = [x.detach().clone() for x in ins]
        occ = None
        ls = call('none', True if c['occ'] and op == 'simple' else False)
        if isinstance(ls, tuple):
            ls, occ = ls
        red = call(c['red']) if c['red'] != 'none' else ls.sum()
        if isinstance(red, tuple):
            red = red[0]
        ev = dict(op='loss', kind='simple' if op == 'simple' else 'joint', topo=topo, S=S, T=T, C=C, N=N, M=M, r=c['r'], blank=c['blank'], hat=1 if op == 'hat' else 0, delay=c['delay'], sc=1000,
                  occ=1 if occ else 0, grad=c['grad'], dtype=1 if ls.dtype == dt and ls.shape == (B,) and red.dim() == 0 and all(torch.equal(a, b.detach()) for a, b in zip(before, ins)) else 0)
        ev['none'] = [fx(float(x) * 1000) for x in ls]
        ev['red'] = fx(float(red) * 1000 * (B if c['red'] == 'mean' else 1))
        mults = []
        for e in E:
            b = e['b']
            nS, nT = b[2] - b[0], b[3] - b[1]
            steps = nS + nT if reg else nT + (nS if topo == 'constrained' else 0)
            m = float(N * M) ** steps
            if c['delay']:
                m *= 2. ** (nS * (T - 1 - (b[3] - 1) / 2))
            mults.append(m)
        tots = [m * math.exp(-float(x)) if x == x else NAN for m, x in zip(mults, ls)]
        if c['grad']:
            w = torch.tensor([e['k'] for e in E], dtype=dt)
            ok = torch.isfinite(ls)
            torch.where(ok, ls * w, torch.zeros_like(ls)).sum().backward()
        ev['e'] = []
        for i, e in enumerate(E):
            v = tots[i]
            d = dict(b=e['b'], sym=e['sym'], k=e['k'], w=e['w'], tot=fx(v * 1000))
            d.update({k: e[k] for k in ('u', 'v', 'e') if k in e})
            if occ:
                d['ox'] = [[fx(x * v * 100) for x in q] for q in occ[0][i].tolist()]
                d['oy'] = [[fx(x * v * 100) for x in q] for q in occ[1][i].tolist()]
            if c['grad']:
                f = v * N * M * 100
                q2 = lambda t: [[fx(x * f) for x in q] for q in t[i].tolist()]
                if op == 'simple':
                    d.update(gu=q2(lm.grad), gv=q2(am.grad))
                else:
                    d['g'] = [[[fx(x * f) for x in q] for q in p] for p in lo.grad[i].tolist()]
            ev['e'].append(d)
        return [ev]
    if op == 'smooth':
        lm = tens([[[lg(x) + n for x in u] for u in e['u'] for n in [noise()]] for e in E], (B, S + 1, C), False)
        am = tens([[[lg(x) + n for x in u] for u in e['v'] for n in [noise()]] for e in E], (B, T, C), False)
        f = lambda l, a: k2.get_rnnt_logprobs_smoothed(lm, am, lm_only_scale=l, am_only_scale=a, **dict(kw, rnnt_type='modified' if topo == 'constrained' else topo))
        l, a = c['l'] / 10, c['a'] / 10
        mix = k2.get_rnnt_logprobs_smoothed(lm, am, lm_only_scale=l, am_only_scale=a, **kw)
        co, ll, la = f(0., 0.), f(1., 0.), f(0., 1.)
        pr = k2.get_rnnt_logprobs(lm, am, **dict(kw, rnnt_type='modified' if topo == 'constrained' else topo))
        dp = rng.choice([0., 0., .25, 1.])
        args = dict(lm_only_scale=l, am_only_scale=a, delay_penalty=dp, **kw)
        ls = k2.rnnt_loss_smoothed(lm, am, reduction='none', **args)
        red = k2.rnnt_loss_smoothed(lm, am, reduction=c['red'], **args)
        px = mix[0].clone()
        for i in range(B):
            te = E[i]['b'][3]
            for t in range(px.shape[2]):
                px[i, :, t] += ((te - 1) / 2 - t) * dp
        rec = -k2.mutual_information_recursion(px, mix[1], bd)
        J = lambda q, k, ex=False: dict(x=[[[fx((math.exp(v) if ex else v) * k) for v in r[:T] + r[T:]] for r in m] for m in q[0].tolist()],
                                        y=[[[fx((math.exp(v) if ex else v) * k) for v in r] for r in m] for m in q[1].tolist()])
        P = lambda q: J(q, 100000, True)
        ev = dict(op='smooth', topo=topo, S=S, T=T, C=C, M=6, blank=c['blank'], l=c['l'], a=c['a'], e=[{k: e[k] for k in ('b', 'sym', 'u', 'v')} for e in E],
                  pco=P(pr), plm=P(ll), pam=P(la), lmix=J(mix, 10000), lco=J(co, 10000), llm=J(ll, 10000), lam=J(la, 10000),
                  loss=[fx(float(x) * 1000) for x in ls], rec=[fx(float(x) * 1000) for x in rec],
                  red=fx(float(red.sum()) * 1000 * (B if c['red'] == 'mean' else 1)))
        return [ev]
    if op == 'ranges':
        E = c['E']
        gx = tens([e['gx'] for e in E], (B, S, T + reg), False)
        gy = tens([e['gy'] for e in E], (B, S + 1, T), False)
        bd = torch.tensor([e['b'] for e in E], dtype=torch.int64)
        import contextlib, io
        from k2.rnnt_loss import get_rnnt_prune_ranges_deprecated as dep
        with contextlib.redirect_stdout(io.StringIO()):
            ra = (dep if c['old'] else k2.get_rnnt_prune_ranges)(gx, gy, bd, c['r0'])
        return [dict(op='ranges', reg=1 if reg else 0, old=c['old'], S=S, T=T, r0=c['r0'], r=ra.shape[2], b=[e['b'] for e in E], gx=[e['gx'] for e in E], gy=[e['gy'] for e in E], ranges=ra.tolist())]
    r = c['r']
    ra = [[[x + k for k in range(r)] for x in w] for w in c['w']]
    if op == 'gather':
        am = [[[rng.randint(-99, 99) for _ in range(c['D'])] for _ in range(T)] for _ in range(B)]
        lm = [[[rng.randint(-99, 99) for _ in range(c['D2'])] for _ in range(S + 1)] for _ in range(B)]
        a, l = k2.do_rnnt_pruning(tens(am, (B, T, c['D']), False), tens(lm, (B, S + 1, c['D2']), False), torch.tensor(ra, dtype=torch.int64))
        q = lambda t: [[[[fx(x) for x in w] for w in v] for v in u] for u in t.tolist()]
        return [dict(op='gather', T=T, r=r, ranges=ra, am=am, lm=lm, oam=q(a), olm=q(l))]
    C = c['C']
    dt = [torch.float32, torch.float64, torch.float16][c['ty']]
    lo = [rng.randint(-50, 50) for _ in range(B * T * r * C)]
    f, m = k2.pruned_ranges_to_lattice(torch.tensor(ra, dtype=torch.int32), torch.tensor(c['frames'], dtype=torch.int32), torch.tensor(c['sym'], dtype=torch.int64).reshape(B, S),
                                       torch.tensor(lo, dtype=dt).reshape(B, T, r, C)) if hasattr(k2, 'pruned_ranges_to_lattice') else \
        _k2.pruned_ranges_to_lattice(torch.tensor(ra, dtype=torch.int32), torch.tensor(c['frames'], dtype=torch.int32), torch.tensor(c['sym'], dtype=torch.int64).reshape(B, S),
                                     torch.tensor(lo, dtype=dt).reshape(B, T, r, C))
    fv = f if isinstance(f, k2.Fsa) else k2.Fsa(f)
    arcs, ns, m = [], [], m.tolist()
    p = 0
    for i in range(B):
        g = fv[i]
        A = g.arcs.values()[:, :3].tolist()
        sc = g.scores.tolist()
        arcs.append([[int(x[0]), int(x[1]), int(x[2]), fx(s), m[p + j]] for j, (x, s) in enumerate(zip(A, sc))])
        p += len(A)
        ns.append(g.arcs.dim0())
    return [dict(op='lattice', T=T, S=S, C=C, r=r, w=c['w'], frames=c['frames'], sym=c['sym'], logits=lo, arcs=arcs, ns=ns)]


def nontrivial(c, ev):
    return any(any(d.get('tot') for d in e['e'] if isinstance(d, dict)) if e.get('op') == 'loss' else e.get('op') == 'smooth' or e.get('r', 0) >= 2 for e in ev)


def finding_match(f, case, ev, l):
    return False

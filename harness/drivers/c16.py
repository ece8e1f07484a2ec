"""C16: CTC topologies, CTC graphs and the CTC loss."""
from common import *
from itertools import product

TRACE_SPEC = 'T16'
RULE = ('ctc_topo/ctc_graph/trivial_graph and composed graphs (standard and modified, vocabularies up to 6, empty/repeated/too long transcripts, RaggedTensor and list input, '
        'batches) against all or sampled frame sequences; ctc_loss on 1-4 utterances (shuffled rows, offsets, truncation, zero probabilities, several pronunciations, beams, '
        'delay penalty in both branches, reductions, precision) with gradients; non-trivial: some frame sequence is accepted or some total is positive')
CASE_TIMEOUT = 30
UNIT = 1000
OUTS = ('f', 'aux', 'tot', 'sum', 'mean', 'grad')


def MODELS(tier):
    return [dict(module='MC16', cfg='MC16.cfg' if tier == 'quick' else 'MC16_deep.cfg', workers=4, actions=['AddFrame', 'AddLabel'])]


def rand_y(rng, V, mx=4):
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, mx])
    y = []
    for _ in range(n):
        y.append(y[-1] if y and rng.random() < .35 else rng.randint(1, V))
    return y


def align(rng, y, mod, T):
    """a random frame sequence that may well be an alignment of y"""
    x = []
    for i, s in enumerate(y):
        if (i and y[i - 1] == s and (not mod or rng.random() < .5)) or rng.random() < .3:
            x += [0] * rng.choice([1, 1, 2])
        x += [s] * rng.choice([1, 1, 1, 2, 3])
    if rng.random() < .3:
        x += [0]
    if x and rng.random() < .3:
        x[rng.randrange(len(x))] = rng.choice([0] + y)
    return x[:T]


def total(y, mod, p, pen):
    """only used to keep the numbers small"""
    S = [1] + [0] * (2 * len(y))
    sy = [0]
    for v in y:
        sy += [v, 0]
    for t, r in enumerate(p):
        N = [0] * len(S)
        for s in range(len(S)):
            for d in (s, s + 1, s + 2):
                if d < len(S) and (d != s + 2 or (d % 2 and (mod or sy[s] != sy[d]))):
                    N[d] += S[s] * r[sy[d]] * (2 ** pen[t] if d > s and d % 2 else 1)
        S = N
    return sum(S[-2:])


def gen(rng, tier, ctx):
    N = 8000 if tier == 'quick' else 25000
    for i in range(N):
        r = rng.random()
        mod = rng.choice([0, 1])
        if r < .01:
            yield dict(kind='trivial', V=rng.choice([0, 1, 2, 3, 7, 50]))
        elif r < .06:
            V = rng.choice([0, 1, 2, 3, 6])
            if V <= 2:
                xs = [list(x) for n in range(4) for x in product(range(V + 1), repeat=n)]
            else:
                xs = [[rng.randint(0, V)] for _ in range(3)]
            xs += [align(rng, rand_y(rng, V), mod, 7) for _ in range(6)] if V else []
            xs += [[rng.randint(0, V) for _ in range(rng.randint(0, 7))] for _ in range(4)]
            yield dict(kind='topo', V=V, mod=mod, xs=xs)
        elif r < .3:
            V = rng.choice([1, 2, 3, 6])
            ys = [rand_y(rng, V, 6) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
            xs = []
            for y in ys:
                X = [align(rng, y, mod, 9) for _ in range(8)] + [[rng.randint(0, V) for _ in range(rng.randint(0, 5))] for _ in range(4)]
                if V <= 2 and len(y) <= 2:
                    X += [list(x) for n in range(4) for x in product(range(V + 1), repeat=n)]
                xs.append(X)
            yield dict(kind='graph', V=V, mod=mod, ys=ys, xs=xs, via=rng.choice(['list', 'ragged', 'ragged', 'compose']))
        else:
            yield loss_case(rng, mod)


def loss_case(rng, mod):
    while True:
        n = rng.choice([1, 1, 2, 3, 4])
        V = rng.choice([1, 2, 3])
        T = rng.choice([1, 2, 3, 4, 5, 6, 8])
        delay = rng.choice([0, 0, 1])
        own = rng.random() < .8
        NB = n if own else rng.choice([1, 2])
        rows = rng.sample(range(NB), n) if own else [rng.randrange(NB) for _ in range(n)]
        zp = rng.choice([0, 0, .1])
        p = [[[0 if rng.random() < zp else rng.choice([1, 1, 2, 3]) for _ in range(V + 1)] for _ in range(T)] for _ in range(NB)]
        trunc = rng.choice([0, 0, 1])
        segs = []
        for k in range(n):
            st = rng.choice([0, 0, rng.randrange(T)])
            d = rng.randint(1, T - st + trunc)
            if rng.random() < .3:
                d = max(1, T - st)
            segs.append([rows[k], st, d])
        segs.sort(key=lambda s: -min(s[2], T - s[1]))
        via = rng.choice(['graph', 'graph', 'repeat', 'compose'])
        nalt = 1 if via == 'graph' else rng.choice([1, 1, 2])
        alts = [[rand_y(rng, V, 4) for _ in range(nalt)] for _ in range(n)]
        K = rng.choice([0, 0, 5, 11, 50]) if nalt == 1 and not mod else 0
        if delay:
            alts = [[(y * 4 + [1] * 4)[:len(a[0])] for y in a] for a in alts]
        ok = True
        for k in range(n):
            fr = p[segs[k][0]][segs[k][1]:segs[k][1] + segs[k][2]]
            pen = [len(fr) - 1 - t if delay else 0 for t in range(len(fr))]
            if sum(total(y, mod, fr, pen) for y in alts[k]) > 40000:
                ok = False
        if ok:
            return dict(kind='loss', V=V, mod=mod, p=p, segs=segs, trunc=trunc, alts=alts, K=K, delay=delay, via=via, own=1 if len(set(rows)) == n else 0,
                        red=rng.choice(['none', 'none', 'sum', 'mean']), dbl=rng.choice([0, 1]), len=[rng.randint(1, 5) for _ in range(n)],
                        w=[rng.choice([1, 1, 2, 3]) for _ in range(n)], func=rng.choice([0, 1]))


def alt_fsa(alts):
    """union of linear acceptors sharing start and final state"""
    n = 1 + sum(len(y) for y in alts) + 1
    a, nx = [], 1
    for y in alts:
        cur = 0
        for s in y:
            a.append([cur, nx, s, 0])
            cur, nx = nx, nx + 1
        a.append([cur, n - 1, -1, 0])
    a.sort(key=lambda x: x[0])
    return dict(n=n, a=a)


def run(c):
    torch, k2, _k2 = k2mods()
    if c['kind'] == 'trivial':
        f = k2.trivial_graph(c['V'])
        return [dict(op='trivial', V=c['V'], f=fsa_json(f)['f'][0], aux=tl(f.aux_labels))]
    if c['kind'] == 'topo':
        f = k2.ctc_topo(c['V'], modified=bool(c['mod']))
        return [dict(op='topo', V=c['V'], mod=c['mod'], f=fsa_json(f)['f'][0], aux=tl(f.aux_labels), xs=c['xs'])]
    if c['kind'] == 'graph':
        if c['via'] == 'compose':
            H = k2.ctc_topo(c['V'], modified=bool(c['mod']))
            L = k2.linear_fsa(c['ys'])
            f = k2.compose(H, L)
        else:
            y = c['ys'] if c['via'] == 'list' and any(c['ys']) else k2.RaggedTensor(c['ys'], dtype=torch.int32)
            f = k2.ctc_graph(y, modified=bool(c['mod']))
        return [dict(op='graph', V=c['V'], mod=c['mod'], ys=c['ys'], xs=c['xs'], f=fsa_json(f)['f'], aux=tl(f.aux_labels))]
    mod = bool(c['mod'])
    if c['via'] == 'graph':
        g = k2.ctc_graph(k2.RaggedTensor([a[0] for a in c['alts']], dtype=torch.int32), modified=mod)
    else:
        H = k2.ctc_topo(c['V'], modified=mod)
        if c['via'] == 'repeat' and not mod:
            H._is_repeat_token_ = H.labels != H.aux_labels
        G = k2.arc_sort(mk_vec([alt_fsa(a) for a in c['alts']]))
        g = k2.compose(H, G)
    p = torch.tensor(c['p'], dtype=torch.float32).log()
    p.requires_grad_(True)
    d = k2.DenseFsaVec(p, torch.tensor(c['segs'], dtype=torch.int32), allow_truncate=c['trunc'])
    beam = 1000. if c['K'] == 0 else math.log((2 * c['K'] + 1) / 2)
    pen = math.log(2) if c['delay'] else 0.
    ln = torch.tensor(c['len'])

    def loss(red):
        kw = dict(output_beam=beam, reduction=red, use_double_scores=bool(c['dbl']))
        kw2 = dict(delay_penalty=pen, target_lengths=ln if red == 'mean' else None)
        return k2.ctc_loss(g, d, **kw, **kw2) if c['func'] else k2.CtcLoss(**kw)(g, d, **kw2)
    n = len(c['segs'])
    none = loss('none')
    rs, rm = loss('sum'), loss('mean')
    T = len(c['p'][0])
    fac = []
    for k, s in enumerate(c['segs']):
        D = min(s[2], T - s[1])
        fac.append(2. ** (len(c['alts'][k][0]) * (D - 1 - (D >> 1))) if c['delay'] else 1.)
    tot = [math.exp(-float(x)) * z for x, z in zip(none.tolist(), fac)]
    fx = lambda x, k: NAN if x != x else POSINF if x == math.inf else NEGINF if x == -math.inf else round(x * k) if abs(x * k) < 1e9 else NONINT
    ev = dict(op='loss', mod=c['mod'], C=c['V'] + 1, p=c['p'], segs=c['segs'], alts=c['alts'], K=c['K'], delay=c['delay'], len=c['len'], red=c['red'], w=[1] * n,
              tot=[fx(x, 1000) for x in tot], loss=[fx(float(x), 1e5) for x in none.tolist()], sum=fx(float(rs), 1e5), mean=fx(float(rm), 1e5), hasgrad=c['own'], grad=[])
    if rs.dim() or rm.dim() or none.shape != (n,) or none.dtype != torch.float32:
        ev['sum'] = NONINT
    if c['own']:
        if c['red'] == 'none':
            (none * torch.tensor(c['w'], dtype=torch.float32)).sum().backward()
            ev['w'] = c['w']
        else:
            (rs if c['red'] == 'sum' else rm).backward()
        gr = p.grad.tolist()
        for k, s in enumerate(c['segs']):
            z = tot[k] * (c['len'][k] * n if c['red'] == 'mean' else 1)
            gr[s[0]] = [[x if x == 0 else x * z for x in q] for q in gr[s[0]]]
        ev['grad'] = [[[fx(x, 1000) for x in q] for q in r] for r in gr]
    return [ev]


def nontrivial(c, ev):
    return any(e['op'] in ('topo', 'graph') or any(x for x in e.get('tot', ())) for e in ev)


def finding_match(f, case, ev, l):
    return False

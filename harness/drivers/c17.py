"""C17: Levenshtein graphs and alignments, minimum word error loss."""
from common import *
from drivers.c08 import dag

TRACE_SPEC = 'T17'
RULE = ('levenshtein_graph of 1-4 sequences (empty, repeated) with several insertion/deletion scores against sampled inputs; levenshtein_alignment for random maps, different scores '
        'on both sides, sorted or not, repeated on the same operands; mwer_loss on 1-3 random lattices (ragged and plain words, temperatures, scales, path counts, reductions) '
        'with gradients; non-trivial: an edit distance or a loss is positive')
CASE_TIMEOUT = 30
OUTS = ('f', 'aux', 'rl', 'hl', 'tot', 'loss', 'grad')
UNIT = 1000


def MODELS(tier):
    return [dict(module='MC17', cfg='MC17.cfg' if tier == 'quick' else 'MC17_deep.cfg', workers=4, actions=['AddRef', 'AddHyp'])]


def seq(rng, V, mx=6):
    return [rng.randint(1, V) for _ in range(rng.choice([0, 1, 2, 2, 3, 4, mx]))]


def near(rng, y, V):
    z = []
    for s in y:
        r = rng.random()
        if r < .15:
            continue
        z.append(rng.randint(1, V) if r < .3 else s)
        if r > .88:
            z.append(rng.randint(1, V))
    return z


QS = [-501, -501, -501, -500, -600, -1000, -250, -1, -2000]


def gen(rng, tier, ctx):
    N = 8000 if tier == 'quick' else 15000
    for i in range(N):
        r = rng.random()
        V = rng.choice([1, 2, 3, 9])
        if r < .2:
            ys = [seq(rng, V, 4) for _ in range(rng.choice([1, 2, 3, 4]))]
            zs = []
            for y in ys:
                Z = []
                for _ in range(6):
                    z = [x if rng.random() < .6 else 0 for x in y]
                    for _ in range(rng.choice([0, 0, 1, 2])):
                        z.insert(rng.randint(0, len(z)), rng.choice([0, 0, rng.randint(1, V)]))
                    Z.append(z[:6])
                zs.append(Z)
            yield dict(kind='graph', ys=ys, zs=zs, q=rng.choice(QS), via=rng.choice(['list', 'ragged']))
        elif r < .65:
            refs = [seq(rng, V) for _ in range(rng.choice([1, 2, 3]))]
            mp = [rng.randrange(len(refs)) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
            hyps = [near(rng, refs[m], V) if rng.random() < .6 else seq(rng, V) for m in mp]
            yield dict(kind='align', refs=refs, hyps=hyps, map=mp, qr=rng.choice(QS), qh=rng.choice(QS), same=rng.choice([0, 1]), srt=rng.choice([0, 1]), twice=rng.choice([0, 1]))
        else:
            n = rng.choice([1, 1, 2, 3])
            F, AX, refs = [], [], []
            for _ in range(n):
                f = dag(rng, 'log', 0, n=rng.choice([3, 4, 5, 6]), narcs=rng.randint(3, 10))
                for s in range(f['n'] - 1):     # something is accepted
                    if rng.random() < .5 or not any(a[0] == s for a in f['a']):
                        f['a'].append([s, s + 1, -1 if s + 1 == f['n'] - 1 else rng.choice([1, 2]), 1])
                f['a'].sort(key=lambda a: a[0])
                for a in f['a']:
                    a[3] = max(1, min(a[3], 3))
                F.append(f)
                refs.append(seq(rng, 3, 5))
            rag = rng.choice([0, 0, 1])
            aux = [[-1] if a[2] == -1 else [rng.randint(1, 3) for _ in range(rng.choice([0, 1, 1, 2]))] if rag else [rng.choice([0, 1, 2, 3])] for f in F for a in f['a']]
            yield dict(kind='mwer', f=F, aux=aux, rag=rag, refs=refs, temp=rng.choice([1, 1, .5, 2]), dbl=rng.choice([0, 1]), scale=rng.choice([1., .5, .1]),
                       np=rng.choice([1, 2, 3, 5, 10, 100]), red=rng.choice(['none', 'sum', 'mean']), func=rng.choice([0, 1]), rref=rng.choice([0, 1]), seed=rng.randrange(1 << 30))


def q_(q):
    return q / 1000


def lev(k2, torch, ys, q, via='ragged'):
    y = ys if via == 'list' and ys[0] else k2.RaggedTensor(ys, dtype=torch.int32)
    return k2.levenshtein_graph(y) if q == -501 and via == 'list' else k2.levenshtein_graph(y, ins_del_score=q_(q))


def run(c):
    torch, k2, _k2 = k2mods()
    th = lambda x: ri(1000 * float(x))
    if c['kind'] == 'graph':
        g = lev(k2, torch, c['ys'], c['q'], c['via'])
        return [dict(op='graph', ys=c['ys'], zs=c['zs'], q=c['q'], f=fsa_json(g, th)['f'], aux=tl(g.aux_labels))]
    if c['kind'] == 'align':
        qh = c['qr'] if c['same'] else c['qh']
        refs, hyps = lev(k2, torch, c['refs'], c['qr']), lev(k2, torch, c['hyps'], qh, 'list')
        snap = lambda f: (fsa_json(f, th), tl(f.aux_labels) if hasattr(f, 'aux_labels') else None, hasattr(f, 'hyp_labels'))
        s0 = (snap(refs), snap(hyps))
        evs = []
        for _ in range(1 + c['twice']):
            a = k2.levenshtein_alignment(refs, hyps, hyp_to_ref_map=torch.tensor(c['map'], dtype=torch.int32), sorted_match_ref=bool(c['srt']))
            evs.append(dict(op='align', refs=c['refs'], hyps=c['hyps'], map=c['map'], qr=c['qr'], qh=qh, f=fsa_json(a, th)['f'], rl=tl(a.ref_labels), hl=tl(a.hyp_labels),
                            tot=[th(x) for x in a.get_tot_scores(use_double_scores=bool(c['srt']), log_semiring=False).tolist()], same=1 if (snap(refs), snap(hyps)) == s0 else 0))
        return evs
    rng = random.Random(c['seed'])
    t = c['temp']
    roots = [a[3] for f in c['f'] for a in f['a']]
    x = torch.tensor([math.log(w) * (2 if t == 2 else 1) for w in roots], dtype=torch.float32, requires_grad=True)
    w = [v * v for v in roots] if t == .5 else roots

    def lat(y):
        v = mk_vec([dict(n=f['n'], a=[[a[0], a[1], a[2], 0] for a in f['a']]) for f in c['f']])
        v.aux_labels = k2.RaggedTensor(c['aux'], dtype=torch.int32) if c['rag'] else torch.tensor([a[0] for a in c['aux']], dtype=torch.int32)
        v.scores = y
        return v
    nb = k2.Nbest.from_lattice(lat(x.detach().clone()), num_paths=c['np'], use_double_scores=bool(c['dbl']), nbest_scale=c['scale'])
    rs = nb.shape.row_splits(1).tolist()
    kp = nb.kept_path.tolist()
    paths = [kp[rs[i]:rs[i + 1]] for i in range(len(rs) - 1)]
    S, SW = [], []
    for P in paths:
        ps = [math.prod(w[a] for a in p) for p in P]
        S.append(sum(ps))
    if max(S, default=0) > 400:
        return [dict(op='mwer', red='sum', refs=[], w=[], aux=[], paths=[], arcs=[], hasgrad=0, grad=[], v=[], loss=0)]
    L = lat(x * 1.0)
    refs = k2.RaggedTensor(c['refs'], dtype=torch.int32) if c['rref'] or not c['refs'][0] else c['refs']
    if c['func']:
        loss = k2.mwer_loss(L, refs, nbest_scale=c['scale'], num_paths=c['np'], temperature=t, use_double_scores=bool(c['dbl']), reduction=c['red'])
    else:
        loss = k2.MWERLoss(temperature=t, use_double_scores=bool(c['dbl']), reduction=c['red'])(L, refs, nbest_scale=c['scale'], num_paths=c['np'])
    nums, o = [], 0
    for f in c['f']:
        nums.append([o, o + len(f['a']) - 1])
        o += len(f['a'])
    ev = dict(op='mwer', red=c['red'], refs=c['refs'], w=w, aux=c['aux'], paths=paths, arcs=nums, hasgrad=1, grad=[], v=[[rng.randint(0, 3) for _ in P] for P in paths])
    if c['red'] == 'none':
        l = loss.tolist()
        ev['loss'] = [[round(v * S[u] * 1000) for v in r] for u, r in enumerate(l)]
        top = (loss.values * torch.tensor([v for r in ev['v'] for v in r])).sum()
        f = 1
    else:
        ev['loss'] = NAN if loss != loss else round(float(loss) * 10000)
        top = loss
        f = sum(map(len, paths)) if c['red'] == 'mean' else 1
    top.backward()
    g = x.grad.tolist()
    for u, (b, e) in enumerate(nums):
        ev['grad'] += [NAN if v != v else round(v * S[u] ** 2 * t * 100 * f) for v in g[b:e + 1]]
    return [ev]


def nontrivial(c, ev):
    return any(e['op'] == 'graph' or any(e.get('tot', ())) or e.get('loss') for e in ev)


def finding_match(f, case, ev, l):
    return False

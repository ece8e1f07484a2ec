"""C12: exact pruned intersection of decoding graphs with acoustic scores."""
from common import *

TRACE_SPEC = 'T12'
RULE = ('intersect_dense on 1-4 random graphs (cyclic, dead ends, empty, labels beyond the output layer) with 1-4 supervisions (shared, unused, overlapping, truncated, '
        'zero-length, -inf scores), beams from tiny to large, state/arc limits that force the beam down, gradients; utterances, graphs and batches beyond 65536 frames, states, elements; non-trivial: some arc is kept')
CASE_TIMEOUT = 30
OUTS = ('tots', 'arcs', 'sum', 'f', 'ids', 'fr', 'sf', 'rg', 'ga', 'gb', 'rows', 'dur')


def MODELS(tier):
    return [dict(module='MC12', cfg='MC12.cfg' if tier == 'quick' else 'MC12_deep.cfg', workers=4, actions=['AddArc', 'AddFrame'])]


BIG = ['frames', 'states', 'utts']


def dense_scores(rng, N, T, C, lo=-4, hi=3, inf=.08):
    return [[[NEGINF if rng.random() < inf else rng.randint(lo, hi) for _ in range(C)] for _ in range(T)] for _ in range(N)]


def graph(rng, C, oor=True, wlo=-3, whi=3):
    r = rng.random()
    if r < .04:
        return dict(n=0, a=[])
    n = rng.choice([2, 3, 3, 4, 5])
    f = rand_fsa(rng, n=n, nsym=max(1, C - 1), eps=.15, narcs=rng.choice([1, 3, 5, 8, 11]), wlo=wlo, whi=whi, final_p=.25,
                 extra_syms=rng.choice([[C, C + 3], [C, 65534 + C, 65535, 65536, 65537, 131072 + C]]) if oor and rng.random() < .25 else ())
    for a in f['a']:
        if C == 1 and not oor and a[2] > 0:
            a[2] = 0
        if rng.random() < .02:
            a[3] = NEGINF
    coreach_fix(rng, f)
    return arc_sorted(f)


def segments(rng, N, T, n, trunc):
    S = []
    for _ in range(n):
        st = rng.randrange(T)
        d = rng.choice([0, 1, 2, 3, T, T]) if rng.random() < .7 else T - st
        d = min(d, T - st + trunc)
        S.append([rng.randrange(N), st, d])
    return S


def gen(rng, tier, ctx):
    for k in BIG * (1 if tier == 'quick' else 3):
        yield dict(kind='big', what=k, n=rng.choice([65534, 65535, 65536, 65537, 66001]) if tier == 'quick' else rng.choice([65534, 65535, 65536, 65537, 70000, 131072, 131075]),
                   p=rng.random(), w=rng.randint(-2, 3), s=rng.randint(-3, 3))
    N = 9000 if tier == 'quick' else 40000
    for i in range(N):
        nb, T, C = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 4, 6, 8]), rng.choice([1, 2, 3, 4])
        trunc = rng.choice([0, 0, 2])
        if rng.random() < .04:
            nb, T, C = rng.choice([3, 6]), rng.choice([15, 25]), rng.choice([3, 6])
        S = segments(rng, nb, T, rng.choice([1, 1, 2, 3, 4]), trunc)
        if rng.random() < .07:
            yield dict(kind='dense', lp=dense_scores(rng, nb, T, C), C=C, segs=S, trunc=trunc)
            continue
        S.sort(key=lambda s: -min(s[2], T - s[1]))
        ns = len(S)
        if rng.random() < .4:
            m = sorted(rng.randrange(ns) for _ in range(rng.choice([1, 2, 3, 4])))
            usemap = 1
        else:
            m, usemap = list(range(ns)), rng.choice([0, 0, 1])
        same = rng.random() < .1
        G = [graph(rng, C) for _ in m]
        if same:
            G = [G[0]] * len(m)
        lim = rng.random()
        yield dict(kind='x', lp=dense_scores(rng, nb, T, C, *(rng.choice([(-4, 3), (-1, 1), (-60, 60)]))), C=C, segs=S, trunc=trunc, map=m, usemap=usemap, g=G,
                   beam2=rng.choice([1, 1, 3, 5, 9, 15, 41, 401, 20001]), lim=0 if lim < .75 else 1 if lim < .87 else 2, seed=rng.randrange(1 << 30))


def dense_of(c, rg=False):
    import torch
    import k2
    N, T = len(c['lp']), len(c['lp'][0])
    lp = torch.tensor([[[-math.inf if v == NEGINF else float(v) for v in r] for r in s] for s in c['lp']], dtype=torch.float32).reshape(N, T, c['C'])
    if rg:
        lp.requires_grad_(True)
    return lp, k2.DenseFsaVec(lp, torch.tensor(c['segs'], dtype=torch.int32).reshape(-1, 3), allow_truncate=c.get('trunc', 0))


def vec_of(G):
    return mk_vec([dict(n=f['n'], a=[[a[0], a[1], a[2], -math.inf if a[3] == NEGINF else a[3]] for a in f['a']]) for f in G])


def track(vec):
    """id (1-based over the batch), a ragged attribute derived from it and a non-tensor one"""
    import torch
    import k2
    n = vec.arcs.num_elements()
    vec.id = torch.arange(1, n + 1, dtype=torch.int32)
    vec.rg = k2.RaggedTensor([[i] * (i % 3) for i in range(1, n + 1)], dtype=torch.int32) if n else k2.RaggedTensor('[ ]', dtype=torch.int32)
    vec.note = 'x'
    return vec


def rag_list(x):
    return [list(map(int, r)) for r in x.tolist()]


def run(c):
    torch, k2, _k2 = k2mods()
    if c['kind'] == 'dense':
        lp, d = dense_of(c)
        f = k2.convert_dense_to_fsa_vec(d)
        return [dict(op='dense', lp=c['lp'], C=c['C'], segs=c['segs'], rows=[[si(v) for v in r] for r in d.scores.tolist()], dur=tl(d.duration), dim0=d.dim0(),
                     f=fsa_json(f)['f'])]
    if c['kind'] == 'big':
        return big(c)
    rng = random.Random(c['seed'])
    rga, rgb = rng.choice([0, 1, 1]), rng.choice([0, 1, 1])
    lp, d = dense_of(c, bool(rgb))
    A = track(vec_of(c['g']))
    A.requires_grad_(bool(rga))
    m = torch.tensor(c['map'], dtype=torch.int32) if c['usemap'] else None
    kw = dict(seqframe_idx_name='sf', frame_idx_name='fr')
    maxs, maxa = 15000000, 1073741824
    if c['lim']:
        o = k2.intersect_dense(A, d, .25, a_to_b_map=m, **kw)     # feasible: at least what lies on best paths
        lo_s = o.shape.__getitem__(0) and sum(f['n'] for f in fsa_json(o)['f'])
        tmp = fsa_json(o)
        cnt = 0
        for i, f in enumerate(tmp['f']):
            off = sum(len(x['a']) for x in c['g'][:i])
            base = sum(len(x['a']) for x in tmp['f'][:i])
            seen = set()
            for j, a in enumerate(f['a']):
                if a[0] not in seen:
                    seen.add(a[0])
                    gs = c['g'][i]['a'][int(o.id[base + j]) - 1 - off][0]
                    cnt += sum(1 for x in c['g'][i]['a'] if x[0] == gs)
        if c['lim'] == 1:
            maxs = lo_s + rng.choice([0, 1, 3, 8])
        else:
            maxa = cnt + rng.choice([0, 1, 4, 10])
        kw.update(max_states=max(1, maxs), max_arcs=max(1, maxa))
        maxs, maxa = max(1, maxs), max(1, maxa)
    g0 = fsa_json(A)['f']
    o = k2.intersect_dense(A, d, c['beam2'] / 2, a_to_b_map=m, **kw)
    f = fsa_json(o)
    n = o.arcs.num_elements()
    ev = dict(op='intersect_dense', g=fsa_json(A)['f'], lp=c['lp'], C=c['C'], segs=c['segs'], map=c['map'], beam2=c['beam2'], maxs=maxs, maxa=maxa, f=f['f'], ids=tl(o.id),
              fr=tl(o.fr), sf=tl(o.sf), rg=rag_list(o.rg) if n else [], nt=1 if getattr(o, 'note', None) == 'x' else 0, grad=0, rga=rga, rgb=rgb, w=[], ga=[], gb=[])
    if not f['same'] or g0 != ev['g']:
        ev['nt'] = 2
    if o.scores.requires_grad and n:
        w = [rng.randint(-3, 5) for _ in range(n)]
        (o.scores * torch.tensor(w, dtype=torch.float32)).sum().backward()
        ev.update(grad=1, w=w, ga=[si(x) for x in A.grad.tolist()] if rga and A.grad is not None else [0] * A.arcs.num_elements(),
                  gb=[[[si(v) for v in r] for r in s] for s in lp.grad.tolist()] if rgb else [])
    return [ev]


def big(c):
    """sizes beyond 16 bits: long utterances, large graphs, many utterances"""
    import torch
    import k2
    n, w, s, what = c['n'], c['w'], c['s'], c['what']
    if what == 'frames':        # one state that loops on label 1
        G = [dict(n=2, a=[[0, 0, 1, w], [0, 1, -1, 0]])]
        lp = torch.full((1, n, 3), 0.0)
        lp[:, :, 1] = s
        seg = [[0, 0, n]]
    elif what == 'states':      # a fan of n branches: branch k is better by 7
        k = 1 + int(c['p'] * n) if c['p'] < .8 else n
        G = [dict(n=n + 2, a=[[0, i, 1, w + 7 * (i == k)] for i in range(1, n + 1)] + [[i, n + 1, -1, 0] for i in range(1, n + 1)])]
        lp = torch.full((1, 1, 3), 0.0)
        lp[:, :, 1] = s
        seg = [[0, 0, 1]]
    else:                       # utterance i has i % 3 frames; its graph accepts label 1 + i % 2, element k is different
        k = int(c['p'] * n) if c['p'] < .6 else n - 1
        G = []
        lp = torch.zeros(1, 2, 4)
        lp[0, :, 1], lp[0, :, 2] = s, s + 1
        seg = []
        for i in range(n):
            T = 2 if i < n // 2 else 1
            seg.append([0, 0, T])
            G.append(dict(n=T + 2, a=[[t, t + 1, 1 + i % 2, w + 7 * (i == k)] for t in range(T)] + [[T, T + 1, -1, 0]]))
    A = big_vec(G)
    A.id = torch.arange(A.arcs.num_elements(), dtype=torch.int32)
    d = k2.DenseFsaVec(lp, torch.tensor(seg, dtype=torch.int32))
    o = k2.intersect_dense(A, d, 3.0)
    t = o.get_tot_scores(True, False)
    ev = dict(op='big', what=what, n=n, w=w, s=s, k=k if what != 'frames' else 0, arcs=o.arcs.num_elements(), dim0=o.shape[0])
    if what == 'utts':
        x = t.to(torch.int64) if bool(torch.isfinite(t).all()) else None
        ev.update(tots=[] if x is None else [int(x[i]) for i in (0, 1, n // 2 - 1, n // 2, n - 2, n - 1, k)], ask=[0, 1, n // 2 - 1, n // 2, n - 2, n - 1, k],
                  sum=si(float(t.sum())) if x is not None else NONINT)
    elif what == 'states':
        ev.update(tots=[si(float(t[0]))], ids=tl(o.id), st=[a[:2] for a in o.arcs.values().tolist()])
    else:
        ev.update(tots=[si(float(t[0]))], same=int(bool((o.id[:-1] == 0).all()) and o.arcs.num_elements() > 0 and int(o.id[-1]) == 1))
    return [ev]


def big_vec(G):
    import torch
    import k2
    import _k2
    rs1 = [0]
    rs2 = [0]
    arcs = []
    for g in G:
        cnt = [0] * g['n']
        for a in g['a']:
            cnt[a[0]] += 1
        for x in cnt:
            rs2.append(rs2[-1] + x)
        rs1.append(rs1[-1] + g['n'])
        arcs += g['a']
    sh = k2.ragged.create_ragged_shape2(torch.tensor(rs1, dtype=torch.int32)).compose(k2.ragged.create_ragged_shape2(torch.tensor(rs2, dtype=torch.int32)))
    return k2.Fsa(_k2.RaggedArc(sh, mk_arcs_tensor(dict(a=arcs))))


def nontrivial(c, ev):
    return any(e.get('ids') or e['op'] in ('dense', 'big') for e in ev)


def finding_match(f, case, ev, l):
    return False

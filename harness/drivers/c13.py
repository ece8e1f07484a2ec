"""C13: beam search through decoding graphs (intersect_dense_pruned)."""
from common import *
from drivers.c12 import dense_scores, graph, segments, dense_of, vec_of, track, rag_list

TRACE_SPEC = 'T13'
RULE = ('intersect_dense_pruned with shared and per-utterance graphs (cyclic, dead ends, empty), utterances of different lengths including ones over several pruning windows, '
        'search beams from tight to wide, minimum and maximum active states that bind, partial results; every frame of the search is recomputed with its beam; '
        'non-trivial: some arc is kept')
CASE_TIMEOUT = 30
OUTS = ('f', 'ids', 'fr', 'sf', 'rg', 'ga', 'gb')


def MODELS(tier):
    return [dict(module='MC13', cfg='MC13.cfg' if tier == 'quick' else 'MC13_deep.cfg', workers=4, actions=['AddArc', 'AddFrame'])]


def gen(rng, tier, ctx):
    N = 6000 if tier == 'quick' else 26000
    for i in range(N):
        nb, T, C = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 4, 6, 8, 11]), rng.choice([1, 2, 3, 4])
        long = rng.random() < .04
        if long:
            nb, T, C = rng.choice([1, 2]), rng.choice([19, 20, 24, 31, 45, 62]), rng.choice([2, 3])
        trunc = rng.choice([0, 0, 2])
        S = segments(rng, nb, T, rng.choice([1, 1, 2, 3, 4]), trunc)
        if long and rng.random() < .8:
            S[0] = [0, 0, T]
        shared = rng.random() < .5
        G = [graph(rng, C, oor=False) for _ in range(1 if shared else len(S))]
        if long or rng.random() < .3:       # graphs in which many states stay active
            for g in G:
                if g['n'] > 2:
                    for s in range(g['n'] - 1):
                        g['a'] += [[s, rng.randrange(g['n'] - 1), rng.randrange(C), rng.randint(-2, 2)] for _ in range(2)]
                        if rng.random() < .4:
                            g['a'].append([s, g['n'] - 1, -1, rng.randint(-2, 2)])
                    G[G.index(g)] = arc_sorted(g)
        mina = rng.choice([0, 0, 1, 2, 3, 30])
        maxa = rng.choice([1, 2, 3, 5, 10, 100, 10000])
        if maxa <= mina:
            maxa = mina + rng.choice([1, 2, 1000])
        yield dict(lp=dense_scores(rng, nb, T, C, *rng.choice([(-4, 3), (-1, 1), (-9, 0), (-40, 40)]), inf=rng.choice([0, .08, .2])), C=C, segs=S, trunc=trunc, g=G,
                   sb2=rng.choice([1, 3, 5, 9, 15, 41, 4001]), ob2=rng.choice([1, 3, 5, 9, 15, 41, 4001]), mina=mina, maxa=maxa, part=rng.choice([0, 0, 1]),
                   seed=rng.randrange(1 << 30))


def run(c):
    torch, k2, _k2 = k2mods()
    rng = random.Random(c['seed'])
    rga, rgb = rng.choice([0, 1, 1]), rng.choice([0, 1, 1])
    lp, d = dense_of(c, bool(rgb))
    A = track(vec_of(c['g']))
    A.requires_grad_(bool(rga))
    g0 = fsa_json(A)['f']
    kw = dict(seqframe_idx_name='sf', frame_idx_name='fr', allow_partial=bool(c['part']))

    def go():
        return k2.intersect_dense_pruned(A, d, c['sb2'] / 2, c['ob2'] / 2, c['mina'], c['maxa'], **kw)
    o = go()
    f = fsa_json(o)
    n = o.arcs.num_elements()
    ev = dict(op='pruned', g=fsa_json(A)['f'], lp=c['lp'], C=c['C'], segs=c['segs'], sb2=c['sb2'], ob2=c['ob2'], mina=c['mina'], maxa=c['maxa'], part=c['part'], f=f['f'],
              ids=tl(o.id), fr=tl(o.fr), sf=tl(o.sf), rg=rag_list(o.rg) if n else [], nt=1 if getattr(o, 'note', None) == 'x' else 0, grad=0, rga=rga, rgb=rgb, w=[], ga=[], gb=[])
    if not f['same'] or g0 != ev['g']:
        ev['nt'] = 2
    if o.scores.requires_grad and n:
        w = [rng.randint(-3, 5) for _ in range(n)]
        (o.scores * torch.tensor(w, dtype=torch.float32)).sum().backward()
        ev.update(grad=1, w=w, ga=[si(x) for x in A.grad.tolist()] if rga and A.grad is not None else [0] * A.arcs.num_elements(),
                  gb=[[[si(v) for v in r] for r in s] for s in lp.grad.tolist()] if rgb else [])
    evs = [ev]
    if rng.random() < .2:     # no influence of the timing of the pruning thread
        evs.append(dict(op='same', out=1 if all(fsa_json(go()) == f for _ in range(3)) else 0))
    return evs


def nontrivial(c, ev):
    return any(e.get('ids') for e in ev)


def finding_match(f, case, ev, l):
    return False

"""C14: online decoding by chunks, any interleaving of streams."""
from common import *
import tlc
from drivers.c12 import graph, vec_of, track, rag_list

TRACE_SPEC = 'T14'
RULE = ('histories of 6 decode calls generated by TLC from MC14S (1-3 slots; new streams, continued, forked and repeated saved states, slots that end early), random graphs '
        'and scores, tight to wide beams and active-state limits, partial results on and off; old states are decoded again at the end; non-trivial: an arc is kept')
CASE_TIMEOUT = 30
OUTS = ('f', 'ids', 'rg')


def MODELS(tier):
    return [dict(module='MC14', cfg='MC14.cfg' if tier == 'quick' else 'MC14_deep.cfg', workers=4, actions=['Chunk1', 'Chunk2', 'Chunk3'])]


def gen(rng, tier, ctx):
    N = 1500 if tier == 'quick' else 8000
    for width, hist in tlc.simulate('MC14S', 'MC14S.cfg', ctx['wd'], N, 7, ctx['seed']):
        C = rng.choice([1, 2, 3, 4])
        while True:
            g = graph(rng, C, oor=False)
            if g['n'] >= 2:
                break
        if rng.random() < .6 and g['n'] > 2:
            for s in range(g['n'] - 1):
                g['a'] += [[s, rng.randrange(g['n'] - 1), rng.randrange(C), rng.randint(-2, 2)] for _ in range(2)]
                if rng.random() < .4:
                    g['a'].append([s, g['n'] - 1, -1, rng.randint(-2, 2)])
            g = arc_sorted(g)
        lo, hi = rng.choice([(-4, 3), (-1, 1), (-9, 0), (-40, 40)])
        inf = rng.choice([0, 0, .08, .2])
        mina = rng.choice([0, 0, 1, 2, 3, 30])
        maxa = rng.choice([1, 2, 3, 5, 10, 100, 10000])
        if maxa <= mina:
            maxa = mina + rng.choice([1, 2, 1000])
        calls = [[[h, [[NEGINF if rng.random() < inf else rng.randint(lo, hi) for _ in range(C)] for _ in range(n)]] for h, n in slots] for slots in hist]
        yield dict(g=g, C=C, width=width, calls=calls, sb2=rng.choice([1, 3, 5, 9, 15, 41, 4001]), ob2=rng.choice([1, 3, 5, 9, 15, 41, 4001]), mina=mina, maxa=maxa,
                   part=rng.choice([0, 1, 1]), seed=rng.randrange(1 << 30))


def run(c):
    torch, k2, _k2 = k2mods()
    rng = random.Random(c['seed'])
    A = track(vec_of([c['g']]))
    X = k2.OnlineDenseIntersecter(A, c['width'], c['sb2'] / 2, c['ob2'] / 2, c['mina'], c['maxa'], allow_partial=bool(c['part']))
    conf = dict(g=fsa_json(A)['f'][0], C=c['C'], sb2=c['sb2'], ob2=c['ob2'], mina=c['mina'], maxa=c['maxa'], part=c['part'])
    saved = {}
    evs = []

    def call(slots):
        L = max(len(lp) for _, lp in slots)
        lp = torch.tensor([[[-math.inf if v == NEGINF else float(v) for v in r] for r in s] + [[rng.randint(-5, 5) * 1.0] * c['C']] * (L - len(s)) for _, s in slots],
                          dtype=torch.float32).reshape(len(slots), L, c['C'])
        d = k2.DenseFsaVec(lp, torch.tensor([[i, 0, len(s)] for i, (_, s) in enumerate(slots)], dtype=torch.int32))
        o, new = X.decode(d, [saved[h] if h else k2.DecodeStateInfo() for h, _ in slots])
        f = fsa_json(o)
        n = o.arcs.num_elements()
        return f['f'], tl(o.id), rag_list(o.rg) if n else [], 1 if getattr(o, 'note', None) == 'x' and f['same'] else 0, new, L
    again = []
    for slots in c['calls']:
        f, ids, rg, nt, new, L = call(slots)
        sl = []
        for i, (h, s) in enumerate(slots):
            saved[len(saved) + 1] = new[i]
            sl.append(dict(h=h, lp=s, out=len(saved), short=1 if len(s) < L else 0))
        evs.append(dict(op='decode', c=conf, slots=sl, f=f, ids=ids, rg=rg, nt=nt))
        again.append((slots, (f, ids, rg, nt)))
    slots, want = rng.choice(again)        # later calls left the saved states alone
    evs.append(dict(op='same', out=1 if call(slots)[:4] == want else 0))
    return evs


def nontrivial(c, ev):
    return any(e.get('ids') for e in ev)


def finding_match(f, case, ev, l):
    return False

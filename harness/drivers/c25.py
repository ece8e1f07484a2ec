"""C25: best-matching statistics."""
from common import *

TRACE_SPEC = 'T25'
RULE = ('get_best_matching_stats on collections (2 axes) and batches of 0-4 collections (3 axes, also empty ones and empty sentences), up to 60 tokens from alphabets of 1-5 words and heavy repetition, eos anywhere in '
        'the token range, ranges from tight to 40000 (both integer widths), negative and large tokens, whole-sentence or arbitrary keys, scores on queries too, orders 2-6, scores small, on a large offset, or of very '
        'different size; non-trivial: some token matches a context of two or more')
CASE_TIMEOUT = 30
OUTS = ('mean', 'var', 'cnt', 'ord', 'dtypes')
UNIT = 10000


def MODELS(tier):
    return [dict(module='MC25', cfg='MC25.cfg' if tier == 'quick' else 'MC25_deep.cfg', workers=4, actions=['Begin', 'Pop', 'Push', 'Finish'])]


def sentences(rng, words, eos, budget):
    S = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6])):
        k = rng.random()
        if k < .08:
            s = []
        elif S and k < .6:       # a variation of another one
            s = list(rng.choice(S))[:-1]
            for _ in range(rng.choice([0, 1, 1, 2])):
                if not s or rng.random() < .4:
                    s.insert(rng.randint(0, len(s)), rng.choice(words))
                elif rng.random() < .5:
                    s.pop(rng.randrange(len(s)))
                else:
                    s[rng.randrange(len(s))] = rng.choice(words)
            s.append(eos)
        elif k < .7:             # heavy repetition
            s = [rng.choice(words)] * rng.randint(1, 12) + [eos]
        elif k < .8:
            s = [rng.choice(words) for _ in range(rng.choice([1, 2, 2, 3]))] * rng.randint(1, 5) + [eos]
        else:
            s = [rng.choice(words) for _ in range(rng.randint(0, 8))] + [eos]
        if sum(map(len, S)) + len(s) > budget:
            break
        S.append(s)
    return S


def gen(rng, tier, ctx):
    N = 1500 if tier == 'quick' else 8000
    for i in range(N):
        w = rng.choice([1, 2, 2, 3, 4, 5])
        lo = rng.choice([1, 1, 0, -1, -5, 100000, -70000])
        span = rng.choice([w, w, w + 1, w + 5, 300] + ([40000] if rng.random() < .3 else []))
        words = [lo + x for x in (range(w) if span < 300 or rng.random() < .5 else sorted(rng.sample(range(span), w)))]
        mn, mx = min(words), max(words) + rng.choice([0, 1, 3])
        mx = max(mx, mn + 1)
        eos = rng.choice([mx, mx, mn, rng.randint(mn, mx)])
        if eos == mn and rng.random() < .8:
            mn, eos = mn - 1, mn - 1
        elif eos == mx and eos in words:
            mx, eos = mx + 1, mx + 1
        if span == 40000:
            if rng.random() < .5:
                mx = mn + 40000 + rng.randint(0, 3)
            else:
                mn = mx - 40000
        ws = [x for x in words if x != eos] or words
        axes = rng.choice([2, 2, 3])
        colls = [sentences(rng, ws, eos, 60 if i % 8 == 0 else 30) for _ in range(1 if axes == 2 else rng.choice([0, 1, 2, 3, 4]))]
        mode = rng.choice(['small', 'small', 'base', 'big'])
        base = rng.choice([1000, 30000, -30000]) if mode == 'base' else 0
        key, x = [], []
        kk = rng.choice(['sent', 'sent', 'sent', 'any', 'none', 'all', 'one'])
        for C in colls:
            K, V = [], []
            for s in C:
                r = rng.choice([0, 1])
                for _ in s:
                    K.append({'sent': r, 'any': rng.choice([0, 0, 1]), 'none': 0, 'all': 1, 'one': 0}[kk])
                    V.append(rng.choice([1 << 24, -(1 << 24)]) if mode == 'big' and rng.random() < .15 else rng.randint(0, 3) if mode != 'small' else rng.randint(-5, 5))
            if kk == 'one' and K:
                K[rng.randrange(len(K))] = 1
            key.append(K)
            x.append(V)
        yield dict(op='match', axes=axes, colls=colls, eos=eos, min=mn, max=mx, order=rng.choice([2, 2, 3, 3, 4, 6]), key=key, x=x, base=base, mode=mode, same=rng.choice([0, 1]))


def run(case):
    torch, k2, _k2 = k2mods()
    colls = case['colls']
    t = k2.RaggedTensor(txt(colls if case['axes'] == 3 else colls[0], case['axes']), dtype=torch.int32)
    flat = lambda l: [v for c in l for v in c]
    sc = torch.tensor([v + case['base'] for v in flat(case['x'])], dtype=torch.float32)
    co = torch.tensor(flat(case['key']), dtype=torch.int32)
    b0 = (str(t), sc.tolist(), co.tolist())
    m, v, c, o = k2.get_best_matching_stats(t, sc, co, case['eos'], case['min'], case['max'], case['order'])
    big = case['mode'] == 'big'
    K = 1 if big else 16 if case['base'] else 100
    fx = lambda y: NAN if y != y else int(max(-10**8, min(10**8, round(y))))
    mean = [fx((y - case['base']) * K) for y in m.tolist()]
    var = [fx(y * K) for y in v.tolist()]
    cnt, ord_ = c.tolist(), o.tolist()
    out, p = [], 0
    left = len(mean) != sum(len(s) for C in colls for s in C)
    for C, k, x in zip(colls, case['key'], case['x']):
        n = sum(map(len, C))
        out.append(dict(tok=[y for s in C for y in s], dist=[j + 1 for s in C for j in range(len(s))], key=k, x=x, mean=mean[p:p + n], var=var[p:p + n], cnt=cnt[p:p + n], ord=ord_[p:p + n]))
        p += n
    if left:
        out.append(dict(tok=[], dist=[], key=[], x=[], mean=mean, var=var, cnt=cnt, ord=ord_))
    dt = lambda y: {torch.float32: 1, torch.int32: 2}.get(y.dtype, 0)
    return [dict(op='match', c=out, eos=case['eos'], max=case['max'], order=case['order'], base=case['base'], K=K, mtol=2 if big else 1, vtol=1, varok=0 if big else 1, dtypes=[dt(m), dt(v), dt(c), dt(o)],
                 same=int(b0 == (str(t), sc.tolist(), co.tolist())))]


def txt(l, axes):
    if axes == 1:
        return '[ ' + ' '.join(map(str, l)) + ' ]'
    return '[ ' + ' '.join(txt(y, axes - 1) for y in l) + ' ]'


def nontrivial(c, ev):
    return any(o > 1 for e in ev if e['op'] == 'match' for C in e['c'] for o in C['ord'])

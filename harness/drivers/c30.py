"""C30: offline decoding with the C++ library."""
from common import *
import attrs as AT
import tcli
from tcli import call, value, attr, Refused
from drivers import c08, c12, c26

TRACE_SPEC = 'T30'
RULE = ('lattices made by GetLattice and IntersectDensePruned from random graphs and scores (attributes, partial results, subsampling), and random lattices with dense or ragged outputs '
        '(epsilons, duplicate outputs, dead ends, no path): best paths, texts, sampled n-best lists and their intersection with the lattice, acoustic and language-model scores, '
        'best sampled output by total score, rescoring with a language model; segments and dense scores; non-trivial: a lattice has a path')
CASE_TIMEOUT = 30
OUTS = ('f', 'ids', 'out', 'entries', 'res', 'lm', 'am', 'got', 'rows', 'same')
NOTE = 'driven through harness/cpp/torch_cli.cc, which calls the public functions of k2/torch'
prepare = tcli.prepare


def MODELS(tier):
    return [dict(module='MC30', cfg='MC30.cfg' if tier == 'quick' else 'MC30_deep.cfg', workers=4, actions=['Rescored', 'Chosen'])]


def gen(rng, tier, ctx):
    N = 3000 if tier == 'quick' else 20000
    for i in range(N):
        kind = rng.choice(['lattice', 'lattice', 'nbest', 'nbest', 'best', 'best', 'whole', 'whole', 'dense'])
        sd = rng.randrange(1 << 30)
        if kind in ('lattice', 'dense'):
            nb, T, C = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 4, 6]), rng.choice([1, 2, 3, 4])
            trunc = rng.choice([0, 0, 1, 3])
            pub = rng.choice([0, 1])
            if pub and kind == 'lattice':
                S = [[n, 0, rng.choice([T, T, rng.randint(0, T)]) + (rng.randint(0, trunc) if rng.random() < .2 else 0)] for n in range(nb)]
            else:
                S = c12.segments(rng, nb, T, rng.choice([1, 1, 2, 3]), trunc)
            c = dict(lp=c12.dense_scores(rng, nb, T, C, *rng.choice([(-4, 3), (-1, 1), (-9, 0)]), inf=rng.choice([0, .08])), C=C, segs=S, trunc=trunc, pub=pub)
            if kind == 'dense':
                yield dict(c, kind=kind, ss=rng.choice([1, 2, 4]), seq=[rng.randrange(4) for _ in S], start=[rng.randint(0, 40) for _ in S], num=[rng.randint(0, 40) for _ in S])
                continue
            G = [c12.graph(rng, C, oor=False) for _ in range(1 if pub or rng.random() < .5 else len(S))]
            mina = rng.choice([0, 0, 1, 2, 30])
            maxa = max(rng.choice([1, 2, 5, 100, 10000]), mina + 1)
            yield dict(c, kind=kind, g=G, sb2=rng.choice([1, 3, 9, 41, 4001]), ob2=rng.choice([1, 3, 9, 41, 4001]), mina=mina, maxa=maxa, part=0 if pub else rng.choice([0, 1]),
                       aux=rng.choice([0, 1]), ff=rng.choice([0, 1]), seed=sd)
            continue
        B = rng.choice([1, 1, 2, 3])
        if kind == 'best' and rng.random() < .6:      # weights as probabilities
            S = []
            for _ in range(B):
                while 1:
                    f = c08.dag(rng, 'log', 0, n=rng.choice([2, 3, 4, 4, 5, 6]))
                    if c08.total(f) and c26.npaths(f) <= 40 and (c26.npaths(f) or rng.random() < .05):
                        break
                f['a'] = [a for a in f['a'] if a[3] > 0]
                S.append(f)
            mode = 'log'
        else:
            S, mode = c26.lattices(rng, B), 'trop'
            for f in S:
                for a in f['a']:
                    a[3] = max(a[3], -9)
        ragged = rng.choice([0, 1])
        c = dict(kind=kind, mode=mode, f=S, x=c26.outputs(rng, S, ragged), ragged=ragged, n=rng.choice([2, 3, 5, 20]), scale=rng.choice([1.0, 0.5, 0.25]), seed=sd, again=rng.choice([0, 1]))
        c['lm'] = [[rng.randint(-3, 3) for _ in f['a']] for f in S]
        if kind == 'whole':
            c['G'] = c26.grammar(rng)
            c['mul'] = rng.choice([1, 1, 2, 4])
        yield c


def lat_json(v, name='aux_labels'):
    """lattices with outputs (and language-model scores) from an object's value"""
    x = attr(v, name) or []
    m = attr(v, 'lm_scores') or [0] * len(x)
    out, p = [], 0
    for f in v['f']:
        k = len(f['a'])
        out.append(dict(f=f, x=[y if isinstance(y, list) else [y] for y in x[p:p + k]], lm=m[p:p + k]))
        p += k
    return out


def entries(sh):
    return [dict(o=y['f'], x=y['x']) for y in lat_json(value(sh))]


def depths(f):
    d = [-1] * f['n']
    if f['n']:
        d[0] = 0
        for _ in range(f['n']):
            for a in f['a']:
                if d[a[0]] >= 0 and d[a[1]] < 0:
                    d[a[1]] = d[a[0]] + 1
    return d


def run_lattice(c):
    rng = random.Random(c['seed'])
    call('clear')
    G = c['g']
    arcs = [a for g in G for a in g['a']]
    n = len(arcs)
    tcli.put('G', G, 1)
    tcli.put_attr('G', 'aid', 'int', list(range(1, n + 1)))
    tcli.put_attr('G', 'rg', 'rag', [[j] * (j % 3) for j in range(1, n + 1)])
    if c['ff']:
        tcli.put_attr('G', 'ff', 'float', [x / 2 for x in range(1, n + 1)])
    X = [rng.randint(0, 3) if a[2] != -1 else -1 for a in arcs]
    if c['aux']:
        tcli.put_attr('G', 'aux_labels', 'rag', [[y] if y else [] for y in X])
    else:
        tcli.put_attr('G', 'aux_labels', 'int', X)
    before = call('show', 'G')
    g = value(before)
    lp = c['lp']
    nb, T, C = len(lp), len(lp[0]), c['C']
    vals = [-math.inf if v == NEGINF else v for s in lp for r in s for v in r]
    try:
        if c['pub']:
            r = call('lattice', 'L', 'G', nb, T, C, vals, [s[2] for s in c['segs']], c['sb2'] / 2, c['ob2'] / 2, c['mina'], c['maxa'], c['trunc'] + 1)
        else:
            r = call('segdense', 'L', 'G', nb, T, C, vals, len(c['segs']), c['segs'], c['trunc'], c['sb2'] / 2, c['ob2'] / 2, c['mina'], c['maxa'], c['part'])
    except Refused:
        return [dict(op='Raised', err='Refused')]
    v = value(r)
    ids = attr(v, 'aid') or []
    fr, sf, off, p = [], [], 0, 0
    for f, s in zip(v['f'], c['segs']):
        d = depths(f)
        fr += [d[a[0]] for a in f['a']]
        sf += [d[a[0]] + off for a in f['a']]
        off += min(s[1] + s[2], T) - s[1] + 1
    nt = 1
    ffs = r['t']['ff'][2] if 'ff' in r['t'] else None
    if c['ff'] and [si(2 * tcli.num(y)) for y in ffs] != ids:
        nt = 2
    ax = attr(v, 'aux_labels') or []
    if [(y[0] if y else 0) if isinstance(y, list) else y for y in ax] != [X[k - 1] if k else 0 for k in ids]:
        nt = 3
    same = int(call('show', 'G') == before)
    evs = [dict(op='lattice', g=g['f'], lp=lp, C=C, segs=c['segs'], sb2=c['sb2'], ob2=c['ob2'], mina=c['mina'], maxa=c['maxa'], part=c['part'], f=v['f'], ids=ids, fr=fr, sf=sf,
                rg=attr(v, 'rg') or [], nt=nt, grad=0, rga=0, rgb=0, w=[], ga=[], gb=[], same=same)]
    if all(c26.npaths(f) <= 40 and all(a[0] < a[1] for a in f['a']) for f in v['f']):
        out = call('bestpath', 'L')
        evs.append(dict(op='bestpath', lat=lat_json(v), out=out, same=int(call('show', 'L') == r)))
    return evs


def put_lattice(c, name='L', lm=True):
    w = (lambda x: math.log(x)) if c['mode'] == 'log' else None
    S, X = c['f'], c['x']
    tcli.put(name, S, 1, w)
    flat = [x for r in X for x in r]
    tcli.put_attr(name, 'aux_labels', 'rag' if c['ragged'] else 'int', flat if c['ragged'] else [x[0] for x in flat])
    if lm:
        tcli.put_attr(name, 'lm_scores', 'float', [y for r in c['lm'] for y in r])
    L = c26.lat_json(S, X)
    for l, m in zip(L, c['lm']):
        l['lm'] = m
    return L


def sampled(c):
    """the paths that the Python front end samples"""
    torch, k2, _k2 = k2mods()
    S = c['f']
    w = (lambda x: math.log(x)) if c['mode'] == 'log' else float
    f = mk_vec([dict(n=f['n'], a=[[a[0], a[1], a[2], w(a[3])] for a in f['a']]) for f in S])
    f.scores = f.scores.clone() * c['scale']
    return [[c26.local(S, p) for p in u] for u in k2.random_paths(f, num_paths=c['n'], use_double_scores=False).tolist()]


def run(c):
    kind = c['kind']
    if kind == 'lattice':
        return run_lattice(c)
    call('clear')
    if kind == 'dense':
        lp, C = c['lp'], c['C']
        vals = [-math.inf if v == NEGINF else v for s in lp for r in s for v in r]
        rs, t = call('dense', len(lp), len(lp[0]), C, vals, len(c['segs']), c['segs'], c['trunc'])
        v = [si(tcli.num(x)) for x in t[2]]
        o = call('supseg', len(c['seq']), c['seq'], c['start'], c['num'], c['ss'])
        return [dict(op='dense', lp=lp, C=C, segs=c['segs'], rs=rs, rows=[v[i:i + C + 1] for i in range(0, len(v), C + 1)]),
                dict(op='supseg', seq=c['seq'], start=c['start'], num=c['num'], ss=c['ss'], out=[[si(x) for x in o[2][i:i + 3]] for i in range(0, len(o[2]), 3)])]
    L = put_lattice(c, lm=kind != 'best' and (kind == 'whole' or bool(c['again'])))
    b = call('show', 'L')
    keep = lambda: int(call('show', 'L') == b)
    if kind == 'whole':
        G = c['G']
        loops = [[s, s, 0, 0] for s in range(G['n'] - 1)]
        H = dict(n=G['n'], a=sorted(G['a'] + loops, key=lambda a: (a[0], a[2] & 0xffffffff, a[1])))
        tcli.put('G', [H], 1)
        tcli.put_attr('G', 'lm_scores', 'float', [a[3] for a in H['a']])
        g0 = call('show', 'G')
        call('whole', 'G', 1 / c['mul'], 'L')
        cc = [sum(1 for a in G['a'] if a[0] == s) for s in range(G['n'])]
        return [dict(op='whole', lat=L, G=dict(n=G['n'], a=G['a'], c=cc), mul=c['mul'], out=lat_json(value(call('show', 'L'))), gsame=int(call('show', 'G') == g0))]
    if kind == 'nbest' or c['mode'] == 'log':
        r = call('nbest', 'N', 'L', c['n'], c['scale'], 1 if kind == 'nbest' else 0)
        same = keep()
        rs = r['rs']
        rows = [rs[i + 1] - rs[i] for i in range(len(rs) - 1)]
        ent = entries(r['s'])
        evs = [dict(op='nbest', lat=L, rows=rows, entries=ent, sampled=sampled(c), same=same)]
        if kind == 'nbest':
            evs.append(dict(op='meet', lat=L, rows=rows, entries=ent, res=entries(r['i']), haslm=c['again'],
                            am=[si(tcli.num(y)) for y in r['am'][2]] if 'am' in r else [], lm=[si(tcli.num(y)) for y in r['lm'][2]] if 'lm' in r else []))
        else:
            evs.append(dict(op='bestpaths', lat=L, rows=rows, entries=ent, got=entries(call('bestpaths', 'O', 'L', 0, c['n'], c['scale'])), same=keep()))
        return evs
    out = call('bestpath', 'L')
    evs = [dict(op='bestpath', lat=L, out=out, same=keep())]
    m = call('bestpaths', 'O', 'L', 1, 0, 1.0)
    evs.append(dict(op='max', lat=L, entries=entries(m), same=keep()))
    o0 = call('show', 'O')
    t = call('texts', 'O')
    evs.append(dict(op='texts', lat=lat_json(value(o0)), out=t, same=int(o0 == call('show', 'O'))))
    t = call('texts', 'L')
    evs.append(dict(op='texts', lat=L, out=t, same=keep()))
    return evs


def nontrivial(c, ev):
    return any(o['f']['a'] for e in ev for o in e.get('lat', ())) or any(e.get('ids') for e in ev)


def finding_match(f, case, ev, l):
    return False

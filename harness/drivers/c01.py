"""C01: intersection / composition against the product transition system."""
from common import *

TRACE_SPEC = 'T01'
RULE = ('random pairs of automata (0-7 states, epsilons, cycles, parallel arcs, negative scores, empty and dead ones), '
        'single/batched/broadcast, both epsilon treatments, plus wide automata that force the state-pair hash to grow; '
        'non-trivial: some output automaton has an arc')


def MODELS(tier):
    return [dict(module='MC01', cfg='MC01.cfg' if tier == 'quick' else 'MC01_deep.cfg', workers=4,
                 actions=['Visit'])]


def one(rng, wide=False):
    r = rng.random()
    if wide:
        return None
    if r < 0.06:
        return dict(n=0, a=[])
    f = rand_fsa(rng, n=rng.choice([2, 3, 3, 4, 4, 5, 6, 7]), nsym=rng.choice([1, 2, 2, 3]),
                 eps=rng.choice([0, 0.15, 0.4]), acyclic=rng.random() < 0.4, wlo=-5, whi=4)
    # epsilon arcs never positive so that epsilon cycles do not diverge
    for a in f['a']:
        if a[2] == 0 and a[3] > 0:
            a[3] = -a[3]
    if rng.random() < 0.85:
        coreach_fix(rng, f)
    return f


def widefsa(rng, na, nlab, nst=3, eps=0.0):
    arcs = []
    for _ in range(na):
        s = rng.randrange(nst - 1)
        d = rng.randrange(nst - 1)
        arcs.append([s, d, 0 if rng.random() < eps else rng.randint(1, nlab), rng.randint(-3, 0)])
    arcs.append([rng.randrange(nst - 1), nst - 1, -1, rng.randint(-3, 3)])
    arcs.sort(key=lambda a: a[0])
    return dict(n=nst, a=arcs)


def gen(rng, tier, ctx):
    N = 2500 if tier == 'quick' else 40000
    for k in range(N):
        kind = rng.choice(['intersect', 'intersect', 'intersect_device', 'intersect_device', 'compose'])
        special = rng.randint(0, 1) if kind != 'intersect_device' else 0
        na = rng.choice([0, 0, 1, 1, 2, 3])
        nb = rng.choice([0, 0, 1, 2, 3]) if na <= 1 else rng.choice([0, 1, na, na])
        if kind == 'intersect_device':
            na, nb = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 4])
        A = [one(rng) for _ in range(max(1, na))]
        B = [one(rng) for _ in range(max(1, nb))]
        c = dict(kind=kind, special=special, sa=1 if na == 0 else 0, sb=1 if nb == 0 else 0, lang=1)
        srt = kind != 'intersect_device' or rng.random() < 0.5
        c['sortm'] = 0
        if kind == 'intersect_device':
            c['map'] = [rng.randrange(len(A)) for _ in B]
            c['sortm'] = 1 if srt and rng.random() < 0.7 else 0
        if srt:
            A = [arc_sorted(f) for f in A]
            B = [arc_sorted(f) for f in B]
        c['mustfail'] = 0
        if kind == 'intersect' and rng.random() < 0.03:
            # not arc-sorted: must be refused
            i = rng.randrange(len(A))
            A[i] = dict(n=3, a=[[0, 1, 2, 0], [0, 1, 1, 0], [1, 2, -1, 0]])
            c['mustfail'] = 1
        if kind == 'compose':
            for f in A + B:
                f['x'] = [(-1 if a[2] == -1 else rng.choice([0, 1, 2, 2, 3, 1])) for a in f['a']]
                for a, x in zip(f['a'], f['x']):
                    if x == 0 and a[3] > 0:
                        a[3] = -a[3]
            c['baux'] = 1 if rng.random() < 0.6 else 0
            c['inner'] = 1 if c['baux'] and rng.random() < 0.5 else 0
            if rng.random() < 0.3:   # labels of a far from those of b
                for f in A:
                    for a in f['a']:
                        if a[2] > 0:
                            a[2] += 20
        c['A'], c['B'] = A, B
        if rng.random() < 0.03:
            c['lang'] = 0
        yield c
    # state-pair tables that must grow, deep chains
    for k in range(5 if tier == 'quick' else 40):
        kind = ['intersect_device', 'intersect_device', 'intersect'][k % 3]
        nlab = rng.choice([40, 60, 90])
        A = [arc_sorted(widefsa(rng, rng.choice([120, 200]), nlab)) for _ in range(2)]
        B = [arc_sorted(widefsa(rng, rng.choice([120, 160]), nlab)) for _ in range(2)]
        yield dict(kind=kind, special=0, sa=0, sb=0, lang=0, A=A, B=B, map=[1, 0], mustfail=0,
                   sortm=k % 2)
    for k in range(4 if tier == 'quick' else 20):
        # long product: many iterations, many states
        L = rng.choice([17, 33, 40])
        lab = [rng.randint(1, 2) for _ in range(L)]
        chain = dict(n=L + 2, a=[[i, i + 1, lab[i], rng.randint(-2, 2)] for i in range(L)] + [[L, L + 1, -1, 1]])
        loop = dict(n=4, a=sorted([[s, d, x, rng.randint(-3, 3)] for s in range(3) for d in range(3) for x in (1, 2)
                                   if rng.random() < 0.8] + [[s, 3, -1, rng.randint(-2, 2)] for s in range(3)],
                                  key=lambda a: (a[0], a[2] & 0xffffffff, a[1])))
        yield dict(kind=rng.choice(['intersect', 'intersect_device']), special=0, sa=0, sb=0, lang=0, A=[loop, chain],
                   B=[chain, loop], map=[0, 1], mustfail=0, sortm=rng.randint(0, 1))


def fix(f):
    return {k: f[k] for k in ('n', 'a')}


def run(c):
    torch, k2, _k2 = k2mods()
    A, B = c['A'], c['B']
    a = mk_vec([fix(f) for f in A])
    b = mk_vec([fix(f) for f in B])
    if c['sa']:
        a = a[0]
    if c['sb']:
        b = b[0]
    n = max(len(A), len(B))
    ev = dict(op=c['kind'], special=c['special'], lang=c['lang'], mayfail=0, mustfail=c['mustfail'],
              vec=0 if c['sa'] and c['sb'] else 1,
              ai=[i if len(A) > 1 else 0 for i in range(n)], bi=[i if len(B) > 1 else 0 for i in range(n)])
    kind = c['kind']
    if kind == 'compose':
        a.aux_labels = torch.tensor([x for f in A for x in f['x']], dtype=torch.int32)
        a.ia = torch.arange(1, a.arcs.num_elements() + 1 if hasattr(a.arcs, 'num_elements') else a.arcs.values().shape[0] + 1,
                            dtype=torch.int32)
        if c['baux']:
            b.aux_labels = torch.tensor([x for f in B for x in f['x']], dtype=torch.int32)
        b.ib = torch.arange(1, b.arcs.values().shape[0] + 1, dtype=torch.int32)
        if not (b.properties & k2.fsa_properties.ARC_SORTED):
            raise AssertionError('generator: b not sorted')
    ev['b'] = fsa_json(b)
    if kind == 'compose':
        ja = fsa_json(a)
        ev['alab'] = [r[2] for f in ja['f'] for r in f['a']]
        ev['aaux'] = tl(a.aux_labels)
        ev['blab'] = [r[2] for f in ev['b']['f'] for r in f['a']]
        ev['baux'] = tl(b.aux_labels) if c['baux'] else ev['blab']
        ev['inner'] = c['inner']
        k = 0
        for f in ja['f']:
            for r in f['a']:
                r[2] = ev['aaux'][k]
                k += 1
        ev['a'] = ja
    else:
        ev['a'] = fsa_json(a)
    try:
        if kind == 'intersect':
            o, ma, mb = k2.intersect(a, b, treat_epsilons_specially=bool(c['special']), ret_arc_maps=True)
            ma, mb = tl(ma), tl(mb)
        elif kind == 'intersect_device':
            ev['ai'], ev['bi'] = c['map'], list(range(len(B)))
            o, ma, mb = k2.intersect_device(a, b, torch.tensor(c['map'], dtype=torch.int32),
                                            sorted_match_a=bool(c['sortm']), ret_arc_maps=True)
            ma, mb = tl(ma), tl(mb)
        else:
            kw = dict(inner_labels='inner') if c['inner'] else {}
            o = k2.compose(a, b, treat_epsilons_specially=bool(c['special']), **kw)
            ma = [x - 1 for x in tl(o.ia)]
            mb = [x - 1 for x in tl(o.ib)]
    except Exception as e:
        ev.update(err=type(e).__name__, msg=str(e).strip()[:300])
        ev['mayfail'] = c['mustfail']
        return [ev]
    out = fsa_json(o)
    out['ma'], out['mb'] = ma, mb
    if kind == 'compose':
        out['lab'] = tl(o.labels)
        out['aux'] = tl(o.aux_labels)
        out['inn'] = tl(o.inner) if c['inner'] else []
        # arcs' matched labels: the labels column now holds the labels of a
        k = 0
        for f in out['f']:
            for r in f['a']:
                i, j = ma[k], mb[k]
                ok = r[2] == out['lab'][k]
                r[2] = (ev['aaux'][i] if 0 <= i < len(ev['aaux']) else
                        ev['blab'][j] if 0 <= j < len(ev['blab']) else 99) if ok else 98
                k += 1
    ev['out'] = out
    return [ev]


def nontrivial(c, ev):
    return any('out' in e and any(f['a'] for f in e['out']['f']) for e in ev)

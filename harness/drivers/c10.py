"""C10: shortest paths."""
from common import *
import attrs as AT
from drivers import c08

TRACE_SPEC = 'T10'
RULE = ('random acyclic batches (ties, dead ends, unreachable states, empty automata, minus-infinity scores, parallel arcs, long chains, many elements, '
        'sums above 2^24 in double precision) with attributes of every kind; non-trivial: some element has a successful path')
CASE_TIMEOUT = 30


def MODELS(tier):
    return [dict(module='MC10', cfg='MC10.cfg' if tier == 'quick' else 'MC10_deep.cfg', workers=4, actions=['Back'])]


def batch(rng, mode, dbl):
    r = rng.random()
    if r < .01:
        return [c08.dag(rng, mode, dbl, n=rng.choice([60, 120]), narcs=rng.choice([100, 300])) for _ in range(2)]
    if r < .03:
        return [c08.dag(rng, mode, dbl, n=rng.choice([2, 3, 4]), narcs=rng.choice([0, 1, 2, 3])) for _ in range(rng.choice([40, 90]))]
    if r < .05:
        return [c08.dag(rng, mode, dbl, n=rng.choice([2, 3]), narcs=rng.choice([40, 130]))]
    return [dict(n=0, a=[]) if rng.random() < .12 else c08.dag(rng, mode, dbl) for _ in range(rng.choice([1, 1, 2, 3, 4]))]


def gen(rng, tier, ctx):
    N = 9000 if tier == 'quick' else 40000
    for i in range(N):
        dbl = rng.choice([0, 1])
        S = batch(rng, 'trop', dbl)
        flat = [a for f in S for a in f['a']]
        yield dict(f=S, dbl=dbl, attrs=AT.rand_attrs(rng, flat, aux=rng.choice([None, 'dense', 'rag'])), grad=rng.choice([0, 1]), warm=rng.choice([0, 0, 1]))


def run(c):
    torch, k2, _k2 = k2mods()
    S = [dict(n=f['n'], a=[[a[0], a[1], a[2], -math.inf if a[3] == NEGINF else a[3]] for a in f['a']]) for f in c['f']]
    fsa = mk_vec(S)
    AT.attach(fsa, c['attrs'])
    before = fsa_json(fsa)['f']
    attrs = AT.spec_json(c['attrs'])
    if c['grad']:
        fsa.requires_grad_(True)
    if c['warm']:   # results memoized for other settings must not matter
        fsa.get_tot_scores(not c['dbl'], True)
        fsa.get_arc_post(bool(c['dbl']), False)
    o = k2.shortest_path(fsa, bool(c['dbl']))
    g = []
    if c['grad']:
        w = o.scores
        if w.requires_grad:
            w[torch.isfinite(w)].sum().backward() if not torch.isfinite(w).all() else w.sum().backward()
        g = [si(x) for x in fsa.grad.tolist()] if fsa.grad is not None else [0] * len(fsa.scores)
        if not torch.isfinite(w).all():
            g = []
    out = fsa_json(o)
    out.update(attrs=AT.read(o, c['attrs']), grad=g)
    return [dict(op='best', f=before, f2=fsa_json(fsa)['f'], attrs=attrs, out=out)]


def nontrivial(c, ev):
    return any('out' in e and any(f['a'] for f in e['out']['f']) for e in ev)


def finding_match(f, case, ev, l):
    return False

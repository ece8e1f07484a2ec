"""C11: sampled paths and pruning on arc posteriors."""
from common import *
import attrs as AT
from drivers import c08, c10

import ctypes
LIBM = ctypes.CDLL('libm.so.6')
LIBM.logf.restype = ctypes.c_float
LIBM.logf.argtypes = [ctypes.c_float]

TRACE_SPEC = 'T11'
RULE = ('random acyclic batches with scores log(integer) (so that posteriors are exact rationals): random_paths with 1-60 paths per automaton, '
        'prune_on_arc_post with thresholds between, just above and just below the posteriors that occur, single and double precision, attributes '
        'of every kind; non-trivial: some element has a successful path')
CASE_TIMEOUT = 30


def MODELS(tier):
    return [dict(module='MC11', cfg='MC11.cfg' if tier == 'quick' else 'MC11_deep.cfg', workers=4, actions=['Descend', 'Start'])]


def gen(rng, tier, ctx):
    N = 7000 if tier == 'quick' else 30000
    for i in range(N):
        S = c10.batch(rng, 'log', 0)
        for f in S:
            while not c08.total(f, 1000):
                for a in f['a']:
                    if a[3] > 1 and rng.random() < .5:
                        a[3] = 1
                if not c08.total(f, 1000):
                    f['a'].pop(rng.randrange(len(f['a'])))
        flat = [a for f in S for a in f['a']]
        c = dict(op=rng.choice(['sample', 'prune']), dbl=rng.choice([0, 1]), f=S, warm=rng.choice([0, 0, 1]))
        if c['op'] == 'sample':
            c['n'] = rng.choice([1, 1, 2, 3, 5, 10, 30, 60])
        else:
            c['attrs'] = AT.rand_attrs(rng, flat, aux=rng.choice([None, 'dense', 'rag']))
            if rng.random() < .25:     # equal posteriors: some arcs lie exactly on a dyadic threshold
                for a in flat:
                    a[3] = min(a[3], 1)
            c['thr'] = rng.choice([[1, 2], [1, 3], [1, 10], [1, 1000], [9, 10], [999, 1000], [1, 4], [1, 7], [3, 5], [1, 50], [-1, 0]])
            if c['thr'][0] < 0:    # close to a posterior that occurs
                ps = []
                for f in S:
                    if f['n'] == 0:
                        continue
                    fw = [1] + [0] * (f['n'] - 1)
                    bw = [0] * (f['n'] - 1) + [1]
                    for a in f['a']:
                        fw[a[1]] += fw[a[0]] * a[3]
                    for a in reversed(f['a']):
                        bw[a[0]] += bw[a[1]] * a[3]
                    ps += [(fw[a[0]] * a[3] * bw[a[1]], fw[-1]) for a in f['a']]
                ps = [p for p in ps if 0 < p[0] < p[1]]
                if not ps:
                    c['thr'] = [1, 2]
                else:
                    p = rng.choice(ps)
                    d = rng.choice([-1, 1, 0])
                    c['thr'] = [p[0] * 900 + d, p[1] * 900]
        yield c


def run(c):
    torch, k2, _k2 = k2mods()
    S = [dict(n=f['n'], a=[[a[0], a[1], a[2], math.log(a[3]) if a[3] else -math.inf] for a in f['a']]) for f in c['f']]
    fsa = mk_vec(S)
    before = fsa_json(fsa, ei)['f']
    dbl = bool(c['dbl'])
    if c['warm']:
        fsa.get_tot_scores(not dbl, True)
        fsa.get_arc_post(dbl, False)
    if c['op'] == 'sample':
        r = k2.random_paths(fsa, dbl, c['n'])
        return [dict(op='sample', n=c['n'], f=before, f2=fsa_json(fsa, ei)['f'], out=r.tolist())]
    AT.attach(fsa, c['attrs'])
    num, den = c['thr']
    o = k2.prune_on_arc_post(fsa, num / den, dbl)
    # arcs whose reported posterior is, bit for bit, the logarithm of the threshold in the precision used
    lg = math.log(num / den) if dbl else LIBM.logf(num / den)
    tie = [i for i, x in enumerate(fsa.get_arc_post(dbl, True).tolist()) if x == lg]
    out = fsa_json(o, ei)
    out.update(attrs=AT.read(o, c['attrs']))
    return [dict(op='prune', num=num, den=den, tie=tie, f=before, f2=fsa_json(fsa, ei)['f'], attrs=AT.spec_json(c['attrs']), out=out)]


def nontrivial(c, ev):
    return any('out' in e and (any(e['out']) if e['op'] == 'sample' else any(f['a'] for f in e['out']['f'])) for e in ev)


def finding_match(f, case, ev, l):
    return False

"""C08: forward/backward/total scores, arc posteriors, entering arcs."""
from common import *

TRACE_SPEC = 'T08'
RULE = ('random acyclic batches (dead ends, unreachable states, empty automata, minus-infinity arc scores, long chains, wide fans, many elements) in the '
        'tropical mode (exact integers; above 2^24 in double precision), the log mode (scores are logs of integers, results are exact integers) and the '
        'best-path-count mode (double log semiring at magnitudes single precision cannot hold); non-trivial: some element has a successful path')
CASE_TIMEOUT = 30


def MODELS(tier):
    return [dict(module='MC08', cfg='MC08.cfg' if tier == 'quick' else 'MC08_deep.cfg', workers=4, actions=['AddArc'])]


def dag(rng, mode, dbl, n=None, narcs=None):
    n = n or rng.choice([2, 2, 3, 4, 4, 5, 6, 8])
    narcs = rng.randint(0, 2 * n + 2) if narcs is None else narcs
    A = []
    for _ in range(narcs):
        s = rng.randrange(n - 1)
        d = rng.randrange(s + 1, n) if rng.random() < .7 else min(n - 1, s + rng.choice([1, 1, 2]))
        if mode == 'trop':
            w = rng.randint(-4, 4) if not dbl or rng.random() < .5 else rng.choice([8388607, -8388607, 4194303, 1, 3, -5, 16777215])
        elif mode == 'log':
            w = rng.choice([1, 1, 2, 3, 5, 10])
        else:
            w = 1000 * rng.choice([-8000, -7999, -5, 0, 0, 7, 8001, 8001])
        if rng.random() < .05 and mode != 'big':
            w = 0 if mode == 'log' else NEGINF
        A.append([s, d, -1 if d == n - 1 else rng.choice([0, 1, 2]), w])
    A.sort(key=lambda a: a[0])
    return dict(n=n, a=A)


def total(f, lim=8000):
    """largest forward/backward value reached (the recorded integers stay exact below it)"""
    if f['n'] == 0:
        return True
    fw = [0] * f['n']
    fw[0] = 1
    for a in f['a']:
        fw[a[1]] += fw[a[0]] * a[3]
    bw = [0] * f['n']
    bw[-1] = 1
    for a in reversed(f['a']):
        bw[a[0]] += bw[a[1]] * a[3]
    return max(fw) <= lim and max(bw) <= lim and all(fw[a[0]] * a[3] * bw[a[1]] <= lim for a in f['a'])


def gen(rng, tier, ctx):
    N = 12000 if tier == 'quick' else 30000
    for i in range(N):
        mode = rng.choice(['trop', 'trop', 'log', 'log', 'log', 'big'])
        dbl = 1 if mode == 'big' else rng.choice([0, 1])
        S = []
        r = rng.random()
        if r < .01:
            S = [dag(rng, mode, dbl, n=rng.choice([60, 120]), narcs=rng.choice([100, 300])) for _ in range(2)]
        elif r < .03:
            S = [dag(rng, mode, dbl, n=rng.choice([2, 3, 4]), narcs=rng.choice([0, 1, 2, 3])) for _ in range(rng.choice([40, 90]))]
        elif r < .05:
            S = [dag(rng, mode, dbl, n=rng.choice([2, 3]), narcs=rng.choice([40, 130]))]
        else:
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                S.append(dict(n=0, a=[]) if rng.random() < .12 else dag(rng, mode, dbl))
        if mode == 'log':
            for f in S:
                while not total(f):
                    for a in f['a']:
                        if a[3] > 1 and rng.random() < .5:
                            a[3] = 1
                    if not total(f):
                        f['a'].pop(rng.randrange(len(f['a'])))
        yield dict(mode=mode, dbl=dbl, f=S, order=rng.randrange(6))


def build(c):
    S = [dict(n=f['n'], a=[list(a) for a in f['a']]) for f in c['f']]
    for f in S:
        for a in f['a']:
            if c['mode'] == 'log':
                a[3] = math.log(a[3]) if a[3] else -math.inf
            elif a[3] == NEGINF:
                a[3] = -math.inf
    return mk_vec(S)


def per_fsa(S, key):
    return [i for i, f in enumerate(S) for _ in range(f['n'] if key == 's' else len(f['a']))]


def pair(v):
    if v == -math.inf:
        return [NEGINF, 0]
    T = 1000 * round(v / 1000)
    return [si(T), ei(v - T)]


def run(c):
    torch, k2, _k2 = k2mods()
    fsa = build(c)
    sc = (lambda x: ei(x)) if c['mode'] == 'log' else si
    before = fsa_json(fsa, sc)['f']
    dbl, log = bool(c['dbl']), c['mode'] != 'trop'
    calls = dict(fwd=fsa.get_forward_scores, bwd=fsa.get_backward_scores, tot=fsa.get_tot_scores, post=fsa.get_arc_post)
    order = [['fwd', 'bwd', 'tot', 'post'], ['post', 'tot', 'bwd', 'fwd'], ['tot', 'post', 'fwd', 'bwd'], ['bwd', 'tot', 'fwd', 'post'],
             ['tot', 'fwd', 'post', 'bwd'], ['bwd', 'post', 'fwd', 'tot']][c['order']]
    if c['order'] % 2:   # the other semiring / precision first
        fsa.get_tot_scores(not dbl, log)
        fsa.get_forward_scores(dbl, not log)
    r = {}
    for k in order:
        r[k] = calls[k](use_double_scores=dbl, log_semiring=log)
    again = all(bool(torch.equal(torch.nan_to_num(r[k]), torch.nan_to_num(calls[k](use_double_scores=dbl, log_semiring=log)))) for k in order)
    out = dict(again=1 if again else 0, dtype=[1 if r[k].dtype == torch.float64 else 0 for k in ('fwd', 'bwd', 'tot', 'post')])
    if c['mode'] == 'big':
        for k in ('fwd', 'bwd', 'tot'):
            out[k] = [pair(x) for x in r[k].tolist()]
    else:
        for k in ('fwd', 'bwd', 'tot'):
            out[k] = [sc(x) for x in r[k].tolist()]
        if log:
            own = per_fsa(before, 'a')
            t = r['tot'].tolist()
            out['post'] = [ei(x + t[own[j]]) if not (x != x) else NAN for j, x in enumerate(r['post'].tolist())]
            # minus infinity as a total: every posterior must be minus infinity itself
            out['post'] = [NONINT if t[own[j]] == -math.inf and r['post'][j] != -math.inf else v for j, v in enumerate(out['post'])]
        else:
            out['post'] = [si(x) for x in r['post'].tolist()]
            out['ent'] = tl(fsa._get_entering_arcs(dbl)) if hasattr(fsa, '_get_entering_arcs') else []
    return [dict(op='scores', mode=c['mode'], dbl=c['dbl'], f=before, f2=fsa_json(fsa, sc)['f'], out=out)]


def nontrivial(c, ev):
    return any('out' in e and any(x not in (NEGINF, 0, [NEGINF, 0]) for x in e['out']['tot']) for e in ev)


def finding_match(f, case, ev, l):
    return False

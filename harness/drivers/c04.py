"""C04: epsilon removal and determinization."""
from common import *
from attrs import *

TRACE_SPEC = 'T04'
RULE = ('random valid automata and batches (0-7 states; epsilon chains, cycles of non-positive score, dense epsilon arcs, dead states), all '
        'attribute kinds; connected acyclic and unambiguous cyclic epsilon-free automata for determinization, three pushing types; '
        'non-trivial: an input arc exists')
CASE_TIMEOUT = 6


def MODELS(tier):
    return [dict(module='MC04', cfg='MC04.cfg' if tier == 'quick' else 'MC04_deep.cfg', workers=4, actions=['RemoveEps', 'Subset'])]


def rfsa(rng, empty=.06):
    r = rng.random()
    if r < empty:
        return dict(n=0, a=[])
    if r < empty + .05:
        return dict(n=rng.choice([2, 3]), a=[])
    n = rng.choice([2, 3, 3, 4, 4, 5, 6])
    f = rand_fsa(rng, n=n, nsym=rng.choice([1, 2]), eps=rng.choice([0, .2, .4, .6]), acyclic=rng.random() < .5,
                 narcs=rng.choice([2, n, 2 * n, 2 * n + 3]))
    for a in f['a']:
        if a[2] == 0 and a[3] > 0:
            a[3] = -a[3]
    if rng.random() < .85:
        coreach_fix(rng, f)
    return f


def dfsa(rng, empty=.05):
    """connected, epsilon-free, determinizable"""
    if rng.random() < empty:
        return dict(n=0, a=[])
    if rng.random() < .25:   # unambiguous cyclic
        # cyclic; which of the two readings was right shows one or two symbols later
        arcs = [[0, 1, 1, rng.randint(-3, 3)], [0, 2, 1, rng.randint(-3, 3)], [1, 3, 2, rng.randint(-3, 3)], [2, 3, 3, rng.randint(-3, 3)],
                [3, 0, 4, rng.randint(-4, 0)], [3, 3, 5, rng.randint(-3, 0)], [3, 4, -1, rng.randint(-3, 3)]]
        if rng.random() < .5:
            arcs = sorted(arcs + [[1, 4, -1, rng.randint(-3, 3)]])
        return dict(n=5, a=arcs)
    while True:
        n = rng.choice([2, 3, 4, 5, 6, 7])
        f = rand_fsa(rng, n=n, nsym=rng.choice([1, 2, 3]), eps=0 if rng.random() < .8 else .2, acyclic=True, narcs=rng.choice([2, n, 2 * n, 3 * n]))
        coreach_fix(rng, f)
        f['a'] = [a for a in f['a']]
        f = trim(f)
        if f['a']:
            return f


def trim(f):
    n = f['n']
    fw, bw = {0}, {n - 1}
    for _ in range(n):
        fw |= {a[1] for a in f['a'] if a[0] in fw}
        bw |= {a[0] for a in f['a'] if a[1] in bw}
    u = sorted(fw & bw)
    if 0 not in u or n - 1 not in u:
        return dict(n=0, a=[])
    ix = {s: i for i, s in enumerate(u)}
    return dict(n=len(u), a=[[ix[a[0]], ix[a[1]], a[2], a[3]] for a in f['a'] if a[0] in ix and a[1] in ix])


def flat(S):
    return [a for f in S for a in f['a']]


def gen(rng, tier, ctx):
    N = 9000 if tier == 'quick' else 60000
    for i in range(N):
        op = rng.choice(['rm', 'rm', 'rm_loops', 'rm_loops', 'rm_device', 'rm_host', 'det', 'det', 'det'])
        ns = rng.choice([1, 1, 1, 2, 3])
        if op == 'det':
            S = [dfsa(rng, 0 if ns == 1 else .1) for _ in range(ns)]
        else:
            S = [rfsa(rng) for _ in range(ns)]
            if op == 'rm_host':
                for f in S:
                    f['a'] = [a for a in f['a'] if a[0] < a[1]]
        c = dict(op=op, f=S, single=1 if ns == 1 and rng.random() < .6 else 0, push=rng.choice(['none', 'none', 'tropical', 'log']),
                 rmf=0 if op == 'rm_loops' and rng.random() < .25 else 1,
                 at=rand_attrs(rng, flat(S), aux=rng.choice([None, 'dense', 'dense', 'rag'])))
        yield c


def run(c):
    torch, k2, _k2 = k2mods()
    a = mk_vec(c['f'])
    if c['single']:
        a = a[0]
    attach(a, c['at'])
    names = list(c['at'])
    op = c['op']
    unit = 2000 if op == 'det' else 1
    ev = dict(op='determinize' if op == 'det' else 'remove_epsilon', f=fsa_json(a)['f'], vec=0 if c['single'] else 1, push=c['push'], kind=op,
              attrs=read(a, names), rm=c['rmf'], zeros=1 if op == 'rm' else 0, loops=1 if op == 'rm_loops' else 0, unit=unit, tol=20)
    try:
        if op == 'rm':
            o = k2.remove_epsilon(a)
        elif op == 'rm_loops':
            o = k2.remove_epsilon_and_add_self_loops(a, remove_filler=bool(c['rmf']))
        elif op in ('rm_host', 'rm_device'):
            arcs, m = getattr(_k2, 'remove_epsilon_' + op[3:])(a.arcs)
            o = k2.utils.fsa_from_unary_function_ragged(a, arcs, m, remove_filler=True)
        else:
            T = k2.DeterminizeWeightPushingType if hasattr(k2, 'DeterminizeWeightPushingType') else _k2.DeterminizeWeightPushingType
            o = k2.determinize(a, {'none': T.kNoWeightPushing, 'tropical': T.kTropicalWeightPushing, 'log': T.kLogWeightPushing}[c['push']])
        sc = (lambda x: int(round(float(x) * unit))) if op == 'det' else si
        v = read1(o, 'id')
        out = dict(fsa_json(o, sc), attrs=read(o, names), dense=1 if v['kind'] == 'int' else 0)
        if v['kind'] == 'int':
            out['ids'] = [[x] if x else [] for x in v['v']]
        elif v['kind'] == 'rag':
            out['ids'] = v['v']
        else:
            out['ids'] = []
        ev['out'] = out
    except Exception as e:
        ev.update(err=type(e).__name__, msg=str(e)[:200])
    return [ev]


def nontrivial(c, ev):
    return any(f['a'] for f in c['f'])

"""C03: structural rewrites."""
from common import *
from attrs import *
from drivers.c05 import cyclic

TRACE_SPEC = 'T03'
RULE = ('random valid automata and batches (0-8 states; cycles, dead/unreachable/isolated states, epsilon self-loops, parallel arcs), random '
        'attribute sets; wide states for sorting; chains and diamonds for sorting/connecting; non-trivial: an input arc exists')
CASE_TIMEOUT = 30
OPS = ['connect', 'connect', 'top_sort', 'top_sort', 'arc_sort', 'arc_sort', 'add_epsilon_self_loops', 'remove_epsilon_self_loops', 'invert',
       'invert_ragged', 'expand', 'expand']


def MODELS(tier):
    return [dict(module='MC03', cfg='MC03.cfg' if tier == 'quick' else 'MC03_deep.cfg', workers=4,
                 actions=['Forward', 'Backward', 'Cut_', 'SortLayer'])]


def rfsa(rng, acyclic=False, empty=.06):
    r = rng.random()
    if r < empty:
        return dict(n=0, a=[])
    if r < empty + .06:
        return dict(n=rng.choice([2, 2, 3, 4]), a=[])
    n = rng.choice([2, 3, 3, 4, 5, 6, 8])
    f = rand_fsa(rng, n=n, nsym=rng.choice([1, 2, 4]), eps=rng.choice([0, .2, .5]), acyclic=acyclic,
                 narcs=rng.choice([1, 2, n, 2 * n, 3 * n]))
    if acyclic and rng.random() < .7:   # shuffle inner state numbers so that there is something to sort
        p = list(range(1, n - 1))
        rng.shuffle(p)
        p = [0] + p + [n - 1]
        f = dict(n=n, a=sorted([[p[a[0]], p[a[1]], a[2], a[3]] for a in f['a']], key=lambda a: a[0]))
    if rng.random() < .3:
        for _ in range(rng.randint(1, 3)):
            s = rng.randrange(n - 1)
            f['a'].append([s, s, rng.choice([0, 0, 1]), rng.randint(-2, 0)])
        f['a'].sort(key=lambda a: a[0])
    if rng.random() < .6:
        coreach_fix(rng, f)
    if rng.random() < .15:
        f = arc_sorted(f)
    return f


def flat(S):
    return [a for f in S for a in f['a']]


def gen(rng, tier, ctx):
    N = 5000 if tier == 'quick' else 60000
    for i in range(N):
        op = rng.choice(OPS)
        ns = rng.choice([1, 1, 2, 3, 4])
        acyc = rng.random() < (.9 if op == 'top_sort' else .5)
        S = [rfsa(rng, acyc) for _ in range(ns)]
        if rng.random() < .04:   # a big chain / layered graph
            n = rng.choice([20, 40])
            arcs = [[s, min(n - 2, s + d), rng.randint(0, 3), 0] for s in range(n - 2) for d in (1, 2) if s + d <= n - 2]
            arcs += [[n - 2, n - 1, -1, 1]]
            p = list(range(1, n - 1))
            rng.shuffle(p)
            p = [0] + p + [n - 1]
            S[0] = dict(n=n, a=sorted([[p[a[0]], p[a[1]], a[2], a[3]] for a in arcs], key=lambda a: a[0]))
        if op == 'arc_sort' and rng.random() < .1:   # wide states, big labels
            n = 4
            arcs = [[rng.randrange(3), rng.randrange(3), rng.choice([0, 1, 5, 1000, 2147483, rng.randrange(1 << 20)]), 1] for _ in range(60)]
            arcs += [[rng.randrange(3), 3, -1, 0] for _ in range(3)]
            S[0] = dict(n=n, a=sorted(arcs, key=lambda a: a[0]))
        c = dict(op=op, f=S, single=1 if ns == 1 and rng.random() < .6 else 0)
        if op == 'top_sort':
            # states that are not reachable from the start are still sorted
            pass
        aux = {'invert': 'dense', 'invert_ragged': 'rag'}.get(op) or rng.choice([None, 'dense', 'rag'])
        names = ('ia', 'ib', 'fa', 'ra', 'note')
        if op == 'expand':
            c['names'] = rng.choice([None, ['aux_labels'], ['ra'], ['ra', 'aux_labels']])
        c['at'] = rand_attrs(rng, flat(S), names=names, aux=aux)
        if op == 'expand':
            for x in c['names'] or []:
                if x not in c['at'] or c['at'][x][0] != 'rag':
                    c['at'].update({k: v for k, v in rand_attrs(rng, flat(S), names=('ra',), p=1, aux='rag').items() if k in ('ra', 'aux_labels')})
        yield c


def run(c):
    torch, k2, _k2 = k2mods()
    S = c['f']
    a = mk_vec(S)
    if c['single']:
        a = a[0]
    attach(a, c['at'])
    op = c['op']
    names = list(c['at'])
    ev = dict(op=op, f=fsa_json(a)['f'], vec=0 if c['single'] else 1, mayfail=0)
    rag = []
    if op == 'expand':
        rag = [n for n in names if c['at'][n][0] == 'rag'] if c['names'] is None else c['names']
    if op == 'invert_ragged':
        rag = ['aux_labels']
    if op == 'invert':
        ev['aux'] = c['at']['aux_labels'][2]
    keep = [n for n in names if n not in rag and not (op in ('invert', 'invert_ragged') and n == 'aux_labels')]
    ev['attrs'] = read(a, keep)
    ev['rag'] = [c['at'][n][2] for n in sorted(rag)]
    if op == 'top_sort' and any(cyclic(f) for f in ev['f']):
        ev['mayfail'] = 1
    try:
        m = None
        if op == 'expand':
            o, m = k2.expand_ragged_attributes(a, ret_arc_map=True, ragged_attribute_names=c['names'])
            m = tl(m)
        elif op in ('invert', 'invert_ragged'):
            o, m = k2.invert(a, ret_arc_map=True)
            m = tl(m)
        elif op == 'add_epsilon_self_loops':
            o, m = k2.add_epsilon_self_loops(a, ret_arc_map=True)
            m = tl(m)
        elif op == 'arc_sort':
            o, m = k2.arc_sort(a, ret_arc_map=True)
            m = tl(m)
        else:
            o = getattr(k2, op)(a)
            v = read1(o, 'id')
            m = [x - 1 for x in v['v']] if v['kind'] == 'int' else [-9]
        out = dict(fsa_json(o), m=m, attrs=read(o, keep))
        if op == 'expand':
            out['dense'] = [read1(o, n)['v'] if read1(o, n)['kind'] == 'int' else [] for n in sorted(rag)]
        if op in ('invert', 'invert_ragged'):
            v = read1(o, 'aux_labels')
            out['aux'] = v['v'] if v['kind'] == 'int' else []
        ev['out'] = out
    except Exception as e:
        ev.update(err=type(e).__name__, msg=str(e)[:200])
    return [ev]


def nontrivial(c, ev):
    return any(f['a'] for f in c['f'])

"""C05: property flags and validation."""
from common import *

TRACE_SPEC = 'T05'
RULE = ('valid, malformed and boundary automata (0-6 states), alone and in batches, flags read directly, after chains of '
        'operations and after label assignments; constructors fed with perturbed arc lists; non-trivial: has an arc')
CASE_TIMEOUT = 30


def MODELS(tier):
    return [dict(module='MC05', cfg='MC05.cfg' if tier == 'quick' else 'MC05_deep.cfg', workers=4, actions=['Scan'])]


OPS = ['arc_sort', 'top_sort', 'connect', 'add_eps', 'rm_selfloops', 'invert', 'union', 'closure', 'batch', 'index',
       'setlabels', 'reverse', 'clone', 'to_cpu', 'rm_eps', 'determinize', 'setscores', 'fromraw', 'selidx']


def rfsa(rng):
    r = rng.random()
    if r < 0.07:
        return dict(n=0, a=[])
    if r < 0.15:   # no arcs
        return dict(n=rng.choice([2, 3]), a=[])
    f = rand_fsa(rng, n=rng.choice([2, 2, 3, 3, 4, 5, 6]), nsym=rng.choice([1, 2, 3]), eps=rng.choice([0, 0, .3]),
                 acyclic=rng.random() < .6)
    if rng.random() < .4:
        f['a'].sort(key=lambda x: (x[0], x[2] & 0xffffffff, x[1]))
    if rng.random() < .25:   # chain: connected
        n = f['n']
        f = dict(n=n, a=[[i, i + 1, rng.randint(0, 3) if i < n - 2 else -1, 1] for i in range(n - 1)])
    return f


def perturb(rng, f):
    """one defect somewhere"""
    a = [list(x) for x in f['a']]
    n = f['n']
    if not a:
        return f
    k = rng.randrange(len(a))
    d = rng.choice(['lab', 'neg', 'dst', 'dstneg', 'final', 'fin2', 'swap', 'lastarc', 'nofinal', 'src'])
    if d == 'lab':
        a[k][2] = rng.choice([-1, 0, 1])
    elif d == 'neg':
        a[k][2] = rng.choice([-2, -3, -100])
    elif d == 'dst':
        a[k][1] = rng.choice([n, n + 1, n + 5, 100])
    elif d == 'dstneg':
        a[k][1] = rng.choice([-1, -2])
    elif d == 'final':
        a[k][1] = n - 1
    elif d == 'fin2':
        a.append([n - 1, rng.randrange(n), rng.choice([1, 0, -1]), 0])
    elif d == 'swap':
        j = rng.randrange(len(a))
        a[k], a[j] = a[j], a[k]
    elif d == 'lastarc':
        a.append([n + rng.choice([0, 1, 7]), rng.randrange(n), rng.choice([1, -1]), 0])
    elif d == 'nofinal':
        a = [x for x in a if x[2] != -1]
    elif d == 'src':
        a[k][0] = rng.choice([-1, n, n - 1, 0])
    return dict(n=n, a=a)


def gen(rng, tier, ctx):
    N = 3000 if tier == 'quick' else 40000
    for i in range(N):
        r = rng.random()
        if r < .35:
            f = rfsa(rng)
            if rng.random() < .6:
                f = perturb(rng, f)
            yield dict(k='ctor', arcs=f['a'])
        elif r < .6:
            # raw storage: rows and src may disagree
            S = [rfsa(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            for f in S:
                cnt = [0] * f['n']
                for x in f['a']:
                    cnt[x[0]] += 1
                f['c'] = cnt
                if f['a'] and rng.random() < .35:
                    g = perturb(rng, f)
                    if len(g['a']) == len(f['a']):
                        f['a'] = g['a']
                    elif g['a'] and len(g['a']) > len(f['a']):
                        f['a'] = g['a']
                        f['c'][-1] += 1
            yield dict(k='raw', f=S, single=1 if len(S) == 1 and rng.random() < .5 else 0)
        else:
            S = [rfsa(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            yield dict(k='ops', f=S, single=1 if len(S) == 1 and rng.random() < .6 else 0,
                       ops=[[rng.choice(OPS), rng.randrange(1000)] for _ in range(rng.randint(1, 5))])


def raw(S):
    import torch, k2, _k2
    rs1, rs2, rows = [0], [0], []
    for f in S:
        for c in f['c']:
            rs2.append(rs2[-1] + c)
        rs1.append(rs1[-1] + f['n'])
        rows += f['a']
    s1 = k2.ragged.create_ragged_shape2(torch.tensor(rs1, dtype=torch.int32), None, rs1[-1])
    s2 = k2.ragged.create_ragged_shape2(torch.tensor(rs2, dtype=torch.int32), None, rs2[-1])
    return _k2.RaggedArc(s1.compose(s2), mk_arcs_tensor(dict(a=rows)))


NAMES = ['VALID', 'NONEMPTY', 'TOPSORTED', 'TOPSORTED_AND_ACYCLIC', 'ARC_SORTED', 'ARC_SORTED_AND_DETERMINISTIC',
         'EPSILON_FREE', 'ACCESSIBLE', 'COACCESSIBLE']
STR = dict(Valid='VALID', Nonempty='NONEMPTY', TopSorted='TOPSORTED', TopSortedAndAcyclic='TOPSORTED_AND_ACYCLIC',
           ArcSorted='ARC_SORTED', ArcSortedAndDeterministic='ARC_SORTED_AND_DETERMINISTIC',
           EpsilonFree='EPSILON_FREE', MaybeAccessible='ACCESSIBLE', MaybeCoaccessible='COACCESSIBLE')


def cyclic(f):
    n = f['n']
    deg = [0] * n
    for a in f['a']:
        if a[0] != a[1]:
            deg[a[1]] += 1
    q = [s for s in range(n) if not deg[s]]
    k = 0
    while k < len(q):
        for a in f['a']:
            if a[0] == q[k] and a[0] != a[1]:
                deg[a[1]] -= 1
                if not deg[a[1]]:
                    q.append(a[1])
        k += 1
    return len(q) < n or any(a[1] == 0 and a[0] != 0 for a in f['a'])   # start state must come first


def flags(p):
    import k2
    return [n for n in NAMES if p & getattr(k2.fsa_properties, n)]


def names(s):
    return sorted(STR.get(x, x) for x in s.strip('"').split('|') if x)


def flag_event(what, fsa):
    return dict(op='flags', what=what, out=dict(f=arcs_json(fsa.arcs), flags=flags(fsa.properties),
                                                 names=names(fsa.properties_str)))


def run(c):
    torch, k2, _k2 = k2mods()
    ev = []
    if c['k'] == 'ctor':
        e = dict(op='ctor', arcs=c['arcs'])
        try:
            f = k2.Fsa(mk_arcs_tensor(dict(a=c['arcs'])))
            e['out'] = dict(f=arcs_json(f.arcs))
        except (RuntimeError, ValueError, AssertionError) as x:
            e['err'] = type(x).__name__
            return [e]
        return [e, flag_event('ctor', f)]
    if c['k'] == 'raw':
        r = raw(c['f'])
        if c['single']:
            r, _ = r.index(0, 0)
            p = _k2.get_fsa_basic_properties(r)
        else:
            p = _k2.get_fsa_vec_basic_properties(r)
        ev.append(dict(op='flags', what='raw', out=dict(f=arcs_json(r), flags=flags(p),
                                                       names=names(k2.fsa_properties.to_str(p)))))
        e = dict(op='batchctor', f=arcs_json(r))
        try:
            k2.Fsa(r)
            e['out'] = 1
        except (RuntimeError, ValueError, AssertionError) as x:
            e['err'] = type(x).__name__
        return ev + [e]
    S = c['f']
    a = mk_vec(S)
    if c['single']:
        a = a[0]
    ev.append(flag_event('start', a))
    for op, x in c['ops']:
        A = a.properties
        P = k2.fsa_properties
        if a.arcs.values().shape[0] > 400:
            break
        vec = len(a.shape) == 3
        try:
            if op == 'arc_sort': b = k2.arc_sort(a)
            elif op == 'top_sort':
                if any(cyclic(f) for f in arcs_json(a.arcs)):
                    continue
                b = k2.top_sort(a)
            elif op == 'connect': b = k2.connect(a)
            elif op == 'add_eps': b = k2.add_epsilon_self_loops(a)
            elif op == 'rm_selfloops': b = k2.remove_epsilon_self_loops(a)
            elif op == 'invert':
                a.aux_labels = a.labels.clone(); b = k2.invert(a)
                del a.aux_labels
                del b.aux_labels
            elif op == 'union':
                if vec and any(f['n'] == 0 for f in arcs_json(a.arcs)):
                    continue
                b = k2.union(a) if vec else a
            elif op == 'closure':
                if not vec and a.shape[0] < 2:
                    continue
                b = k2.closure(a) if not vec else a
            elif op == 'batch': b = k2.create_fsa_vec([a, a]) if not vec else a
            elif op == 'index': b = a[x % a.shape[0]] if vec and a.shape[0] else a
            elif op == 'reverse': b = k2.reverse(a)
            elif op == 'clone': b = a.clone()
            elif op == 'to_cpu': b = a.to('cpu')
            elif op == 'rm_eps':
                if any(q[2] == 0 and q[3] > 0 for f in arcs_json(a.arcs) for q in f['a']):
                    continue
                b = k2.remove_epsilon(a)
            elif op == 'determinize':
                if vec or not (A & P.TOPSORTED_AND_ACYCLIC) or not (A & P.EPSILON_FREE) or not a.arcs.values().shape[0] \
                        or not (k2.connect(a).arcs.values().shape[0]):
                    continue
                b = k2.determinize(k2.connect(a))
            elif op == 'setscores':
                a.scores = a.scores + 1
                b = a
            elif op == 'fromraw': b = k2.Fsa(a.arcs)
            elif op == 'selidx':
                if not vec or not a.shape[0]:
                    continue
                b = k2.index_fsa(a, torch.tensor([(x + j) % a.shape[0] for j in range(2)], dtype=torch.int32))
            elif op == 'setlabels':
                r = __import__('random').Random(x)
                n = a.arcs.values().shape[0]
                isf = [1 if q[2] == -1 else 0 for f in arcs_json(a.arcs) for q in f['a']]
                want = [r.choice([-1, 0]) if isf[k] else r.choice([-1, 0, 1, 2, 3, 1]) for k in range(n)]
                a.labels = torch.tensor(want, dtype=torch.int32)
                ev.append(dict(op='setlabels', want=want, isfinal=isf, out=dict(lab=tl(a.labels))))
                b = a
        except Exception as e:
            return ev + [dict(op=op, err=type(e).__name__, msg=str(e).strip()[:100])]
        # operands keep truthful flags too
        ev.append(flag_event(op, b))
        ev.append(flag_event(op + '/operand', a))
        a = b
    return ev


def nontrivial(c, ev):
    return bool(c.get('arcs')) or any(f['a'] for f in c.get('f', []))
